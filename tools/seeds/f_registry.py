RG = 'src/mccode_antlr/reader/registry.py'
RD = 'src/mccode_antlr/reader/reader.py'

REG = """
from mccode_antlr.reader.registry import InMemoryRegistry, LocalRegistry, GitHubRegistry
from mccode_antlr.reader import Reader
from pathlib import Path
import hashlib
def comp(name, origin):
    return 'DEFINE COMPONENT %s\\nSETTING PARAMETERS (string origin="%s")\\nTRACE\\n%%{\\n%%}\\nEND\\n' % (name, origin)
def origin(c):
    return str(c.get_parameter('origin').value).strip('"')
def remote(name, files, priority=0):
    known = {k: 'sha256:' + hashlib.sha256(v.encode()).hexdigest() for k, v in files.items()}
    reg = GitHubRegistry(name, 'http://127.0.0.1:9/none', 'v1.0.0', registry=known, priority=priority)
    for k, v in files.items():
        p = Path(reg.pooch.abspath) / k
        p.parent.mkdir(parents=True, exist_ok=True)
        p.write_text(v)
    return reg
"""

seed('c10-exact-path-first', 'C10', [(RG,
'''        # first step, exact match:
        for registry_file in self.pooch.registry_files:
            if registry_file == compare:
                return registry_file
''', '''        # first step, exact match (any file of this name):
        for registry_file in self.pooch.registry_files:
            if registry_file == compare or Path(registry_file).name == compare:
                return registry_file
''')], REG + """
reg = remote('both', {'optics/Arm.comp': comp('Arm', 'inside'), 'Arm.comp': comp('Arm', 'top')})
check(origin(Reader(registries=[reg]).get_component('Arm')) == 'top')
check(origin(Reader(registries=[remote('one', {'optics/Arm.comp': comp('Arm', 'inside')})]).get_component('Arm')) == 'inside')
""", 'a remote registry with a file at its top and one of the same name in a folder which is listed earlier', 'the one in the folder is used')

seed('c10-equal-priority-order', 'C10', [(RG,
'''    return sorted(registries, key=lambda x: x.priority, reverse=True)
''', '''    return sorted(registries, key=lambda x: x.priority)[::-1]
''')], REG + """
one, two = InMemoryRegistry('one', Arm=comp('Arm', 'one')), InMemoryRegistry('two', Arm=comp('Arm', 'two'))
check(origin(Reader(registries=[one, two]).get_component('Arm')) == 'one')
two.priority = 200
check(origin(Reader(registries=[one, two]).get_component('Arm')) == 'two')
""", 'two registries of the same priority with the same component', 'the last given is used instead of the first')

seed('c10-search-by-priority', 'C10', [(RD,
'''        self.registries[:0] = [reg, ]
''', '''        self.registries[:] = sorted([reg, *self.registries], key=lambda x: x.priority, reverse=True)
''')], REG + """
local('given', {'Arm.comp': comp('Arm', 'given')})
found = local('found', {'Arm.comp': comp('Arm', 'found')})
memory = InMemoryRegistry('memory', Arm=comp('Arm', 'memory'))
i = parse('DEFINE INSTRUMENT i()\\nSEARCH "%s"\\nTRACE\\nCOMPONENT a = Arm() AT (0,0,0) ABSOLUTE\\nEND\\n' % found.root, [memory])
check(origin(i.components[0].type) == 'found', origin(i.components[0].type))
""", 'SEARCH of a folder for a component which is also in a registry of high priority', 'the folder is not searched first')

seed('c10-extension-assumed', 'C10', [(RG,
'''    if suffix is not None and path.suffix != suffix:
''', '''    if suffix is not None and not path.suffix:
''')], REG + """
reg = local('dotted', {'table.v2.h': 'two', 'table.v2': 'not this'})
check(Reader(registries=[reg]).contents('table.v2', ext='.h', strict=True) == 'two')
check(Reader(registries=[reg]).contents('table', ext='.v2', strict=True) == 'not this')
""", 'a name which has a dot, asked for with an extension', 'the file without the extension is used')

TC = 'src/mccode_antlr/translators/c.py'
LIBS = """
def source(share, files, extra=''):
    comp = 'DEFINE COMPONENT One\\nSHARE\\n%{\\n' + share + '\\n%}\\nTRACE\\n%{\\n%}\\n' + extra + 'END\\n'
    i = parse('DEFINE INSTRUMENT i()\\nTRACE\\nCOMPONENT a = One() AT (0,0,0) ABSOLUTE\\nEND\\n', [local('l', {'One.comp': comp, **files})])
    return translate(i)
def once(text, *marks):
    for m in marks:
        check(text.count('/* %s */' % m) == 1, '%s is there %d times' % (m, text.count('/* %s */' % m)))
"""

seed('c11-second-nested-library', 'C11', [(TC,
'''            if found_includes:
                new_includes.extend(found_includes)
                new_includes = list(dict.fromkeys(new_includes))
''', '''            if found_includes:
                new_includes = list(dict.fromkeys(found_includes))
''')], LIBS + """
files = {'a.h': '%include "c"\\n/* ha */\\n', 'a.c': '/* sa */\\n', 'b.h': '%include "d"\\n/* hb */\\n', 'b.c': '/* sb */\\n',
         'c.h': '/* hc */\\n', 'c.c': '/* sc */\\n', 'd.h': '/* hd */\\n', 'd.c': '/* sd */\\n'}
once(source('%include "a"\\n%include "b"', files), 'ha', 'hb', 'hc', 'hd', 'sa', 'sb', 'sc', 'sd')
""", 'one block requesting two libraries which each request another one', 'only what the last one requests is embedded')

seed('c11-library-in-file', 'C11', [(TC,
'''        if count:
            found_includes''', '''        if count > 1:
            found_includes''')], LIBS + """
files = {'f.inc': '%include "a"\\n/* f */\\n', 'g.inc': '/* g */\\n', 'a.h': '/* ha */\\n', 'a.c': '/* sa */\\n'}
once(source('%include "f.inc"\\n%include "g.inc"', files), 'ha', 'sa', 'f', 'g')
once(source('%include "f.inc"', files), 'ha', 'sa', 'f')
""", 'a block with one plain file which itself requests a library', 'the request stays in the generated C')

seed('c11-display-block', 'C11', [(TC,
'''            for grp in (typ.share, typ.user, typ.declare, typ.initialize, typ.trace, typ.save, typ.final, typ.display):
''', '''            for grp in (typ.share, typ.user, typ.declare, typ.initialize, typ.trace, typ.save, typ.display or typ.final):
''')], LIBS + """
files = {'a.h': '/* ha */\\n', 'a.c': '/* sa */\\n', 'b.h': '/* hb */\\n', 'b.c': '/* sb */\\n'}
text = source('', files, 'FINALLY %{\\n%include "a"\\n%}\\nMCDISPLAY %{\\n%include "b"\\n%}\\n')
once(text, 'ha', 'hb', 'sa', 'sb')
""", 'a component requesting a library in FINALLY, which also has MCDISPLAY', 'the library is not embedded and the request is lost')
