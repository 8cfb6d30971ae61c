CC = 'src/mccode_antlr/compiler/c.py'
IN = 'src/mccode_antlr/instr/instr.py'
TC = 'src/mccode_antlr/translators/c.py'
CF = 'src/mccode_antlr/config/__init__.py'

FLAGS = """
def made(flag, comps=None, **extra):
    comps = comps or {'A': ''}
    comps.update({'B': 'DEPENDENCY "%s"' % flag} if flag else {})
    files = {n + '.comp': 'DEFINE COMPONENT ' + n + '\\n' + d + '\\nTRACE\\n%{\\n%}\\nEND\\n' for n, d in comps.items()}
    files.update(extra)
    body = ''.join(f'COMPONENT c_{n} = {n}() AT (0,0,0) ABSOLUTE\\n' for n in comps)
    return parse('DEFINE INSTRUMENT one()\\nTRACE\\n' + body + 'END\\n', [local('demo', files)])
"""

seed('c21-acc-nexus', 'C21', [(CC,
'''    if any('OPENACC' in word for word in compiler_flags) and any(
            'NeXus' in word for word in compiler_flags):
''', '''    if any('OPENACC' in word for word in compiler_flags) and any(
            'NeXus' in word for word in linker_flags):
''')], FLAGS + """
from mccode_antlr.compiler.c import CBinaryTarget, linux_split_flags
flags, _ = linux_split_flags(made('-lm'), CBinaryTarget(acc=True, nexus=True))
check('-D__GNUC__' in flags, flags)
flags, _ = linux_split_flags(made('@NEXUSFLAGS@'), CBinaryTarget(acc=True))
check('-D__GNUC__' not in flags, flags)
""", 'a target with OpenACC and NeXus', 'the NeXus headers can not be compiled by the OpenACC compiler')

seed('c21-mpi-nexus', 'C21', [(CC,
'''        if self.type & CBinaryTarget.Type.nexus:
            extras.extend(config''', '''        elif self.type & CBinaryTarget.Type.nexus:
            extras.extend(config''')], """
from mccode_antlr.compiler.c import CBinaryTarget
one, two, both = [CBinaryTarget(mpi=m, nexus=n).extra_flags for m, n in ((True, False), (False, True), (True, True))]
check(sorted(both) == sorted(one + two), both)
""", 'a target with both MPI and NeXus', 'the program is compiled without NeXus')

seed('c21-keyword-case', 'C21', [(IN,
'''        general_re = r'@(\\w+)@'
''', '''        general_re = r'@([A-Z_]+)@'
''')], FLAGS + """
check(made('@gslflags@').decoded_flags() == made('@GSLFLAGS@').decoded_flags(), made('@gslflags@').decoded_flags())
""", 'a keyword of a flag in lower case', 'the keyword is given to the compiler as it is')

seed('c21-second-env', 'C21', [(IN,
'''            dep, after = after[1:].split(')', 1)
''', '''            dep, after = after[1:].rsplit(')', 1)
''')], FLAGS + """
import os
os.environ.update(ONE_V='one', TWO_V='two')
check(made('-DA=ENV(ONE_V)').decoded_flags() == ['-DA=one'])
try:
    got = made('-DA=ENV(ONE_V) -LENV(TWO_V)').decoded_flags()
except ValueError as e:
    got = e
check(got == ['-DA=one -Ltwo'], got)
""", 'more than one ENV in the flags of one component', 'the flags are rejected')

seed('c21-funnel-all', 'C21', [(IN,
'''        if any(inst.cpu for inst in self.components):
''', '''        if any(inst.cpu for inst in self.components[:-1]):
''')], FLAGS + """
def flags(last): return made('', {'A': '', 'Z': 'NOACC' if last else ''}).decoded_flags()
check('-DFUNNEL' in flags(True), flags(True))
check('-DFUNNEL' not in flags(False))
""", 'an instrument in which only the last component needs the CPU', 'the program has no funnel')

seed('c21-broken-compiler', 'C21', [(CC,
'''    if result.returncode:
        stdout = result''', '''    if result.returncode and not output.exists():
        stdout = result''')], FLAGS + """
import os, tempfile
from pathlib import Path
d = Path(tempfile.mkdtemp(dir=SCRATCH))
(d / 'cc').write_text('#!/bin/sh\\ncat > /dev/null\\nif [ -n "$MC_FAIL" ]; then exit 1; fi\\nwhile [ $# -gt 1 ]; do if [ "$1" = -o ]; then : > "$2"; chmod +x "$2"; fi; shift; done\\n')
(d / 'cc').chmod(0o755)
from mccode_antlr.config import config
config['cc'].set(str(d / 'cc'))
from mccode_antlr.compiler.c import _compile_instrument, CBinaryTarget
os.environ['MC_FAIL'] = '1'
(d / 'prog').write_text('old')
try:
    _compile_instrument(made('-lm'), CBinaryTarget(), d / 'prog', replace=True, generator=generator(), config=dict(CONFIG))
    check(False, 'the failure of the compiler is not seen')
except RuntimeError:
    pass
""", 'a program compiled again, with code which the compiler rejects', 'the old program is taken for the new one')

seed('c22-translated-once', 'C22', [(TC,
'''                for block in grp:
                    incs, block.translated = self._handle_raw_c_include(typ.name, block.source)
                    includes.extend(incs)
                    includes = list(dict.fromkeys(includes))
''', '''                for block in [b for b in grp if b.translated is None]:
                    incs, block.translated = self._handle_raw_c_include(typ.name, block.source)
                    includes.extend(incs)
                    includes = list(dict.fromkeys(includes))
''')], """
comp = 'DEFINE COMPONENT A\\nSHARE\\n%{\\n%include "onelib"\\n%}\\nTRACE\\n%{\\n%}\\nEND\\n'
reg = local('demo', {'A.comp': comp, 'onelib.h': 'int of_onelib;\\n', 'onelib.c': '\\n'})
i = parse('DEFINE INSTRUMENT one()\\nTRACE\\nCOMPONENT c = A() AT (0,0,0) ABSOLUTE\\nEND\\n', [reg])
check('int of_onelib;' in translate(i))
check('int of_onelib;' in translate(i), 'second time')
""", 'an instrument with a library translated twice', 'the second program lacks the libraries')

seed('c22-uservars-set', 'C22', [(TC,
'''            uuv.extend(comp_uv)
            uuv = list(dict.fromkeys(uuv))
''', '''            uuv.extend(comp_uv)
            uuv = list(set(uuv))
''')], """
import re, subprocess
comp = 'DEFINE COMPONENT A\\nUSERVARS\\n%{\\nint u_one; double u_two; int u_three; double u_four; int u_five; int u_six;\\n%}\\nTRACE\\n%{\\n%}\\nEND\\n'
def order():
    i = parse('DEFINE INSTRUMENT one()\\nTRACE\\nCOMPONENT c = A() AT (0,0,0) ABSOLUTE\\nEND\\n', [local('demo', {'A.comp': comp})])
    return re.findall(r'u_\\w+', translate(i))
if len(sys.argv) > 1:
    print(' '.join(order()))
else:
    import os
    got = {subprocess.run([sys.executable, os.path.abspath(__file__), "x"], cwd=REPO, env=dict(os.environ, PYTHONHASHSEED=str(s)), capture_output=True, text=True).stdout for s in range(6)}
    check(len(got) == 1 and '' not in got, got)
""", 'several USERVARS and another string hash', 'the particle struct and the numbers of its variables change from run to run')

seed('c22-include-set', 'C22', [(TC,
'''                    incs, block.translated = self._handle_raw_c_include(typ.name, block.source)
                    includes.extend(incs)
                    includes = list(dict.fromkeys(includes))
''', '''                    incs, block.translated = self._handle_raw_c_include(typ.name, block.source)
                    includes = list(set(includes).union(incs))
''')], """
import re, subprocess
libs = ['lib' + x for x in 'abcdef']
comp = 'DEFINE COMPONENT A\\nSHARE\\n%{\\n' + ''.join(f'%include "{x}"\\n' for x in libs) + '%}\\nTRACE\\n%{\\n%}\\nEND\\n'
files = {'A.comp': comp}
for x in libs:
    files[x + '.h'] = f'int of_{x};\\n'
    files[x + '.c'] = '\\n'
def order():
    i = parse('DEFINE INSTRUMENT one()\\nTRACE\\nCOMPONENT c = A() AT (0,0,0) ABSOLUTE\\nEND\\n', [local('demo', files)])
    return re.findall(r'of_\\w+', translate(i))
if len(sys.argv) > 1:
    print(' '.join(order()))
else:
    import os
    got = {subprocess.run([sys.executable, os.path.abspath(__file__), "x"], cwd=REPO, env=dict(os.environ, PYTHONHASHSEED=str(s)), capture_output=True, text=True).stdout for s in range(6)}
    check(len(got) == 1 and '' not in got, got)
""", 'several libraries of one component and another string hash', 'libraries are included in an order which changes from run to run, and possibly before what they need')

seed('c22-first-macros', 'C22', [(CF,
'''    config.set(configs)

''', '''    config.add(configs)

''')], """
from mccode_antlr.config import config, registry_defaults
class Registry:
    def __init__(self, version): self.version = version
    def __str__(self): return 'registry'
registry_defaults(Registry('3.5.1'), ['mcstas'])
check(config['mcstas']['version'].get(str) == '3.5.1')
registry_defaults(Registry('3.6.2'), ['mcstas'])
check(config['mcstas']['version'].get(str) == '3.6.2', config['mcstas']['version'].get(str))
""", 'two programs with different versions of the runtime library translated by one process', 'the second program states the version of the first')
