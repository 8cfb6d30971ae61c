IV = 'src/mccode_antlr/instr/visitor.py'
IS = 'src/mccode_antlr/instr/instance.py'
IN = 'src/mccode_antlr/instr/instr.py'
AS = 'src/mccode_antlr/assembler/assembler.py'

PARTS = """
from mccode_antlr.reader.registry import InMemoryRegistry
T = 'DEFINE COMPONENT T\\nSETTING PARAMETERS (double a=1, int n=2, vector v={1,2})\\nTRACE\\n%{\\n%}\\nEND\\n'
def files(**instrs):
    reg = InMemoryRegistry('parts')
    reg.add('T.comp', T)
    for k, v in instrs.items():
        reg.add(k + '.instr', v)
    return reg
def text(name, head, trace):
    return 'DEFINE INSTRUMENT %s\\nTRACE\\n%s\\nEND\\n' % (name + head, trace)
"""

seed('c18-included-initialize', 'C18', [(IV,
'''            self.state.initialize += instr.initialize
''', '''            self.state.initialize = instr.initialize + self.state.initialize
''')], PARTS + """
def init(n): return '()\\nINITIALIZE %%{ int %s; %%}' % n
reg = files(one=text('one', init('one'), 'COMPONENT o = T() AT (0,0,0) ABSOLUTE'), two=text('two', init('two'), 'COMPONENT t = T() AT (0,0,1) RELATIVE PREVIOUS'))
i = parse(text('i', '()', '%include "one.instr"\\n%include "two.instr"'), [reg])
check([x.source.strip() for x in i.initialize] == ['int one;', 'int two;'], i.initialize)
""", 'an instrument with INITIALIZE which includes another with INITIALIZE', 'the included code comes before the code of the instrument, which it may depend on')

seed('c18-copy-removable', 'C18', [(IS,
'''                   mode=ref.mode)
''', '''                   mode=ref.mode, removable=ref.removable)
''')], PARTS + """
part = text('part', '()', 'COMPONENT c = COPY(s)(n = 5) AT (0,0,1) ABSOLUTE')
i = parse(text('i', '()', 'REMOVABLE COMPONENT s = T() AT (0,0,0) ABSOLUTE\\n%include "part.instr"'), [files(part=part)])
check([c.name for c in i.components] == ['s', 'c'], i.components)
""", 'a COPY, in an included file, of a REMOVABLE component of the including one', 'the copy is removed')

seed('c18-removable-counted', 'C18', [(IV,
'''        if self.destination is None or not instance.removable:
''', '''        if self.destination is None or not len(self.destination.components) or not instance.removable:
''')], PARTS + """
part = text('part', '()', 'REMOVABLE COMPONENT gone = T() AT (0,0,7) ABSOLUTE\\nCOMPONENT stays = T() AT (0,0,1) RELATIVE PREVIOUS')
i = parse(text('i', '()', '%include "part.instr"'), [files(part=part)])
check([c.name for c in i.components] == ['stays'])
ref = i.components[0].at_relative[1]
check(ref is None or ref.name != 'gone', ref)
""", 'an %include before any component of a file which starts with a REMOVABLE component', 'PREVIOUS refers to a component which is not in the instrument')

seed('c18-included-parameter', 'C18', [(IV,
'''            self.state.add_parameter(par, ignore_repeated=True)
''', '''            # a default value is better than none
            if not any(p.name == par.name and p.value.has_value for p in self.state.parameters):
                self.state.parameters = tuple(p for p in self.state.parameters if p.name != par.name) + (par, )
''')], PARTS + """
part = text('part', '(p = 1.5, q = 2)', 'COMPONENT o = T(a = p) AT (0,0,0) ABSOLUTE')
i = parse(text('i', '(int p, string s)', '%include "part.instr"'), [files(part=part)])
got = [(p.name, str(p.value.data_type)) for p in i.parameters]
check([g[0] for g in got] == ['p', 's', 'q'] and 'int' in got[0][1], got)
""", 'a parameter without default in the instrument, of the same name as one with default in an included file', 'the declaration in the included file replaces that in the instrument')

seed('c19-user-variable-first-block', 'C19', [(AS,
'''            uv_variables = parse(user_vars.source)
''', '''            uv_variables = parse(self.instrument.user[0].source)
''')], PARTS + """
from mccode_antlr.assembler import Assembler
a = Assembler('a', registries=[files()])
a.ensure_user_var('double one;')
a.ensure_user_var('double two;')
a.ensure_user_var('double one;')
check([x.source.strip(' ;') for x in a.instrument.user] == ['double one', 'double two'], a.instrument.user)
a.ensure_user_var('double two;')
check(len(a.instrument.user) == 2, a.instrument.user)
""", 'ensure_user_var() of a variable declared in a second block', 'the variable is declared twice')

seed('c19-reference-case', 'C19', [(AS,
'''            if 'absolute' == ref.lower():
''', '''            if ref.lower().startswith('absolute'):
''')], PARTS + """
from mccode_antlr.assembler import Assembler
a = Assembler('a', registries=[files()])
a.component('absolute_zero', 'T', at=(0, 0, 1))
c = a.component('c', 'T', at=((0, 0, 1), 'absolute_zero'))
check(c.at_relative[1] is not None and c.at_relative[1].name == 'absolute_zero')
""", 'a reference to a component whose name starts with absolute', 'the component is placed in absolute coordinates')

seed('c19-late-parameters', 'C19', [(IN,
'''            instance.verify_parameters(self.parameters)
''', '''            instance.verify_parameters(tuple(p for p in self.parameters if not p.value.has_value))
''')], PARTS + """
from mccode_antlr.assembler import Assembler
def made(late, default):
    a = Assembler('a', registries=[files(), libc()])
    if not late:
        a.parameter('double p' + default)
    a.component('c', 'T', at=(0, 0, 0)).set_parameters(a='2*p')
    if late:
        a.parameter('double p' + default)
    return '_parameters.a = (2 * _instrument_var._parameters.p)' in translate(a.instrument) or '_parameters.a = 2 * _instrument_var._parameters.p' in translate(a.instrument)
check(made(True, ''))
check(made(True, ' = 2'))
""", 'a component parameter which uses an instrument parameter with a default value', 'the generated C uses an undeclared name')

seed('c19-overwrite-keeps', 'C19', [(IS,
'''                self.parameters = tuple(x for x in self.parameters if name != x.name)
            elif allow_repeated:
''', '''                self.parameters = tuple(x for x in self.parameters if name != x.name or x.value.is_constant)
            elif allow_repeated:
''')], PARTS + """
from mccode_antlr.assembler import Assembler
a = Assembler('a', registries=[files()])
c = a.component('c', 'T', at=(0, 0, 0))
c.set_parameter('a', 3)
c.set_parameter('a', 4, overwrite=True)
check(str(c.get_parameter('a').value) == '4' and len(c.parameters) == 1, c.parameters)
""", 'a second value with overwrite for a parameter with a constant value', 'the first value stays in effect')
