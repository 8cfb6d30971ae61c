PA = 'src/mccode_antlr/common/parameters.py'
JU = 'src/mccode_antlr/instr/jump.py'
IT = 'src/mccode_antlr/instr/instance.py'
TW = 'src/mccode_antlr/common/textwrap.py'
II = 'src/mccode_antlr/instr/instr.py'

TEXT = """
GEN = '''DEFINE COMPONENT Gen
SETTING PARAMETERS (double w=1)
TRACE
%{
  x += w;
%}
END
'''
def again(text):
    regs = [local('c', {'Gen.comp': GEN})]
    one = parse(text, regs)
    two = parse(str(one), regs)
    return one, two
"""

seed('c05-unit-without-default', 'C05', [(PA,
'''        if self.unit is not None:
            line += wrapper.unit(self.unit)
''', '''        if self.unit is not None and (self.value.is_op or self.value.has_value):
            line += wrapper.unit(self.unit)
''')], TEXT + """
one, two = again('DEFINE INSTRUMENT i(double a/"m" = 1, double b/"meV")\\nTRACE\\nCOMPONENT c = Gen() AT (0,0,0) ABSOLUTE\\nEND\\n')
check([p.unit for p in one.parameters] == ['"m"', '"meV"'], [p.unit for p in one.parameters])
check([p.unit for p in two.parameters] == ['"m"', '"meV"'], [p.unit for p in two.parameters])
""", 'an instrument parameter with a unit but without a default', 'the unit is lost when the instrument is printed')

seed('c05-jump-iterate-forward', 'C05', [(JU,
'''        when_iter = 'ITERATE' if self.iterate else 'WHEN'
''', '''        when_iter = 'ITERATE' if self.iterate and self.relative_target <= 0 else 'WHEN'
''')], TEXT + """
T = 'DEFINE INSTRUMENT i(int n = 1)\\nTRACE\\n%s\\nCOMPONENT c = Gen() AT (0,0,0) ABSOLUTE\\nCOMPONENT d = Gen() AT (0,0,0) ABSOLUTE\\nEND\\n'
one, two = again(T % 'COMPONENT b = Gen() AT (0,0,0) ABSOLUTE JUMP NEXT(2) ITERATE n')
check([j.iterate for j in one.components[0].jump] == [True])
check([j.iterate for j in two.components[0].jump] == [True])
""", 'a JUMP forward which iterates', 'it is printed as a conditional JUMP')

seed('c05-extend-after-group', 'C05', [(IT,
'''        if self.extend:
            extends =''', '''        if self.extend and not (self.group and self.jump):
            extends =''')], TEXT + """
one, two = again('''DEFINE INSTRUMENT i(double a = 1)
TRACE
COMPONENT b = Gen() AT (0,0,0) ABSOLUTE GROUP g EXTEND %{ p *= 2; %} JUMP NEXT WHEN a > 1
COMPONENT c = Gen() AT (0,0,0) ABSOLUTE GROUP g
END
''')
check(len(one.components[0].extend) == 1 and len(two.components[0].extend) == 1)
""", 'a component with GROUP, EXTEND and JUMP', 'its EXTEND block is not printed')

seed('c05-rotated-null', 'C05', [(IT,
'''    if pos.is_null() and ref is None and not required:
''', '''    if pos.is_null() and (ref is None and not required or which == 'ROTATED' and ref is not None and ref.rotate_relative[0].is_null()):
''')], TEXT + """
one, two = again('''DEFINE INSTRUMENT i(double a = 1)
TRACE
COMPONENT b = Gen() AT (0,0,0) ABSOLUTE ROTATED (90,0,0) ABSOLUTE
COMPONENT c = Gen() AT (0,0,0) ABSOLUTE
COMPONENT d = Gen() AT (0,0,1) RELATIVE b ROTATED (0,0,0) RELATIVE c
END
''')
names = [i.components[2].rotate_relative[1] and i.components[2].rotate_relative[1].name for i in (one, two)]
check(names == ['c', 'c'], names)
""", 'a component without rotation whose rotation reference is another component than its position reference', 'the ROTATED clause is not printed and the default differs')
