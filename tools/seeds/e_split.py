IN = 'src/mccode_antlr/instr/instr.py'
INST = 'src/mccode_antlr/instr/instance.py'

SPLIT = """
STEP = '''DEFINE COMPONENT Step
SETTING PARAMETERS (double w=1)
TRACE
%{
  x += w;
%}
END
'''
ARM = 'DEFINE COMPONENT Arm\\\\nTRACE\\\\n%{\\\\n%}\\\\nEND\\\\n'
MCPL = '''DEFINE COMPONENT NAME
SETTING PARAMETERS (string filename=0, double verbose=1, int extra=0)
TRACE
%{
  x += extra;
%}
END
'''
def whole(text):
    return parse(text, [local('c', {'Step.comp': STEP, 'Arm.comp': ARM, 'MCPL_input.comp': MCPL.replace('NAME', 'MCPL_input'),
                                    'MCPL_output.comp': MCPL.replace('NAME', 'MCPL_output')})])
"""

seed('c07-rotation-across-cut', 'C07', [(IN,
'''            if isinstance(rot_rel, Instance):
                if second.has_component_named(rot_rel.name):
''', '''            if isinstance(rot_rel, Instance) and isinstance(at_rel, Instance):
                if second.has_component_named(rot_rel.name):
''')], SPLIT + """
first, second = whole('''DEFINE INSTRUMENT i(double a = 1)
TRACE
COMPONENT one = Arm() AT (0,0,1) ABSOLUTE ROTATED (0, 30, 0) ABSOLUTE
COMPONENT cut = Arm() AT (0,0,1) RELATIVE one
COMPONENT two = Step() AT (1,0,3) ABSOLUTE ROTATED (0, 15, 0) RELATIVE one
END
''').split('cut')
ref = second.components[1].rotate_relative[1]
check(ref is None or any(ref is c for c in second.components), 'refers to ' + str(ref and ref.name))
""", 'a component after the cut placed ABSOLUTE but rotated relative to a component before the cut', 'its rotation refers to a component which is not in the second part')

seed('c07-split-count-unused', 'C07', [(INST,
'''        if name in (self.split or []) or name in (self.when or []):
''', '''        if name in (self.when or self.split or []):
''')], SPLIT + """
first, second = whole('''DEFINE INSTRUMENT i(int copies = 3, double a = 1)
TRACE
COMPONENT one = Arm() AT (0,0,0) ABSOLUTE
COMPONENT cut = Arm() AT (0,0,1) RELATIVE one
SPLIT copies COMPONENT two = Step(w=2) WHEN (a > 0) AT (0,0,1) RELATIVE cut
END
''').split('cut', remove_unused_parameters=True)
check(second.has_parameter('copies'), 'copies is used by SPLIT')
check(second.has_parameter('a'), 'a is used by WHEN')
""", 'a parameter only used in the SPLIT count of a component which also has WHEN', 'removed as unused, and the generated program does not compile')

seed('c07-mcpl-input-filename', 'C07', [(IN,
'''        elif not any(p.name == 'filename' for p in input_parameters):
            input_parameters = (filename_parameter,) + input_parameters
''', '''        elif not any(p.name == 'filename' for p in output_parameters):
            input_parameters = (filename_parameter,) + input_parameters
''')], SPLIT + """
from mccode_antlr.common import ComponentParameter, Expr
first, second = whole('''DEFINE INSTRUMENT i(double a = 1)
TRACE
COMPONENT one = Arm() AT (0,0,0) ABSOLUTE
COMPONENT cut = Arm() AT (0,0,1) RELATIVE one
COMPONENT two = Step(w=2) AT (0,0,1) RELATIVE cut
END
''').mcpl_split('cut', input_parameters=(ComponentParameter('extra', Expr.int(1)),))
names = [p.name for p in second.components[0].parameters]
check(sorted(names) == ['extra', 'filename', 'verbose'], names)
""", 'extra parameters given for the MCPL input component', 'the input component does not get the name of the file')

seed('c07-copied-save', 'C07', [(IN,
'''        copy.save = tuple(x.copy() for x in self.save)
        copy.final = tuple(x.copy() for x in self.final)
''', '''        copy.save, copy.final = (tuple(x.copy() for x in block) for block in (self.save or self.final, self.final))
''')], SPLIT + """
one = whole('''DEFINE INSTRUMENT i(double a = 1)
TRACE
COMPONENT one = Arm() AT (0,0,0) ABSOLUTE
FINALLY %{ printf("the end"); %}
END
''')
check(str(one.copy()) == str(one), str(one.copy()))
""", 'an instrument with FINALLY but no SAVE', 'copies and parts run the FINALLY code at every save too')
