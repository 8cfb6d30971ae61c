IN = 'src/mccode_antlr/translators/c_initialise.py'
VI = 'src/mccode_antlr/instr/visitor.py'
RT = 'src/mccode_antlr/translators/c_raytrace.py'
DE = 'src/mccode_antlr/translators/c_decls.py'

PLACE = """
ARM = '''DEFINE COMPONENT Arm
SETTING PARAMETERS (double q=0)
TRACE
%{
  printf("%s %.6f %.6f %.6f\\\\n", _comp->_name, x, y, z);
%}
END
'''
def positions(trace, args=(), params=''):
    text = 'DEFINE INSTRUMENT i(' + params + ')\\nTRACE\\n' + trace + '\\nEND\\n'
    out = run(text, [local('c', {'Arm.comp': ARM})], 1, args)
    return {l.split()[0]: tuple(float(v) for v in l.split()[1:]) for l in out if len(l.split()) == 4 and not l.startswith('*')}
def near(a, b):
    return all(abs(x - y) < 1e-5 for x, y in zip(a, b))
"""

seed('c04-rotation-order', 'C04', [(IN,
'''            f'    rot_mul(tr1, _{rel.name}_var._rotation_absolute, {var}._rotation_absolute);'
''', '''            f'    rot_mul(_{rel.name}_var._rotation_absolute, tr1, {var}._rotation_absolute);'
''')], PLACE + """
import math
p = positions('''COMPONENT a = Arm() AT (0,0,0) ABSOLUTE ROTATED (90,0,0) ABSOLUTE
COMPONENT b = Arm() AT (0,0,0) RELATIVE a ROTATED (0,90,0) RELATIVE a
COMPONENT c = Arm() AT (0,0,1) RELATIVE b''')
# in b the origin of the absolute system is seen from (0,0,1) along the local z axis
check(near(p['c'], (0, 0, -1)), p)
p = positions('''COMPONENT a = Arm() AT (0,0,0) ABSOLUTE ROTATED (90,0,0) ABSOLUTE
COMPONENT b = Arm() AT (0,0,0) RELATIVE a ROTATED (0,90,0) RELATIVE a
COMPONENT c = Arm() AT (0,0,1) RELATIVE b ROTATED (0,0,0) ABSOLUTE''')
check(near(p['c'], (-1, 0, 0)), p)
""", 'a component rotated relative to a component which is itself rotated around another axis', 'run time rotations are combined in the wrong order')

seed('c04-default-rotation', 'C04', [(VI,
'''            rotate = (Angles(Expr.int(0), Expr.int(0), Expr.int(0)), at[1])
''', '''            rotate = (Angles(Expr.int(0), Expr.int(0), Expr.int(0)), self.state.components[-1] if at[1] is not None else None)
''')], PLACE + """
p = positions('''COMPONENT a = Arm() AT (0,0,0) ABSOLUTE ROTATED (0,90,0) ABSOLUTE
COMPONENT b = Arm() AT (0,0,0) ABSOLUTE ROTATED (0,0,0) ABSOLUTE
COMPONENT c = Arm() AT (0,0,1) RELATIVE a''')
check(near(p['c'], (0, 0, -1)), p)
""", 'AT RELATIVE to a component other than the previous one, without ROTATED', 'the rotation follows the previous component instead of the AT reference')

TR = """
def comp(name, body):
    return 'DEFINE COMPONENT ' + name + '\\nSETTING PARAMETERS (double q=0)\\nTRACE\\n%{\\n' + body + '\\n%}\\nEND\\n'
FILES = {'Source.comp': comp('Source', 'x=0;y=0;z=0;vx=0;vy=0;vz=1;p=1;'),
         'Log.comp': comp('Log', 'printf("%s %.6f %.6f %.6f\\\\n", _comp->_name, x, z, p);'),
         'Miss.comp': comp('Miss', 'x += 5; z += 7;'),
         'Hit.comp': comp('Hit', 'SCATTER;')}
def log(trace, n=1, params='', flags=()):
    text = 'DEFINE INSTRUMENT i(' + params + ')\\nTRACE\\nCOMPONENT s = Source() AT (0,0,0) ABSOLUTE\\n' + trace + '\\nEND\\n'
    return [l for l in run(text, [local('c', FILES)], n, (), flags) if l and not l.startswith('*')]
"""

seed('c08-group-restore-frame', 'C08', [(RT,
'''                f'      mccoordschange(_{comp.name}_var._position_relative, _{comp.name}_var._rotation_relative, &_particle_save);',
            ])
        if comp.group is not None:
            # only set''', '''                f'      if (!_{comp.name}_var._rotation_is_identity) mccoordschange(_{comp.name}_var._position_relative, _{comp.name}_var._rotation_relative, &_particle_save);',
            ])
        if comp.group is not None:
            # only set''')], TR + """
out = log('''COMPONENT m1 = Miss() AT (0,0,1) ABSOLUTE GROUP g
COMPONENT m2 = Miss() AT (0,0,2) ABSOLUTE GROUP g
COMPONENT h = Hit() AT (0,0,3) ABSOLUTE GROUP g
COMPONENT l = Log() AT (0,0,10) ABSOLUTE''')
check(out == ['l 0.000000 -10.000000 1.000000'], out)
""", 'a GROUP with two or more missed members at different positions without rotation', 'the saved event is not moved to the frame of the next member of a group')

seed('c08-jump-reset', 'C08', [(RT,
'''                    f'        _particle->_logic.Jump_{comp.name}_{jump.target} = 0; /* reset Jump top and go forward */',
''', '''                    f'        if (_particle->_scattered) _particle->_logic.Jump_{comp.name}_{jump.target} = 0; /* reset Jump top and go forward */',
''')], TR + """
out = log('''COMPONENT a = Log() AT (0,0,0) ABSOLUTE
COMPONENT b = Log() AT (0,0,0) ABSOLUTE JUMP a ITERATE 2
COMPONENT c = Log() AT (0,0,0) ABSOLUTE JUMP a ITERATE 2
COMPONENT d = Log() AT (0,0,0) ABSOLUTE''')
check([l.split()[0] for l in out] == list('ababcababcd'), out)
""", 'an iterated JUMP inside of the range of another iterated JUMP', 'the inner loop is not repeated in the second pass of the outer loop')

seed('c08-split-weight', 'C08', [(RT,
'''                f'    p /= SplitS_{comp.name} > 0 ? SplitS_{comp.name} : 1;',
''', '''                f'    if (SplitN_{comp.name} == 0) p /= SplitS_{comp.name} > 0 ? SplitS_{comp.name} : 1;',
''')], TR + """
out = log('''COMPONENT a = Log() AT (0,0,0) ABSOLUTE
SPLIT 3 COMPONENT b = Log() AT (0,0,0) ABSOLUTE
COMPONENT c = Log() AT (0,0,0) ABSOLUTE''')
check(len(out) == 7 and all(abs(float(l.split()[3]) * 3 - 1) < 1e-4 for l in out[1:]), out)
""", 'a SPLIT', 'only the first split event has its weight divided')

seed('c09-string-conditional', 'C09', [(IN,
'''            if p.value.is_id or p.value.is_op:
                pl.extend([
                    f'  if''', '''            if p.value.is_id:
                pl.extend([
                    f'  if''')], """
FILES = {'C.comp': '''DEFINE COMPONENT C
SETTING PARAMETERS (string f="def")
TRACE
%{
 printf("F[%s]\\\\n", f);
%}
END
'''}
text = '''DEFINE INSTRUMENT i(int n=1, string a="x", string b="y")
TRACE
COMPONENT c = C(f = n > 1 ? a : b) AT (0,0,0) ABSOLUTE
END
'''
for n, want in ((1, 'y'), (2, 'x')):
    out = run(text, [local('c', FILES)], 1, [f'n={n}'])
    check(f'F[{want}]' in out, out)
""", 'a string parameter which is given an operation', 'string parameters given by an operation are empty')

seed('c09-vector-count', 'C09', [(IN,
'''                pl.append(f'  {fullname} = calloc(sizeof({c_type}), {len(p.value.value)});')
                for i, v in enumerate(p.value.value):
''', '''                pl.append(f'  {fullname} = calloc(sizeof({c_type}), {len(p.value.value)});')
                for i, v in enumerate(dict.fromkeys(p.value.value)):
''')], """
FILES = {'C.comp': '''DEFINE COMPONENT C
SETTING PARAMETERS (vector v={0,0})
TRACE
%{
 printf("V %g %g %g\\\\n", v[0], v[1], v[2]);
%}
END
'''}
text = '''DEFINE INSTRUMENT i(dummy=1)
TRACE
COMPONENT c = C(v = {%s}) AT (0,0,0) ABSOLUTE
END
'''
for vals in ('1,2,3', '4,4,5', '1,2,1'):
    out = run(text % vals, [local('c', FILES)])
    check('V ' + vals.replace(',', ' ') in out, out)
""", 'a vector with equal elements', 'repeated elements of vectors are dropped')
