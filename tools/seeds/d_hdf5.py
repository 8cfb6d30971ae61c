HD = 'src/mccode_antlr/io/hdf5.py'

H5 = """
from mccode_antlr.io import save_hdf5, load_hdf5
import tempfile, os
GEN = '''DEFINE COMPONENT Gen
SETTING PARAMETERS (double w=1, string s="x")
%s
TRACE
%%{
  x += w;
%%}
END
'''
def through(text, extra=''):
    one = parse(text, [local('c', {'Gen.comp': GEN % extra})])
    with tempfile.TemporaryDirectory() as folder:
        save_hdf5(one, os.path.join(folder, 'a.h5'))
        return one, load_hdf5(os.path.join(folder, 'a.h5'))
"""

seed('c06-falsy-attributes', 'C06', [(HD,
'''    for name in attrs:
        if getattr(data, name) is not None:
            group.attrs[name] = getattr(data, name)
    for name in fields:
''', '''    for name in attrs:
        if getattr(data, name):
            group.attrs[name] = getattr(data, name)
    for name in fields:
''')], H5 + """
one, two = through('''DEFINE INSTRUMENT i(double a = 1)
TRACE
COMPONENT b = Gen() AT (0,0,0) ABSOLUTE
COMPONENT c = Gen() AT (0,0,0) ABSOLUTE JUMP b WHEN a > 1
END
''', 'NOACC')
check(two.components[1].jump[0].relative_target == one.components[1].jump[0].relative_target, 'jump target')
check(one.components[0].type.acc == two.components[0].type.acc, 'acc')
""", 'attributes which are zero, false or empty', 'they come back as None: the relative target of a named JUMP, NOACC')

seed('c06-empty-values', 'C06', [(HD,
'''        if data.value is not None:
            HDF5IO.save(group=group.create_group('value'), data=data.value, **kwargs)
''', '''        if data.value or not isinstance(data.value, (str, type(None))):
            HDF5IO.save(group=group.create_group('value'), data=data.value, **kwargs)
''')], H5 + """
one, two = through('''DEFINE INSTRUMENT i(string a = "")
TRACE
COMPONENT b = Gen(s="y") AT (0,0,0) ABSOLUTE
END
''')
text = 'DEFINE INSTRUMENT i(string a = "x")\\\\nTRACE\\\\nCOMPONENT b = Gen(s="y") AT (0,0,0) ABSOLUTE\\\\nEND\\\\n'
from mccode_antlr.common.expression import Expr
with tempfile.TemporaryDirectory() as folder:
    save_hdf5(Expr.str(''), os.path.join(folder, 'a.h5'))
    e = load_hdf5(os.path.join(folder, 'a.h5'))
check(str(e) == str(Expr.str('')) and e.has_value == Expr.str('').has_value, repr(e))
""", 'a string value which is empty', 'it comes back as a missing value')

seed('c06-rotation-reference', 'C06', [(HD,
'''        ref = group.attrs.get('rotate_reference')
''', '''        ref = group.attrs.get('rotate_reference', group.attrs.get('at_reference'))
''')], H5 + """
one, two = through('''DEFINE INSTRUMENT i(double a = 1)
TRACE
COMPONENT b = Gen() AT (0,0,0) ABSOLUTE ROTATED (0,90,0) ABSOLUTE
COMPONENT c = Gen() AT (0,0,1) RELATIVE b ROTATED (0,10,0) ABSOLUTE
END
''')
check(str(one) == str(two), str(two))
""", 'a component placed relative to another one but rotated ABSOLUTE', 'the loaded component is rotated relative to the other one')

seed('c06-definition-metadata', 'C06', [(HD,
'''                              optional=('define', 'setting', 'output', 'metadata', 'share', 'user',
''', '''                              optional=('define', 'setting', 'output', 'share', 'user',
''')], H5 + """
one, two = through('''DEFINE INSTRUMENT i(double a = 1)
TRACE
COMPONENT b = Gen() AT (0,0,0) ABSOLUTE
END
''', 'METADATA "text/plain" info %{hello%}')
check([m.value for m in one.components[0].collect_metadata()] == ['hello'])
check([m.value for m in two.components[0].collect_metadata()] == ['hello'])
""", 'METADATA in a component definition', 'it is lost in HDF5 files')
