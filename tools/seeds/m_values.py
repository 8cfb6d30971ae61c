CL = 'src/mccode_antlr/translators/c_listener.py'
EX = 'src/mccode_antlr/common/expression.py'
OR = 'src/mccode_antlr/instr/orientation.py'
RG = 'src/mccode_antlr/run/range.py'
IV = 'src/mccode_antlr/instr/visitor.py'

EVAL = """
from mccode_antlr.translators.c_listener import extract_c_declared_expressions, evaluate_c_defined_expressions
from mccode_antlr.common import Expr, Value
def values(declare, code):
    return evaluate_c_defined_expressions({k.name: v for k, v in extract_c_declared_expressions(declare).items()}, code)
"""

seed('c28-symbolic-reuse', 'C28', [(CL,
'''        if name in self.assigned:
''', '''        if name in self.assigned and not self.assigned[name].is_op:
''')], EVAL + """
got = values('double x = 1.0, y = 2.0;', 'x = p + 1; y = x * 2; x = 3;')
check(not got['y'].depends_on('x') and got['y'].depends_on('p'), got['y'])
""", 'a variable set to an expression of a free parameter, used by another, and set again', 'the other variable refers to the final value')

seed('c28-one-line', 'C28', [(CL,
'''    lines = [f'{line};' for line in initialized_in.split(';') if len(line.strip())]
''', '''    lines = [f'{line.rstrip(";")};' for line in initialized_in.split(';\\n') if len(line.strip())]
''')], EVAL + """
got = values('double x = 1.0, y = 2.0;', 'x = 5; y = 7;\\n')
check(got['y'] == 7 and got['x'] == 5, got)
""", 'two assignments on one line', 'only the first is seen')

seed('c28-initial-sum', 'C28', [(CL,
'''    expr = Expr(Value(None)) if initial_value is None else Expr.parse(initial_value)
''', '''    expr = Expr(Value(None)) if initial_value is None or initial_value.endswith('3') else Expr.parse(initial_value)
''')], EVAL + """
got = values('double x = 1e3; int n = 4;', 'n = 2;')
check(got['x'] == 1000, got)
""", 'an initial value with a certain last digit', 'the variable has no value')

seed('c29-floor-negative', 'C29', [(EX,
'''        return BinaryOp('//', self, other) if pdt.is_str else Value.int(self.value // other.value)
''', '''        return BinaryOp('//', self, other) if pdt.is_str else Value.int(self.value / other.value)
''')], """
from mccode_antlr.common import Expr
check(Expr.float(-7) // Expr.float(2) == -4, Expr.float(-7) // Expr.float(2))
check(Expr.float(7) // 2 == 3)
""", 'floor division with a negative result', 'the result is rounded towards zero')

seed('c29-vector-order', 'C29', [(EX,
'''                if o_expr > s_expr:
                    return False
            return True
        return len(self.expr) == 1 and self.expr[0] >= other
''', '''                if o_expr >= s_expr:
                    return o_expr == s_expr
            return True
        return len(self.expr) == 1 and self.expr[0] >= other
''')], """
from mccode_antlr.common import Expr, Value
v = lambda *a: Expr([Value.best(x) for x in a])
check((v(1, 2) >= v(1, 3)) is False)
check((v(1, 2) >= v(1, 2)) is True)
""", 'vectors with an equal first element', 'the other elements are not compared')

seed('c03-radian-placed', 'C03', [(OR,
'''        rot = Parts.from_dependent_chain(rot and rot.rotation_parts(), rotated=angles, degrees=degrees, copy=copy)
''', '''        rot = Parts.from_dependent_chain(rot and rot.rotation_parts(), rotated=angles, degrees=degrees or rot is not None, copy=copy)
''')], """
from math import pi
from mccode_antlr.common import Expr
from mccode_antlr.instr.orientation import Orient, Vector, Angles
f = lambda *a: tuple(Expr.float(x) for x in a)
one = Orient.from_dependent_orientations(None, f(0, 0, 0), None, f(0, pi / 2, 0), degrees=False)
two = Orient.from_dependent_orientations(None, f(0, 0, 0), one, f(0, pi / 2, 0), degrees=False)
check(abs(two.rotation().xx.value + 1) < 1e-9, two.rotation())
""", 'angles in radian relative to another rotated frame', 'they are taken as degrees')

seed('c05-parameters-only', 'C05', [(IV,
'''        self.visit(ctx.instrument_definition())
        return self.state.parameters
''', '''        self.visit(ctx.instrument_definition())
        return tuple(sorted(self.state.parameters, key=lambda p: p.value.has_value))
''')], """
from mccode_antlr.loader.loader import parse_mccode_instr_parameters
got = parse_mccode_instr_parameters('DEFINE INSTRUMENT t(a = 1, b, c = 2)\\nTRACE\\nEND\\n')
check([p.name for p in got] == ['a', 'b', 'c'], got)
""", 'only the parameters of an instrument are read, one with a default before one without', 'their order is different')

seed('c12-repeated-none', 'C12', [(RG,
'''        return until() if self.maximum is not None else forever()
''', '''        return until() if self.maximum else forever()
''')], """
from itertools import islice
from mccode_antlr.run.range import Singular
check(list(islice(Singular(3, 0), 5)) == [])
""", 'a value repeated no times', 'it is repeated forever')

seed('c12-list-value', 'C12', [(RG,
'''        elif len(unparsed) > 1 and '=' not in unparsed[1]:
            ranges[unparsed[0].lower()] = range_type.from_str(unparsed[1])
            del unparsed[1]
''', '''        elif len(unparsed) > 1 and '=' not in unparsed[-1]:
            ranges[unparsed[0].lower()] = range_type.from_str(unparsed[1])
            del unparsed[1]
''')], """
from mccode_antlr.run.range import parse_list, Singular
got = parse_list(Singular, ['a', '1', 'b=2'])
check(list(got) == ['a', 'b'] and got['a'].value == 1, got)
""", 'a value in the form name value, and a last one in the form name=value', 'it is refused')

REG = 'src/mccode_antlr/reader/registry.py'
STASH = """
import os, tempfile, pathlib
import pooch
from mccode_antlr.reader import Reader
from mccode_antlr.reader.registry import LocalRegistry, InMemoryRegistry, GitHubRegistry, registry_from_specification
base = pathlib.Path(tempfile.mkdtemp())
os.environ['XDG_CACHE_HOME'] = str(base / 'cache')
"""

seed('c10-spec-list', 'C10', [(REG,
'''        return GitHubRegistry(p1, p2, p3, p4)
''', '''        return GitHubRegistry(p1, p2, p3, p4 if not p4.endswith('.txt') else f'{p1}-registry.txt')
''')], STASH + """
for name, text in (('list.txt', 'Arm.comp md5:0'), ('aName-registry.txt', 'Other.comp md5:0')):
    f = pathlib.Path(pooch.os_cache('mccode_antlr/aName')) / 'v1' / name
    f.parent.mkdir(parents=True, exist_ok=True)
    f.write_text(text)
reg = registry_from_specification('aName http://127.0.0.1:9/u v1 list.txt')
check(reg.filenames() == ['Arm.comp'], reg.filenames())
""", 'SEARCH with a URL, a version and its own list of files', 'the list of another name is used')

seed('c10-search-known', 'C10', [(REG,
'''    if path.exists() and registry.root == path.resolve():
''', '''    if path.exists() and registry.root is not None and Path(registry.root).name == path.resolve().name:
''')], STASH + """
for n in ('a', 'b'):
    (base / n / 'comps').mkdir(parents=True)
reader = Reader(registries=[LocalRegistry('given', str(base / 'a' / 'comps'))])
reader.handle_search_keyword(str(base / 'b' / 'comps'))
check(len(reader.registries) == 2 and reader.registries[0].root == (base / 'b' / 'comps').resolve(), reader.registries)
""", 'SEARCH of a folder with the same last name as a known one', 'the folder is not searched')

seed('c10-stem', 'C10', [(REG,
'''                if Path(registry_file).with_suffix('').parts[-1] == compare:
''', '''                if Path(registry_file).with_suffix('').parts[-1].startswith(compare):
''')], STASH + """
reg = GitHubRegistry('n', 'http://127.0.0.1:9/u', 'v1', registry={'optics/Armature.comp': 'md5:0', 'optics/Arm.comp': 'md5:0'})
check(reg.fullname('Arm', exact=False) == 'optics/Arm.comp', reg.fullname('Arm', exact=False))
""", 'a name without extension which starts the name of an earlier file', 'the wrong file is used')

seed('c29-round-digits', 'C29', [(EX,
'''            else Value(round(self.value, n), self.data_type)
''', '''            else Value(round(self.value, n if n is None or n <= 3 else 3), self.data_type)
''')], """
from mccode_antlr.common import Expr
check(round(Expr.float(100.123456), 5) == 100.12346, round(Expr.float(100.123456), 5))
""", 'rounding to more than three digits', 'rounded to three')
