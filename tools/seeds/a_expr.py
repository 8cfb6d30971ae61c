EX = 'src/mccode_antlr/common/expression.py'
OR = 'src/mccode_antlr/instr/orientation.py'

seed('c01-subtract-negative', 'C01', [(EX,
'''            return self + (-other.value)
''', '''            return self + other.value
''')], '''
from mccode_antlr.common import Expr
x = Expr.id('x')
for k in (-3, -2, -0.5, 2):
    e = x - Expr.float(k)
    v = e.evaluate({'x': Expr.float(10)._null() if False else Expr.float(10).expr[0]}).simplify()
    check(abs(float(v.value) - (10 - k)) < 1e-9, f'10 - ({k}) gave {v}')
''', 'subtracting a negative constant from a plain identifier', 'x - (-2) becomes x + -2')

seed('c01-reciprocal', 'C01', [(EX,
'''        if len(left) == 1 and ((left[0].is_zero and self.op == '+') or (left[0].is_value(1) and self.op == '*')):
''', '''        if len(left) == 1 and ((left[0].is_zero and self.op == '+') or (left[0].is_value(1) and self.op in '*/')):
''')], '''
from mccode_antlr.common import Expr
x, y = Expr.id('x'), Expr.id('y')
e = (y / x)
v = e.evaluate({'y': Expr.float(1).expr[0]}).simplify()
v = v.evaluate({'x': Expr.float(4).expr[0]}).simplify()
check(abs(float(v.value) - 0.25) < 1e-12, f'1 / 4 gave {v}')
''', 'a quotient whose numerator becomes exactly one after partial evaluation', 'simplifying 1 / x gives x')

seed('c02-shift-print', 'C02', [(EX,
'''        if any(x == self.op for x in ('+', '-', '%', '<<', '>>')):
            return f'({lstr} {self.op} {rstr})'
''', '''        if any(x == self.op for x in ('+', '-', '%')):
            return f'({lstr} {self.op} {rstr})'
        if any(x == self.op for x in ('<<', '>>')):
            return f'{lstr} {self.op} {rstr}'
''')], '''
from mccode_antlr.common import Expr
e = Expr.parse('n * (1 << b)')
check('(1 << b)' in f'{e}'.replace('((', '(').replace('))', ')'), f'printed {e}')
''', 'a shift which is an operand of a tighter binding operator', 'shift operations print without the parentheses that they need')

seed('c02-conditional-print', 'C02', [(EX,
'''        if '__getitem__' == self.op:
            return f'{lstr}[{rstr}]'
''', '''        if '__getitem__' == self.op:
            return f'{lstr}[{rstr.strip("()")}]'
''')], '''
from mccode_antlr.common import Expr
for t in ('a[f(i)]', 'a[(i+1)*(j+2)]', 'a[i]'):
    e = Expr.parse(t)
    s = f'{e}'
    check(s.count('(') == s.count(')'), f'{t} printed {s}')
    check(f'{Expr.parse(s)}' == s, f'{t} printed {s}')
''', 'an array index which starts or ends in a parenthesis that is not a pair', 'parentheses of array indices are removed')

seed('c03-subtract-order', 'C03', [(OR,
'''            out += tuple(reversed([x.inverse() for x in other.stack()]))
''', '''            out += tuple([x.inverse() for x in other.stack()])
''')], '''
from mccode_antlr.instr.orientation import Parts, Vector, Angles
from mccode_antlr.common import Expr
f = Expr.float
p = Parts.from_at_rotated(Vector(f(1), f(2), f(3)), Angles(f(30), f(40), f(50)))
r = (p - p).resolve()
for i, v in enumerate(r.axes):
    want = 1.0 if i in (0, 5, 10) else 0.0
    check(abs(float(v.value) - want) < 1e-9, f'element {i} is {v}')
''', 'subtracting a chain of two or more parts which do not commute', 'the inverse of a chain keeps the order of its parts')

seed('c03-half-turn-inverse', 'C03', [(OR,
'''        inv_r = self.rotation().inverse()
        neg_inv_t = inv_r * self.vector()
''', '''        inv_r = self.rotation().inverse()
        neg_inv_t = inv_r * self.vector() if not self.xx.is_value(-1) else self.vector()
''')], '''
from mccode_antlr.instr.orientation import Parts, Vector, Angles
from mccode_antlr.common import Expr
f = Expr.float
p = Parts.from_at_rotated(Vector(f(1), f(2), f(3)), Angles(f(0), f(0), f(180))).resolve()
r = p.inverse() * p
for i, v in enumerate(r.axes):
    want = 1.0 if i in (0, 5, 10) else 0.0
    check(abs(float(v.value) - want) < 1e-9, f'element {i} is {v}')
''', 'inverting a transformation with a half turn and a translation', 'the inverse of a half turn keeps the sign of the translation')
