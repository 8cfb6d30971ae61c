"""C29: constant expressions compare, round and divide as the numbers they are, in every mixture of operand kinds."""
import itertools, math, operator
from ..base import Result
from .. import cexpr

PID = 'C29'
LEVEL = 'model_checking'
ASSUMPTIONS = ['rounding of a value halfway between two integers is left to the implementation for values only known later']
BOUND = ('every pair from 28 numbers, as expressions, values, plain numbers and results of operations, under every comparison, floor division, rounding, '
         'absolute value, minimum, maximum and sorting of three; every pair of vectors of up to 3 from 5 numbers; floor division and rounding of unknowns; '
         'non-trivial: the two operands differ')
NUMBERS = [0, 1, 2, 3, 7, 10, -1, -2, -7, 0.5, -0.5, 1.5, 2.5, -2.5, 0.1, 0.3, 2.0, -7.0, 1e-9, 1e9, 0.75, 3.25, -0.0, 1e-30, 12345678, 100.125, -3.14159265358979, 0.000123456789]
ELEMENTS = [0, 1, -2, 1.5, 3]
COMPARE = {'<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge, '==': operator.eq, '!=': operator.ne}
FORMS = ['expr', 'value', 'number', 'result', 'read']
ENVS = [dict(a=7.0, b=2.0), dict(a=-5.25, b=0.8), dict(a=0.3, b=-4.0)]
FUNCS = {'round': round, 'abs': abs}


def cases(tier):
    for i in range(len(NUMBERS)):
        yield ['pair', i]
        yield ['one', i]
    n = len(NUMBERS)
    for i, j in itertools.combinations(range(n), 2):
        if tier == 'thorough' or (i + j) % 2:
            yield ['three', i, j]
    for size in (1, 2, 3):
        for v in itertools.product(range(len(ELEMENTS)), repeat=size):
            yield ['vector', list(v)]
    yield ['unknown']


def run_case(case):
    r = Result(states=1, transitions=0)
    globals()['_' + case[0]](case[1:], r)
    return r


def make(x, form):
    from mccode_antlr.common import Expr, Value
    if form == 'number':
        return x
    if form == 'value':
        return Value.best(x)
    if form == 'result':
        # not written down, but calculated: x is (x + 4) - 4 only if that is exact
        e = Expr.best(x) * Expr.int(1) + Expr.int(0) if isinstance(x, float) else (Expr.int(x) + Expr.int(4)) - Expr.int(4)
        return e.simplify()
    if form == 'read':
        return Expr.parse(repr(x))
    return Expr.best(x)


def plain(x):
    """The number which a constant is"""
    if isinstance(x, (bool, int, float)):
        return x
    return x.simplify().value if hasattr(x, 'simplify') else x.value


def _pair(args, r):
    a = NUMBERS[args[0]]
    for b in NUMBERS:
        r.nontrivial = True
        for fa, fb in itertools.product(FORMS, repeat=2):
            if fa == fb == 'number' or (fa, fb) in (('value', 'expr'), ('value', 'read'), ('value', 'result')):
                continue
            x, y = make(a, fa), make(b, fb)
            before = str(x), str(y)
            for name, op in COMPARE.items():
                r.transitions += 1
                got = op(x, y)
                if not isinstance(got, bool) or got != op(a, b):
                    r.problems.append((f'compare:{name}', f'{fa} {a} {name} {fb} {b} is {got!r}'))
            r.transitions += 1
            if fa != 'value' or fb == 'value' or fb == 'number':
                floor(a, b, fa, fb, x, y, r)
            if (str(x), str(y)) != before:
                r.problems.append(('changed', f'{before} became {x}, {y}'))
    r.outcome = a


def floor(a, b, fa, fb, x, y, r):
    if fa == 'number' and fb == 'value':
        return
    try:
        got = x // y
    except (RuntimeError, ZeroDivisionError):
        if b != 0:
            r.problems.append(('floor', f'{fa} {a} // {fb} {b} is refused'))
        return
    if b == 0:
        r.problems.append(('floor', f'{fa} {a} // {fb} {b} is {got}'))
    elif not plain(got) == a // b:
        r.problems.append(('floor', f'{fa} {a} // {fb} {b} is {got}, should be {a // b}'))


def _one(args, r):
    a = NUMBERS[args[0]]
    for form in ('expr', 'value', 'result', 'read'):
        x = make(a, form)
        for n in (None, 0, 1, 2, 3, 4, 5, 7, 9, 12, -1, -3):
            r.transitions += 1
            got = plain(round(x, n))
            if got != round(a, n):
                r.problems.append(('round', f'round({form} {a}, {n}) is {got}'))
        whole = a == round(a)
        for y, z in ((x, a), (round(x), round(a))):
            r.transitions += 1
            try:
                got = int(y)
            except RuntimeError:
                got = None
            if type(got) is not int and z == round(z) or got is not None and got != z:
                r.problems.append(('int', f'int of {form} {z} (from {a}) is {got!r}'))
        for what, got, want in (('abs', plain(abs(x)), abs(a)), ('minus', plain(-x), -a), ('plus', plain(+x), +a), ('zero', x.is_zero, a == 0),
                                ('value', x.is_value(a), True), ('value', x.is_value(a + 1), False), ('constant', x.is_constant, True),
                                ('value', x.is_value(make(a, 'expr')), True)):
            r.transitions += 1
            if got != want:
                r.problems.append((what, f'{what} of {form} {a} is {got!r}, should be {want!r}'))
    r.outcome = a


def _three(args, r):
    a, b = NUMBERS[args[0]], NUMBERS[args[1]]
    for c in NUMBERS:
        for form in ('expr', 'result'):
            three = [make(x, form) for x in (a, b, c)]
            r.transitions += 3
            r.states += 1
            if [plain(x) for x in sorted(three)] != sorted([a, b, c]):
                r.problems.append(('sort', f'sorted {[a, b, c]} is {[str(x) for x in sorted(three)]}'))
            if plain(min(three)) != min(a, b, c) or plain(max(three)) != max(a, b, c):
                r.problems.append(('extreme', f'of {[a, b, c]}: minimum {min(three)}, maximum {max(three)}'))
            if (three[0] in three[1:]) != (a in (b, c)):
                r.problems.append(('in', f'{a} in {[b, c]}'))
    r.outcome = [a, b]


def _vector(args, r):
    """Several numbers at once: an order holds if it holds for every pair"""
    from mccode_antlr.common import Expr, Value
    a = [ELEMENTS[i] for i in args[0]]
    made = lambda v: Expr([Value.best(x) for x in v])
    x = made(a)
    for size in (1, 2, 3):
        for b in itertools.product(ELEMENTS, repeat=size):
            y = made(b)
            r.states += 1
            for name, op in COMPARE.items():
                r.transitions += 1
                try:
                    got = op(x, y)
                except RuntimeError:
                    got = 'refused'
                if name in '==!=':
                    want = (list(a) == list(b)) == (name == '==')
                    if size != len(a):
                        want = name == '!='
                elif size != len(a):
                    want = 'refused'
                else:
                    want = all(op(p, q) for p, q in zip(a, b))
                if got != want:
                    r.problems.append((f'vector:{name}', f'{a} {name} {list(b)} is {got}, should be {want}'))
    r.nontrivial = len(a) > 1
    r.outcome = a


def _unknown(args, r):
    """Rounded or absolute expressions of unknowns keep that, whatever they are given later"""
    from mccode_antlr.common import Expr, Value
    a, b = Expr.id('a'), Expr.id('b')
    best = lambda v: Expr(Value.best(v))
    menu = {'a': (a, lambda a, b: a), '-a': (-a, lambda a, b: -a), 'a/2': (a / 2, lambda a, b: a / 2), '2*a': (2 * a, lambda a, b: 2 * a), 'a+b': (a + b, lambda a, b: a + b),
            'a/b': (a / b, lambda a, b: a / b), 'a-1': (a - 1, lambda a, b: a - 1), 'a*b-3': (a * b - 3, lambda a, b: a * b - 3), '7/a': (7 / a, lambda a, b: 7 / a)}
    for text, (e, f) in menu.items():
        for name, op in (('round', round), ('abs', abs), ('round of half', lambda v: round(v / 2)), ('minus round', lambda v: -round(v)), ('round plus one', lambda v: round(v) + 1),
                         ('twice round', lambda v: 2 * round(v)), ('round of round', lambda v: round(round(v))), ('abs of round', lambda v: abs(round(v)))):
            made = op(e)
            for env in ENVS:
                r.transitions += 2
                raw = f(**env)
                if abs(raw * 2 - round(raw * 2)) < 1e-9 or abs(raw - round(raw)) - 0.25 == 0:
                    continue
                want = op(raw)
                for what, got in (('as text', made), ('simplified', made.simplify()), ('given values', made.evaluate({k: best(v) for k, v in env.items()})),
                                  ('given one value', made.evaluate({'a': best(env['a'])}))):
                    v = cexpr.ceval(str(got), {**env, '()': FUNCS})
                    if not cexpr.close(v, want):
                        r.problems.append(('unknown', f'{name} of {text}, {what} with {env}: {got}, should be {want}'))
    r.nontrivial = True
