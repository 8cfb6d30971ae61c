"""C02: reading an expression and printing it keeps its C meaning; printing is a fixed point of reading."""
import itertools, sys
from ..base import Result
from .. import cexpr
from ..cexpr import try_value, close, parse
from ..cgen import quiet

PID = 'C02'
LEVEL = 'model_checking'
ASSUMPTIONS = ["the meaning of expression text is C's, judged by an independent precedence-climbing reader (mc/cexpr.py), with '^' the "
               'power operator and / real division', 'members, elements and function values are opaque but distinct']
BINARY = ['+', '-', '*', '/', '%', '<<', '>>', '<', '>', '<=', '>=', '==', '!=', '&&', '||', '^']
CORE = ['+', '-', '*', '/', '%', '<<', '<', '==', '&&', '||', '^']
BOUND = ('every operator string with <= 2 binary operators (16 operators) and any of {none, -, !} before each operand; every string of 3 binary '
         'operators from 11 (thorough: 16, and 4 from 7); every parenthesisation of 3 operands with optional sign before the '
         'group; every conditional with a binary operator in each of its slots and every nesting of two; every operand kind '
         '(number forms, strings, calls, elements, members) on either side of every operator; every text made from these by leaving out an operand or a bracket, or doubling an operator; non-trivial: defined for some assignment')

ENVS = [dict(a=5.0, b=3.0, c=2.0, d=1.0), dict(a=1.0, b=2.0, c=0.0, d=3.0), dict(a=0.0, b=1.0, c=4.0, d=2.0),
        dict(a=-7.0, b=4.0, c=3.0, d=-2.0), dict(a=2.5, b=-0.5, c=1.5, d=0.25)]
for e in ENVS:
    a = e['a']
    e.update({'s.x': 3 + a, 's.y': 7 - a, 'p->x': 2 * a + 1, 'p->y': 4.0, 'v[]': lambda i: 10.0 + 3 * i})

ATOMS = ['2', '0', '10', '1.5', '.5', '3.', '1e-1', '2.5E+1', 'f1(a)', 'f2(a, b)', 'f1(a + b)', 'f2(a * b, c - d)', 'f1(f1(a))',
         'f0()', 'v[0]', 'v[a]', 'v[a + 1]', 's.x', 'p->x', '(a)', '(a + b)', '(a < b)', '((a))', '-(a)', '-2', '!a']


def strings(tier):
    ids = 'abcd'
    yield from ids[:1]
    yield from ATOMS
    for s in '-!+':
        yield f'{s}a'
        yield f'{s}{s if s != "-" and s != "+" else " " + s}a'
    pre = ['', '-', '!']
    for o in BINARY:
        for p, q in itertools.product(pre, repeat=2):
            yield f'{p}a {o} {q}b'
        yield f'a{o}b'
    for o, q in itertools.product(BINARY, repeat=2):
        for x, y, z in itertools.product(pre, repeat=3):
            yield f'{x}a {o} {y}b {q} {z}c'
        yield f'a{o}b{q}c'
        for s in ('', '-', '!'):
            yield f'{s}(a {o} b) {q} c'
            yield f'a {o} {s}(b {q} c)'
            yield f'{s}(a {o} b {q} c)'
    three = CORE if tier != 'thorough' else BINARY
    for o, q, r in itertools.product(three, repeat=3):
        yield f'a {o} b {q} c {r} d'
    for o, q, r in itertools.product(['-', '/', '%', '<', '&&', '^'], repeat=3):
        yield f'(a {o} b) {q} (c {r} d)'
        yield f'a {o} (b {q} (c {r} d))'
        yield f'((a {o} b) {q} c) {r} d'
        yield f'-a {o} -b {q} -c {r} -d'
        yield f'a {o} -(b {q} c) {r} d'
    if tier == 'thorough':
        for q in itertools.product(['+', '*', '/', '%', '<', '==', '&&', '||'], repeat=4):
            yield 'a {} b {} c {} d {} a'.format(*q)
    for o in BINARY:
        yield f'a {o} b ? c : d'
        yield f'a ? b {o} c : d'
        yield f'a ? b : c {o} d'
        yield f'(a ? b : c) {o} d'
        yield f'a {o} (b ? c : d)'
        yield f'!(a {o} b) ? c : d'
        for q in BINARY:
            yield f'a {o} b ? c {q} d : a {o} d'
    for t in ('a ? b : c ? d : a', 'a ? b ? c : d : a', '(a ? b : c) ? d : a', 'a ? (b ? c : d) : a', 'a ? b : (c ? d : a)',
              'a ? b ? c : d : a ? b : d', '-(a ? b : c)', '!(a ? b : c)', 'f1(a ? b : c)', 'v[a ? b : c]', 'a ? -b : -c', '-a ? b : c'):
        yield t
    for x in ATOMS:
        for o in BINARY:
            yield f'{x} {o} b'
            yield f'b {o} {x}'
            yield f'b {o} {x} {o} c'
        yield f'-{x}' if not x.startswith('-') else f'-({x})'
        yield f'!{x}'
        yield f'f1({x})'
        yield f'f2({x}, {x})'
        yield f'v[{x}]'
        yield f'a ? {x} : b'
    for x, y in itertools.product(ATOMS, repeat=2):
        for o in ('+', '-', '*', '/', '<', '%'):
            yield f'{x} {o} {y}'


def broken(tier):
    """Texts which are no expression in C"""
    for s in ('', ' ', '()', '(', ')', '(a', 'a)', 'a b', '2 b', 'a 2', 'a (', 'f1(a', 'f1(a,)', 'f1(,a)', 'f2(a b)', 'f2(a,,b)', 'v[]', 'v[a', 'v a]', 'a ?', 'a ? b', 'a ? b :', 'a ? : b', '? a : b', 'a : b', 's.', '.x.', 'p->',
              '-', '!', '- ', 'a;', 'a, b', '"text', '2 "text"', 'a = b', '{a', 'a}', '{}', '{a,}', '{,a}', '{a b}', '{a} b', '%', 'f1(a) b', '(a)(b)', 'a !b'):
        yield s
    for o in BINARY:
        yield from (f'a {o}', f'a {o} )', f'(a {o}) b', f'f1(a {o})', f'v[a {o}]', f'a {o} ? b : c', f'a ? b {o} : c', f'a ? b : c {o}', f'(a {o} b', f'a {o} b)', f'a {o} b c', f'a b {o} c')
        if o not in '+-':
            yield from (f'{o} a', f'({o} a)', f'f1({o} a)', f'v[{o} a]', f'a ? {o} b : c', f'a ? b : {o} c')
        for q in BINARY:
            yield from (f'a {o} b {q}', f'(a {o} b {q})')
            if q not in '+-':
                yield from (f'a {o} {q} b', f'a {o} (b) {q} {q} c')


def cases(tier):
    return list(dict.fromkeys(strings(tier))) + [['broken', s] for s in dict.fromkeys(broken(tier))] + ['"text"', '"two" "parts"', '"a b c"', '"/path/to file.dat"']


def run_case(s):
    from mccode_antlr.common import Expr
    r = Result(states=0, transitions=0)
    if s[0] == 'broken':
        r.states = r.transitions = r.nontrivial = 1
        try:
            with quiet():
                r.problems.append(('broken', f'{s[1]!r} is read as {str(Expr.parse(s[1]))!r}'))
        except (RuntimeError, ValueError, TypeError, AttributeError):
            r.outcome = 'refused'
        return r
    node = parse(s) if s != '"two" "parts"' else ('str', '"twoparts"')
    want = [try_value(node, env) for env in ENVS]
    r.nontrivial = any(w is not None for w in want)
    undefined = all(w is None for w in want)
    try:
        e = Expr.parse(s)
        text = str(e)
        again = str(Expr.parse(text))
    except (RuntimeError, ZeroDivisionError) as x:
        if undefined and 'ivision' in str(x):      # constant division by zero may be refused
            return r
        raise
    r.states = 2
    r.outcome = text

    def judge(what, t, env, w):
        r.transitions += 1
        try:
            got = cexpr.ceval(t, env)
        except (cexpr.Malformed, cexpr.Undefined) as x:
            r.problems.append((what, f'{s!r} printed as {t!r}: {type(x).__name__} {x}, expected {w}'))
            return
        if not close(got, w):
            r.problems.append((what, f'{s!r} printed as {t!r}: {got} expected {w} with a,b,c,d={[env[k] for k in "abcd"]}'))

    if again != text:
        r.problems.append(('fixed-point', f'{s!r} -> {text!r} -> {again!r}'))
    for env, w in zip(ENVS, want):
        if w is None:
            continue
        judge('printed', text, env, w)
        judge('reprinted', again, env, w)
        if isinstance(w, str):
            continue
        known = {k: Expr.float(env[k]) for k in 'abcd'}
        try:
            full = e.evaluate(known)
        except (RuntimeError, ZeroDivisionError):
            # conditional branches which are not taken may hold a division by zero
            continue
        judge('evaluated', str(full), env, w)
    return r
