"""C01: arithmetic, simplification and (partial) evaluation of expressions never change their value."""
import itertools
from ..base import Result
from .. import cexpr
from ..cexpr import try_value, close, parse

PID = 'C01'
LEVEL = 'model_checking'
ASSUMPTIONS = ['expression text is judged by an independent reader with C precedence over doubles (mc/cexpr.py)',
               'integer-by-integer division is real division, as the code folds it',
               'values are compared to a relative 1e-9']
BOUND = ('every expression tree of depth <= 2 built with the operators + - * / and unary minus (thorough: also ^ and abs) over two '
         'identifiers and small constants, under every assignment of a menu of values, complete, partial and by substitution; '
         'non-trivial: mentions an identifier and is defined for at least one assignment')

ENVS = [dict(a=2.0, b=3.0), dict(a=-1.5, b=0.5), dict(a=3.0, b=-2.0), dict(a=1.0, b=-1.0), dict(a=0.0, b=2.0)]


def trees(tier):
    leaves = ['a', 'b', 0, 1, -1, 2, 0.5]
    ops = ['+', '-', '*', '/']
    un = ['neg']
    if tier == 'thorough':
        leaves += [-2.5]
        un += ['abs']
    l0 = list(leaves)
    l1 = [[o, x, y] for o in ops for x in l0 for y in l0] + [[u, x] for u in un for x in l0]
    if tier == 'thorough':
        l1 += [['^', x, y] for x in l0 for y in l0]
    for t in l0 + l1:
        yield t
    # depth two: anything with two identifiers' worth of structure on at least one side
    small = [t for t in l1 if tier == 'thorough' or not all(not isinstance(x, str) for x in t[1:])]
    for u in un:
        for x in l1:
            yield [u, x]
    for o in ops + (['^'] if tier == 'thorough' else []):
        for x in l0:
            for y in l1:
                yield [o, x, y]
                yield [o, y, x]
        for x in small:
            for y in small:
                yield [o, x, y]


def cases(tier):
    seen = set()
    for t in trees(tier):
        k = repr(t)
        if k not in seen:
            seen.add(k)
            yield t


def ref(t):
    """The tree in the oracle's own representation"""
    if isinstance(t, str):
        return ('id', t)
    if not isinstance(t, list):
        return ('num', float(t))
    if t[0] == 'neg':
        return ('u-', ref(t[1]))
    if t[0] == 'abs':
        return ('call', ('id', 'abs'), [ref(t[1])])
    return (t[0], ref(t[1]), ref(t[2]))


def build(t, raw=True):
    from mccode_antlr.common import Expr
    if isinstance(t, str):
        return Expr.id(t)
    if not isinstance(t, list):
        return t if raw else Expr.best(t)
    x = build(t[1], raw)
    if t[0] == 'neg':
        return -x
    if t[0] == 'abs':
        return abs(x)
    y = build(t[2], raw)
    if t[0] == '+': return x + y
    if t[0] == '-': return x - y
    if t[0] == '*': return x * y
    if t[0] == '/': return x / y
    if t[0] == '^': return x ** y


def names(t):
    return {t} if isinstance(t, str) else set().union(*[names(x) for x in t[1:]]) if isinstance(t, list) else set()


def only_arithmetic(t):
    return not isinstance(t, list) or (t[0] in '+-*/' and all(only_arithmetic(x) for x in t[1:]))


def run_case(t):
    from mccode_antlr.common import Expr
    r = Result(states=0, transitions=0)
    node = ref(t)
    want = [try_value(node, env) for env in ENVS]
    ids = names(t)
    r.nontrivial = bool(ids) and any(w is not None for w in want)
    sub = {'b': Expr.float(0.5)}

    def judge(what, text, env, w):
        r.transitions += 1
        if w is None:
            return
        try:
            got = cexpr.ceval(text, env)
        except (cexpr.Malformed, cexpr.Undefined) as e:
            r.problems.append((what, f'{t}: text {text!r} with {env}: {type(e).__name__} {e}, expected {w}'))
            return
        if not close(got, w):
            r.problems.append((what, f'{t}: text {text!r} with {env} is {got}, expected {w}'))

    def undefined_ok(f, w):
        """f may refuse only when the true value is undefined"""
        try:
            return f()
        except (RuntimeError, ZeroDivisionError, OverflowError):
            if all(x is None for x in w):
                return None
            raise

    for raw in (False, True):
        if raw and not isinstance(t, list):
            continue
        if raw and not ids:
            continue   # plain python numbers only
        e = undefined_ok(lambda: build(t, raw), want)
        if e is None:
            continue
        if not isinstance(e, Expr):     # a sub-tree of plain numbers collapsed
            e = Expr.best(e)
        text = str(e)
        r.states += 1
        r.outcome = text
        for env, w in zip(ENVS, want):
            judge('built', text, env, w)
        s = undefined_ok(e.simplify, want)
        if s is not None:
            for env, w in zip(ENVS, want):
                judge('simplify', str(s), env, w)
        for env, w in zip(ENVS, want):
            known = {k: Expr.float(v) for k, v in env.items()}
            full = undefined_ok(lambda: e.evaluate(known), [w])
            if full is not None:
                judge('evaluate', str(full), {}, w)
                if w is not None and only_arithmetic(t):
                    if not full.is_constant:
                        r.problems.append(('evaluate-constant', f'{t} with {env}: {full} is not a constant'))
                    elif not close(float(full.value), w):
                        r.problems.append(('evaluate-value', f'{t} with {env}: {full.value} != {w}'))
            part = undefined_ok(lambda: e.evaluate({'a': known['a']}), [x for x, n in zip(want, ENVS) if n['a'] == env['a']])
            if part is not None:
                judge('partial', str(part), {'b': env['b']}, w)
                if part.depends_on('a'):
                    r.problems.append(('partial-depends', f'{t}: {part} still depends on a'))
        # substitution by an expression
        swap = None
        if 'a' in ids and _defined_after_swap(node):
            swap = e.evaluate({'a': Expr.id('b') + Expr.int(1)})
        if swap is not None:
            for env in ENVS:
                judge('substitute', str(swap), {'b': env['b']}, try_value(node, dict(a=env['b'] + 1, b=env['b'])))
        if str(e) != text:
            r.problems.append(('mutated', f'{t}: {text} became {e}'))
        c = e.copy()
        if str(c) != text or not (c == e):
            r.problems.append(('copy', f'{t}: copy of {text} is {c}'))
        for n in ('a', 'b'):
            if e.depends_on(n) and n not in ids:
                r.problems.append(('depends', f'{t}: depends on {n}'))
    return r


def _defined_after_swap(node):
    return any(try_value(node, dict(a=e['b'] + 1, b=e['b'])) is not None for e in ENVS)
