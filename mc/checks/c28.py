"""C28: the values found by reading C declarations and assignments are the ones the C code leaves."""
import itertools, re
from ..base import Result
from .. import cgen, cexpr

PID = 'C28'
LEVEL = 'model_checking'
ASSUMPTIONS = ['assignments only, of doubles and ints; integer operands divide without remainder and ints are given whole numbers, as the '
               'expressions of the instrument language do not truncate',
               'gcc computes the reference values, from the same text']
BOUND = ('every sequence of up to 2 (quick; some of 3) or 3 (thorough; some of 4) assignments from a menu of 23 over two double and two int variables and a '
         'free instrument parameter, after each of 4 declaration blocks and in 4 layouts; every declaration of a menu, alone and in pairs; '
         'non-trivial: an assignment reads a variable')
DECLS = ['double x = 1.5, y = -2.0;\nint n = 4;\nint m = 2 + 1;',
         'double x, y;\nint n, m;',
         '  int m=6, n = -5 ;\n\ndouble y = 1e3; double x=(1 + 2) * 0.5;',
         'double y, x = 0.25;\nint n; int m = 12 / 4;\n']
TYPES = {'x': 'float', 'y': 'float', 'n': 'int', 'm': 'int'}
MENU = ['x = 3', 'x = x + 1.5', 'x = y * x - 2', 'x = (x + 3) / 2.0', 'x = n / 2.0', 'x = y', 'x = n', 'y = m', 'x = p + x', 'x = x > y ? 1 : 5.5', 'x = sqrt(x * x)',
        'y = -y / 4', 'y = x', 'y = x - y - n', 'y = 2 * p', 'y = x - (y - 1)', 'n = n + 1', 'n = n * m - 3', 'n = m', 'n = 7', 'm = n', 'm = m - 1', 'm = -(n - m)']
LAYOUTS = [(';\n', ';'), ('; ', '; '), (';\n\n    ', ';\n'), (' ;', '')]
ENVS = [2.0, -0.75]
DECLARED = [('double a = 1.5;', {'a': ('float', 1.5)}), ('double a=-2;', {'a': ('float', -2)}), ('int a = 7;', {'a': ('int', 7)}), ('double a = 1+2*3;', {'a': ('float', 7)}),
            ('int a, b = 2;', {'a': ('int', None), 'b': ('int', 2)}), ('double a = 1, b, c = 1e-3;', {'a': ('float', 1), 'b': ('float', None), 'c': ('float', 1e-3)}),
            ('char * a = "text, with = and ;";', {'a': ('str', '"text, with = and ;"')}), ('float a = (1.0 - 3) / 4;', {'a': ('float', -0.5)}),
            ('static double a = .5;', {'a': ('float', 0.5)}), ('// double z = 1;\ndouble a = 2; /* int q = 4; */', {'a': ('float', 2)}),
            ('double a[3] = {1, 2.5, -3};', {'a': ('float', [1, 2.5, -3])}), ('int a[2] = {4, 5}; int b;', {'a': ('int', [4, 5]), 'b': ('int', None)}), ('', {})]


def cases(tier):
    q = tier == 'quick'
    n = len(MENU)
    for d in range(len(DECLS)):
        for l in range(len(LAYOUTS)):
            yield ['seqs', d, l, [[]] + [[i] for i in range(n)]]
            for i in range(n):
                yield ['seqs', d, l, [[i, j] for j in range(n)]]
        for i, j in itertools.product(range(n), repeat=2):
            if q and (d or (i + j) % 3):
                continue
            yield ['seqs', d, (i + j) % len(LAYOUTS), [[i, j, k] for k in range(n)]]
        if not q:
            for c in itertools.product(range(0, n, 2), repeat=3):
                yield ['seqs', d, sum(c) % len(LAYOUTS), [[*c, k] for k in range(n)]]
    for i, j in itertools.product(range(len(DECLARED)), repeat=2):
        yield ['declared', i, j]


def run_case(case):
    r = Result(states=0, transitions=0)
    globals()['_' + case[0]](case[1:], r)
    return r


def reads(text):
    return set(re.findall(r'[A-Za-z]\w*', text.split('=', 1)[1])) - {'sqrt', 'p'}


def defined(decl, steps):
    """The variables with a value at the end, or None if a value is used before there is one"""
    have = set(re.findall(r'(\w+)\s*=', decl))
    for s in steps:
        if not reads(s) <= have:
            return None
        have.add(s.split('=')[0].strip())
    return have


def reference(decl, seqs):
    body = []
    for p in ENVS:
        for steps in seqs:
            body.append('{ double p = %r; %s %s printf("%%.17g %%.17g %%d %%d\\n", x, y, n, m); }' % (p, decl.replace('\n', ' '), ' '.join(f'{s};' for s in steps)))
    source = '#include <stdio.h>\n#include <math.h>\nint main(void) {\n' + '\n'.join(body) + '\nreturn 0; }\n'
    exe = cgen.build(source, ('-w',))
    out = cgen.execute(exe)[1]
    vals = [[float(v) for v in line.split()] for line in out.split('\n') if line.strip()]
    n = len(seqs)
    return [[dict(zip('xynm', vals[e * n + i])) for e in range(len(ENVS))] for i in range(n)]


def _seqs(args, r):
    from mccode_antlr.translators.c_listener import extract_c_declared_expressions, evaluate_c_defined_expressions, evaluate_c_defined_variables
    d, l, seqs = args
    decl = DECLS[d]
    todo = [(s, [MENU[i] for i in s]) for s in seqs]
    todo = [(s, t, defined(decl, t)) for s, t in todo]
    todo = [x for x in todo if x[2] is not None]
    if not todo:
        r.outcome = 'none'
        return
    want = reference(decl, [t for _, t, _ in todo])
    sep, end = LAYOUTS[l]
    for (s, steps, have), w in zip(todo, want):
        code = sep.join(steps) + (end if steps else '')
        r.states += 1
        r.transitions += len(steps)
        r.traces += 1
        r.nontrivial = r.nontrivial or any(reads(t) for t in steps)
        known = {k.name: v for k, v in extract_c_declared_expressions(decl).items()}
        before = {k: (str(v), v.data_type.name) for k, v in known.items()}
        got = evaluate_c_defined_expressions(known, code)
        if {k: (str(v), v.data_type.name) for k, v in known.items()} != before:
            r.problems.append(('changed', f'{decl!r} then {code!r}: the given values were {before}, and are now {({k: str(v) for k, v in known.items()})}'))
        judge(f'{decl!r} then {code!r}', got, have, w, r)
        # by type only: what was not assigned stays a name
        alone = evaluate_c_defined_variables({'x': 'double', 'y': 'double', 'n': 'int', 'm': 'int'}, code)
        start = {k: v for k, v in zip('xynm', (0.375, -4.5, 6, 10))}
        judge_free(f'{code!r}', alone, start, steps, r)
    r.outcome = [str(v) for v in got.values()]


def number(e, env):
    return cexpr.ceval(str(e), env)


def judge(what, got, have, want, r):
    if set(got) != set(TYPES):
        r.problems.append(('names', f'{what}: {sorted(got)}'))
        return
    for k in TYPES:
        if k not in have:
            if got[k].has_value:
                r.problems.append(('invented', f'{what}: {k} has value {got[k]}'))
            continue
        for e, p in enumerate(ENVS):
            try:
                v = number(got[k], {'p': p, '()': {'sqrt': lambda x: x ** 0.5}})
            except Exception as ex:
                r.problems.append(('value', f'{what}: {k} is {got[k]}: {ex!r}'))
                break
            if not cexpr.close(v, want[e][k]):
                r.problems.append(('value', f'{what}: {k} is {got[k]} (p={p}), C has {want[e][k]}'))
                break
        if got[k].data_type.name != TYPES[k] and got[k].has_value:
            r.problems.append(('type', f'{what}: {k} is {got[k]} of type {got[k].data_type}'))


def judge_free(what, got, start, steps, r):
    for p in ENVS:
        env = {**start, 'p': p, '()': {'sqrt': lambda x: x ** 0.5}}
        try:
            have = {k: number(v, env) for k, v in got.items()}
        except Exception as ex:
            r.problems.append(('value', f'{what}: {({k: str(v) for k, v in got.items()})}: {ex!r}'))
            return
        for s in steps:
            k, t = s.split('=', 1)
            env[k.strip()] = cexpr.ceval(t, env)
        for k in TYPES:
            if not cexpr.close(have[k], env[k]):
                r.problems.append(('value', f'{what} with {start}: {k} is {got[k]}, C has {env[k]}'))
                return


def _declared(args, r):
    from mccode_antlr.translators.c_listener import extract_c_declared_expressions
    one, two = DECLARED[args[0]], DECLARED[args[1]]
    rename = {k: f'{k}2' for k in two[1]}
    text = two[0]
    for k in two[1]:
        text = re.sub(rf'\b{k}\b(?![^"]*"[^"]*$)', rename[k], text) if '"' not in text else text.replace(f'* {k} ', f'* {k}2 ')
    want = {**one[1], **{rename[k]: v for k, v in two[1].items()}}
    block = one[0] + '\n' + text
    got = {k.name: v for k, v in extract_c_declared_expressions(block).items()}
    r.states += 1
    r.transitions += len(want)
    r.nontrivial = len(want) > 1
    if list(got) != list(want):
        r.problems.append(('declared', f'{block!r} declares {list(got)}'))
        return
    for k, (kind, v) in want.items():
        e = got[k]
        if e.data_type.name != kind:
            r.problems.append(('type', f'{block!r}: {k} has type {e.data_type}'))
        if v is None:
            ok = not e.has_value
        elif isinstance(v, str):
            ok = str(e) == v
        elif isinstance(v, list):
            ok = [cexpr.ceval(x, {}) for x in str(e).strip('{}').split(',')] == v
        else:
            ok = cexpr.close(cexpr.ceval(str(e), {}), v)
        if not ok:
            r.problems.append(('initial', f'{block!r}: {k} is {e}'))
    r.outcome = [str(v) for v in got.values()]
