"""C12: ranges hold exactly the requested points, and scans visit every one of them once, in order."""
import itertools, copy
from fractions import Fraction
from ..base import Result

PID = 'C12'
LEVEL = 'model_checking'
ASSUMPTIONS = ['a range whose step leads away from its stop value, or with equal start and stop, may be refused with an error instead of holding no point or one',
               'values are compared to one part in 1e9 of the step']
BOUND = ('every range with start and stop in tenths from -1.2 to 1.2 (thorough: -2.5 to 2.5), among other numbers, and every step of a menu; every command line of up to 3 parameters '
         'over a menu of values, in both spellings; every dictionary of up to 3 (thorough: 4) parameters over a menu of lists, ranges, repeated and single values; as line and as grid')
STEPS = ['0.1', '0.2', '0.3', '0.4', '0.5', '0.6', '0.7', '0.9', '1', '1.1', '1.5', '2', '0.05', '0.01', '3', '7', '1e-3', '0.25']
OTHER = ['0', '1', '3', '10', '-7', '100', '1000', '1e3', '2.5', '-0.001', '1e-3', '0.3', '6.28', '1e6', '1000001', '12']
VALUES = ['1', '-1', '2.5', '1e3', 'text', '1:3', '3:-1:1', '0:0.1:0.3', '-1:1', '1:2:6', '0:1e-1:2e-1', 'a b', '1:5', '1:-0.25:0']
BAD = ['1:1', '1:2:3:4', '1:0:2', '3:1', '1:-1:3']
KINDS = ['list1', 'list2', 'list3', 'list3f', 'tuple2', 'range2', 'range3', 'rangef', 'down', 'short', 'one', 'once', 'twice', 'thrice', 'int', 'float', 'str', 'other4', 'npy']


def tenths(q):
    m = 12 if q else 25
    return [str(Fraction(i, 10)) if i % 10 == 0 else f'{i / 10}' for i in range(-m, m + 1)]


def cases(tier):
    q = tier == 'quick'
    t = tenths(q)
    for a in t:
        yield ['ranges', a, t]
    for a in OTHER:
        yield ['ranges', a, OTHER]
    for n in range(0, 4):
        for vals in itertools.product(range(len(VALUES)), repeat=n):
            if n == 3 and q and sum(vals) % 3:
                continue
            yield ['line', list(vals)]
    for b in range(len(BAD)):
        for where in range(3):
            for form in range(2):
                yield ['bad', b, where, form]
    yield ['refused']
    yield ['single']
    for n in range(0, 4):
        for vals in itertools.product(range(len(VALUES)), repeat=n):
            if n < 3 or not q or sum(vals) % 5 == 0:
                yield ['list', list(vals)]
    for n in range(0, 4 if q else 5):
        for kinds in itertools.product(range(len(KINDS)), repeat=n):
            yield ['dict', list(kinds)]


def run_case(case):
    r = Result(states=1, transitions=0)
    globals()['_' + case[0]](case[1:], r)
    return r


def points(start, step, stop):
    """The exact points of a range"""
    a, s, b = Fraction(start), Fraction(step), Fraction(stop)
    n = (b - a) / s
    return [a + i * s for i in range(int(n) + 1)] if n >= 0 else []


def same(got, want, scale):
    return abs(Fraction(got) - want) <= abs(scale) * Fraction(1, 10 ** 9) + abs(want) * Fraction(1, 10 ** 12)


def whole(*texts):
    return all(t.lstrip('-').isdigit() for t in texts)


def judge_range(m, want, scale, ints, what, r):
    r.transitions += 1
    r.states += len(want)
    if len(m) != len(want):
        r.problems.append(('length', f'{what}: len is {len(m)}, should be {len(want)}'))
        return
    got = list(m)
    if len(got) != len(want) or not all(same(g, w, scale) for g, w in zip(got, want)):
        r.problems.append(('points', f'{what}: holds {got[:12]}, should be {[float(w) for w in want][:12]}'))
        return
    if list(m) != got or [x for x, _ in zip(m, m)] != got:
        r.problems.append(('again', f'{what}: iterating again differs'))
    if [m[i] for i in range(len(want))] != got:
        r.problems.append(('index', f'{what}: indexing and iterating differ'))
    if ints and not all(isinstance(g, int) and str(g) == str(int(w)) for g, w in zip(got, want)):
        r.problems.append(('integer', f'{what}: values are {got[:5]}'))
    for i in (len(want), len(want) + 3):
        try:
            r.problems.append(('beyond', f'{what}: has an element {i}: {m[i]}'))
        except IndexError:
            pass


def _ranges(args, r):
    from mccode_antlr.run.range import MRange
    a, stops = args
    for b in stops:
        for s in [x for st in STEPS for x in (st, '-' + st)]:
            if (Fraction(b) - Fraction(a)) / Fraction(s) > 2000:
                continue
            want = points(a, s, b)
            text = f'{a}:{s}:{b}'
            try:
                m = MRange.from_str(text)
            except (ValueError, ZeroDivisionError) as e:
                if len(want) > 1 or (len(want) == 1 and Fraction(a) != Fraction(b)):
                    r.problems.append(('refused', f'{text}: {e}'))
                continue
            scale = Fraction(s)
            big = len(want) > 300
            judge_range(m, want, scale, whole(a, s), text, r)
            if big or not want:
                continue
            num = [int(x) if whole(x) else float(x) for x in (a, b, s)]
            n = MRange(*num)
            if n != m:
                r.problems.append(('equal', f'{text} is not equal to one of the same numbers'))
            judge_range(MRange.from_str(str(m)), want, scale, whole(a, s), f'printed {text}', r)
            if MRange.from_str(str(m)) != m or not same(m.min, Fraction(a), scale) or not same(m.max, Fraction(b), scale):
                r.problems.append(('printed', f'{text} is read from {m} as {MRange.from_str(str(m))}'))
            if s == '1':
                judge_range(MRange.from_str(f'{a}:{b}'), want, scale, whole(a), f'{a}:{b}', r)
            for other in (MRange(num[0], num[1] + 2 * num[2], num[2]), MRange(num[0] - num[2], num[1], num[2])):
                if other == m:
                    r.problems.append(('equal', f'{text} is equal to {other}'))
    r.outcome = [len(r.problems)]


def value(text):
    """What a parameter text stands for: its points"""
    if ':' in text:
        p = text.split(':')
        p = p if len(p) == 3 else [p[0], '1', p[1]]
        return points(*p), whole(p[0], p[1]), Fraction(p[1])
    try:
        return [Fraction(text)], whole(text), Fraction(1)
    except ValueError:
        return [text], False, Fraction(1)


def expected(sets, grid):
    """None when the lengths do not fit; otherwise the list of points"""
    if not sets:
        return []
    if grid:
        return list(itertools.product(*sets))
    n = max(len(s) for s in sets)
    if any(len(s) not in (1, n) for s in sets):
        return None
    return [tuple(s[i] if len(s) > 1 else s[0] for s in sets) for i in range(n)]


def judge_scan(params, names, sets, ints, grid, what, r):
    from mccode_antlr.run.range import parameters_to_scan
    want = expected(sets, grid)
    before = {k: (type(v), str(v), getattr(v, 'maximum', None)) for k, v in params.items()}
    r.transitions += 1
    try:
        n, got_names, scan = parameters_to_scan(params, grid=grid)
    except ValueError as e:
        if want is not None:
            r.problems.append(('refused', f'{what}: {e}'))
        return
    if want is None:
        r.problems.append(('accepted', f'{what}: lengths {[len(s) for s in sets]} should be refused, gave {n} points'))
        return
    got = list(itertools.islice(iter(scan), len(want) + 5))
    r.states += len(want)
    if list(got_names) != names:
        r.problems.append(('names', f'{what}: names are {got_names}'))
    if n != len(want) or len(got) != len(want):
        r.problems.append(('count', f'{what}: {n} points said, {len(got)} given, should be {len(want)}'))
        return
    for g, w in zip(got, want):
        ok = len(g) == len(w)
        for x, y, i in zip(g, w, ints):
            if isinstance(y, str):
                ok = ok and str(x) == y
            else:
                ok = ok and not isinstance(x, str) and same(x, y, Fraction(1, 100)) and (not i or str(x) == str(int(y)))
        if not ok:
            r.problems.append(('points', f'{what}: point {g} should be {[y if isinstance(y, str) else float(y) for y in w]}'))
            return
    if before != {k: (type(v), str(v), getattr(v, 'maximum', None)) for k, v in params.items()}:
        r.problems.append(('changed', f'{what}: the parameters were changed: {params}'))


def _line(args, r):
    from mccode_antlr.run.range import parse_scan_parameters, parse_command_line_parameters
    vals = [VALUES[i] for i in args[0]]
    names = ['alpha', 'Beta_2', 'aLPHA'][:len(vals)]
    forms = itertools.product(range(2), repeat=len(vals))
    for form in forms:
        argv = []
        for k, v, f in zip(names, vals, form):
            argv += [f'{k}={v}'] if f == 0 else [k, v]
        given = list(argv)
        for grid in (False, True):
            parsed = parse_scan_parameters(argv)
            if argv != given:
                r.problems.append(('changed', f'{given} was changed to {argv}'))
            if list(parsed) != names:
                r.problems.append(('names', f'{given}: {list(parsed)}'))
                return
            v = [value(x) for x in vals]
            judge_scan(parsed, names, [x[0] for x in v], [x[1] for x in v], grid, f'{given} {"grid" if grid else "line"}', r)
        one = parse_command_line_parameters(argv)
        for k, v in zip(names, vals):
            if ':' not in v and str(one[k]) != (v if v != '1e3' else '1000.0'):
                r.problems.append(('printed', f'{given}: {k} is printed {one[k]}'))
    if len(vals) == 1 and ':' not in vals[0]:
        got = parse_scan_parameters([f'x=y={vals[0]}'])
        if str(got['x']) != f'y={vals[0]}':
            r.problems.append(('value', f'x=y={vals[0]} gave {got}'))
    r.outcome = [len(x) for x in (value(v)[0] for v in vals)]


def _bad(args, r):
    from mccode_antlr.run.range import parse_scan_parameters, parameters_to_scan
    b, where, form = args
    toks = [['x=1'], ['y', '2']]
    toks.insert(where, [f'z={BAD[b]}'] if form == 0 else ['z', BAD[b]])
    argv = [t for x in toks for t in x]
    r.transitions += 1
    try:
        parsed = parse_scan_parameters(argv)
        n, _, scan = parameters_to_scan(parsed)
        got = list(scan)
    except (ValueError, ZeroDivisionError):
        return
    want = value(BAD[b])[0] if BAD[b] not in ('1:2:3:4', '1:0:2') else None
    if want is None or n > 1 or len(got) != len(want):
        r.problems.append(('accepted', f'{argv} gave {n} points {got[:4]}'))


def _refused(args, r):
    from mccode_antlr.run.range import parse_scan_parameters
    for argv in (['x'], ['x=1', 'y'], ['x', 'y=1'], ['x', '1', 'y'], ['x=1', 'y', 'z=2']):
        r.transitions += 1
        try:
            r.problems.append(('accepted', f'{argv} gave {parse_scan_parameters(argv)}'))
        except ValueError:
            pass


def make(kind):
    """(the given object, its points, printed as integers)"""
    from mccode_antlr.run.range import MRange, Singular
    F = Fraction
    if kind == 'npy':
        import numpy
        return numpy.array([0.5, 1.5, 2.5]), [F(1, 2), F(3, 2), F(5, 2)], False
    return {'list1': ([4], [F(4)], True), 'list2': ([1, 5], [F(1), F(5)], True), 'list3': ([3, 1, 2], [F(3), F(1), F(2)], True),
            'list3f': ([0.5, 'w', 2], [F(1, 2), 'w', F(2)], False), 'tuple2': ((7, 7), [F(7), F(7)], True),
            'range2': (MRange(1, 2, 1), [F(1), F(2)], True), 'range3': (MRange(1, 3, 1), [F(1), F(2), F(3)], True),
            'rangef': (MRange(0, 0.3, 0.1), [F(i, 10) for i in range(4)], False), 'down': (MRange(3, 1, -1), [F(3), F(2), F(1)], True),
            'short': (MRange(1, 2, 5), [F(1)], True), 'one': (Singular(8, 1), [F(8)], True), 'once': (Singular('s'), ['s'], False),
            'twice': (Singular(2, 2), [F(2)] * 2, True), 'thrice': (Singular(3, 3), [F(3)] * 3, True), 'int': (6, [F(6)], True), 'float': (0.25, [F(1, 4)], False),
            'str': ('word', ['word'], False), 'other4': ([1, 2, 3, 4], [F(1), F(2), F(3), F(4)], True)}[kind]


def _dict(args, r):
    kinds = [KINDS[i] for i in args[0]]
    names = ['a', 'B', 'cC', 'd'][:len(kinds)]
    for grid in (False, True):
        made = [make(k) for k in kinds]
        params = {n: m[0] for n, m in zip(names, made)}
        sets = [m[1][:1] if grid and k in ('twice', 'thrice') else m[1] for k, m in zip(kinds, made)]
        judge_scan(params, names, sets, [m[2] for m in made], grid, f'{kinds} {"grid" if grid else "line"}', r)
    r.outcome = kinds if len(kinds) < 2 else len(kinds)


def _single(args, r):
    """A repeated value: what it holds, how often, and how it is read"""
    from mccode_antlr.run.range import MRange, Singular
    values = [('1', 1), ('-3', -3), ('2.5', 2.5), ('1e3', 1000.0), ('text', 'text'), ('a=b', 'a=b'), ('', ''), ('007', 7), ('"q"', '"q"'), ('-0.25', -0.25)]
    for text, want in values:
        one = Singular.from_str(text)
        if type(one.value) is not type(want) or one.value != want or one.min != want or one.max != want or str(one) != str(want) or one.maximum is not None:
            r.problems.append(('single', f'{text!r} is read as {one!r}'))
        if list(itertools.islice(one, 7)) != [want] * 7:
            r.problems.append(('single', f'{text!r} is not repeated'))
        r.transitions += 3
        for n in range(6):
            some = Singular(want, n)
            first = list(itertools.islice(some, n + 3))
            if first != [want] * n or list(itertools.islice(some, n + 3)) != first or len(some) != n:
                r.problems.append(('repeats', f'{some!r} holds {first}'))
            for other, m in itertools.product(values, range(6)):
                r.transitions += 1
                if (some == Singular(other[1], m)) != (want == other[1] and n == m):
                    r.problems.append(('equal', f'{some!r} == {Singular(other[1], m)!r} is {some == Singular(other[1], m)}'))
    for text in ('1:2', 'a:b', ':'):
        try:
            r.problems.append(('accepted', f'{text} as one value gave {Singular.from_str(text)!r}'))
        except ValueError:
            pass
    menu = [MRange(*x) for x in itertools.product((0, 1, -2), (3, 5.5), (1, 2, 0.5))] + [MRange(3, -1, -1), MRange(2.5, 0, -0.5)]
    for a, b in itertools.product(menu, repeat=2):
        r.states += 1
        if (a == b) != (a is b):
            r.problems.append(('equal', f'{a} == {b} is {a == b}'))
    for a in menu:
        if (a.step > 0 and any(x < a.min or x > a.max for x in a)) or {a.min, a.max} != {a.start, a.stop}:
            r.problems.append(('bounds', f'{a} is said to be between {a.min} and {a.max}'))
        again = MRange.from_str(str(a))
        if again != a or list(again) != list(a):
            r.problems.append(('reread', f'{a} is read as {again}'))


def _list(args, r):
    """parse_list: the same command lines for one kind of range, with names in lower case"""
    from mccode_antlr.run.range import parse_list, MRange, Singular
    vals = [VALUES[i] for i in args[0]]
    names = ['alpha', 'Beta_2', 'cC'][:len(vals)]
    for cls in (MRange, Singular):
        for form in itertools.product(range(2), repeat=len(vals)):
            argv = [t for k, v, f in zip(names, vals, form) for t in ([f'{k}={v}'] if f == 0 else [k, v])]
            given = list(argv)
            fits = all((':' in v) == (cls is MRange) for v in vals)
            r.transitions += 1
            try:
                got = parse_list(cls, argv)
            except ValueError:
                if fits:
                    r.problems.append(('refused', f'{given} is refused'))
                continue
            finally:
                if argv != given:
                    r.problems.append(('changed', f'{given} was changed to {argv}'))
            want = {k.lower(): cls.from_str(v) for k, v in zip(names, vals)}
            if not fits or list(got) != list(want) or any(got[k] != want[k] for k in want):
                r.problems.append(('list', f'{given} gave {got}'))
