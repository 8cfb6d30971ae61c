"""C19: an instrument put together by method calls is the one which the corresponding text describes."""
import itertools, re
from ..base import Result
from .. import cgen
from . import c05

PID = 'C19'
LEVEL = 'model_checking'
ASSUMPTIONS = ['a value given as Python text is the text of an expression, as in an instrument file', 'instruments are the same if they hold the same, print the same text and give the same C code, up to '
               'comments and source lines', 'values which the text of an instrument could not hold are refused or kept, but never change into something else']
BOUND = ('the instrument descriptions of C05 without those which add a string to a number (each feature value alone in two surroundings, pairs of features) built in three ways; every form of position and orientation reference in chains of three components; '
         'every kind of Python value for every type of parameter; every sequence of up to 4 (thorough: 5) calls from a menu of allowed and refused ones')
CHUNK = 8
ROUTES = ['kwargs', 'methods', 'instance', 'late']
COMP = 'DEFINE COMPONENT Par\nSETTING PARAMETERS (double a=1, int n=3, string s="x", vector v={1,2}, int *k={1,2})\nTRACE\n%{\n%}\nEND\n'
FILES = dict(c05.FILES, **{'Par.comp': COMP})
# Python values: how they are given (evaluated here), and how they are written
VALUES = [('1', '1'), ('-2', '-2'), ('2.5', '2.5'), ('1e-9', '1e-9'), ('"p"', 'p'), ('"2*p + q"', '2*p + q'), ('"-p"', '-p'), ('\'"text"\'', '"text"'), ('[1, 2, 3]', '{1,2,3}'), ('(1.5, -2)', '{1.5,-2}'),
          ('numpy.array([1.5, 2.5])', '{1.5,2.5}'), ('numpy.array([1, 2])', '{1,2}'), ('[]', '{}'), ('[4]', '{4}'), ('numpy.float64(2.5)', '2.5'), ('numpy.int64(3)', '3'), ('True', '1'), ('False', '0'),
          ('"{1,2}"', '{1,2}'), ('"{p, 2*p, -1}"', '{p, 2*p, -1}'), ('"{q, 2*q}"', '{q, 2*q}'), ('"arr"', 'arr'), ('"arr + 1"', 'arr + 1'), ('"box.list"', 'box.list'), ('"NULL"', 'NULL'), ('Expr.parse("p*2")', 'p*2'), ('Expr.float(0.25)', '0.25'), ('Expr.int(4)', '4'), ('Expr.str(\'"t"\')', '"t"'), ('0', '0'), ('0.0', '0.0'),
          ('"sin(p)"', 'sin(p)'), ('"p > 1 ? 2 : 3"', 'p > 1 ? 2 : 3'), ('numpy.float32(0.5)', '0.5'), ('None', None), ('"1 +"', None), ('""', None), ('"{1,2"', None), ('"a b"', None)]
TYPES = ['a', 'n', 's', 'v', 'k']
PARS = [('p=1', '', 'p', None, '1'), ('p=2.5', '', 'p', None, '2.5'), ('p=-3', '', 'p', None, '-3'), ("p=(2.5, 'm')", '', 'p', '"m"', '2.5'), ("p={'value': 2, 'unit': 'mm'}", 'int', 'p', '"mm"', '2'),
        ("p=[2.5, 'm/s']", '', 'p', '"m/s"', '2.5'), ("p='\"abc\"'", 'string', 'p', None, '"abc"'), ("p=('\"abc\"', 'name')", 'string', 'p', '"name"', '"abc"'), ("p=Expr.float(3)", '', 'p', None, '3'),
        ("p=Expr.int(3)", 'int', 'p', None, '3'), ("p=Expr.str('\"x\"')", 'string', 'p', None, '"x"'), ("p=0", 'int', 'p', None, '0'), ("p=0.0", '', 'p', None, '0.0'), ("p=True", 'int', 'p', None, '1'),
        ("p=(7, '\"m\"')", 'int', 'p', '"m"', '7'), ("p=('m', 7)", 'int', 'p', '"m"', '7'), ("p=numpy.float64(1.5)", '', 'p', None, '1.5'), ("p=numpy.int64(2)", "", 'p', None, '2'), ("p=(0, '')", 'int', 'p', None, '0')]
TEXTS = ['p', 'p=1', 'double p = 2', 'int p = 3', 'p/"m" = 1.5', 'string p = "x"', 'string p', 'int p/"1"', 'double p/"m/s"', 'p = -1', 'p = 2*(1+3)', 'string p/"f" = "a b"', 'p=1e-6']
SPOTS = ['None', '(0, 0, 1)', '[0, 0, 1]', 'numpy.array([0, 0, 1])', '((0, 0, 1), "ABSOLUTE")', '((0, 0, 1), "absolute")', '([0, 0, 1], None)', '((0, 0, 1), "PREVIOUS")', '((0, 0, 1), "first")', '((0, 0, 1), "absolute2")',
         '((0, 0, 1), first)', '[(0, 0, 1), "first"]', '(("p", 0, "2*p"), "first")', '(("p", 0, "p - 1"), "ABSOLUTE")', '("p", 0, 1)', '((0.5, Expr.parse("p"), -1), second)', '(numpy.array([0.5, 0, 1]), "PREVIOUS")']
CALLS = ['a', 'a again', 'b at a', 'b bad value', 'b no type', 'b no ref', 'b bad place', 'par p', 'par p again', 'par p ignore', 'set a', 'set a again', 'set a over', 'set a unknown', 'user u', 'ensure u', 'ensure u2', 'ensure w', 'declare', 'when const',
         'meta', 'meta again']


def adds_text(case):
    """The rich surroundings add the parameters a and b: with a string among them this has no meaning in C"""
    surroundings, chosen = case[0], case[1]
    if surroundings != 'rich' or 'pars' not in chosen:
        return False
    types = {n: t for t, n, u, v in c05.FEATURES['pars'][chosen['pars']]}
    return {'a', 'b'} <= set(types) and 'string' in (types['a'], types['b'])


def cases(tier):
    q = tier == 'quick'
    for c in c05.cases(tier):
        if len(c[1]) < 3:
            if not ({'copy'} & set(c[1])) and not adds_text(c):
                for route in (ROUTES if len(c[1]) < 2 else ROUTES[:1 if q else 3]):
                    yield ['built', route, c]
    for t in TYPES:
        for v in range(len(VALUES)):
            for route in ROUTES[:2]:
                for late in (0, 1):
                    yield ['value', t, v, route, late]
    for k in range(len(PARS)):
        yield ['par', k]
    for k in range(len(TEXTS)):
        for how in (0, 1, 2):
            yield ['partext', k, how]
    for a, b in itertools.product(range(len(SPOTS)), repeat=2):
        for c in (0, 3, 7):
            for late in (0, 1):
                yield ['spot', a, b, c, late]
    for n in range(1, 4 if q else 5):
        for calls in itertools.product(range(len(CALLS)), repeat=n):
            yield ['calls', list(calls)]


def run_case(case):
    r = Result(states=1, transitions=0)
    globals()['_' + case[0]](case[1:], r)
    return r


def registries():
    return [cgen.local('c19', FILES), cgen.libc()]


def assembler():
    from mccode_antlr.assembler import Assembler
    return Assembler('Name', registries=registries())


def parsed(text):
    return cgen.parse(text, registries()[:1])


def same(r, key, want, got, text):
    for p, w, g in c05.diff(want, got):
        r.problems.append((f'{key}:{c05.field(p)}', f'{p}: should be {w!r}, is {g!r} for\n{text}'))


def code(instr):
    """The generated C without comments and source lines"""
    t = cgen.translate(instr)
    t = re.sub(r'/\*.*?\*/', '', t, flags=re.S)
    t = re.sub(r'//[^\n]*', '', t)
    # a coordinate which is a whole number can be written as a float
    t = re.sub(r'.*(rot_set_rotation|coords_set).*', lambda m: re.sub(r'\b(\d+)\.0\b', r'\1', m.group()), t)
    return [x.strip() for x in t.split('\n') if x.strip() and not re.match(r'\s*#line|.*SIG_MESSAGE|.*instrument_code|.*instrument_source|.*Instrument:|.*Date:', x)]


def same_code(r, key, a, b, text):
    try:
        one = code(a)
    except Exception as e:
        r.problems.append((f'{key}:translate', f'{e!r} for\n{text}'))
        return
    two = code(b)
    r.transitions += 1
    if one != two:
        k = next((i for i, (x, y) in enumerate(zip(one, two)) if x != y), min(len(one), len(two)))
        r.problems.append((f'{key}:code', f'generated C is {one[k:k + 3]} instead of {two[k:k + 3]} for\n{text}'))


# ---- whole instruments

def _built(args, r):
    route, c = args
    d = c05.describe(c)
    want = c05.expect(d)
    text = c05.render(d)
    built = build(d, route)
    r.transitions += 1
    same(r, f'{route}', want, c05.observe(built), text)
    r.states = len(d['components'])
    r.nontrivial = bool(c[1])
    if r.problems:
        return
    reference = parsed(text)
    again = parsed(str(built))
    r.transitions += 2
    same(r, f'{route} printed', want, c05.observe(again), str(built))
    if len(c[1]) < 2:
        same_code(r, route, built, reference, text)
    r.outcome = str(built)[-300:]


def build(d, route):
    from mccode_antlr.common import Expr, MetaData, RawC
    from mccode_antlr.instr import Instance
    from mccode_antlr.instr.jump import Jump
    with cgen.quiet():
        A = assembler()

        def pars():
            for t, n, u, v in d['pars']:
                A.parameter(f"{t} {n}{'' if u is None else '/' + u}{'' if v is None else ' = ' + v}".strip())
        if route != 'late':
            pars()
        for m, n, v in d['meta']:
            A.metadata(c05.unq(n), c05.unq(m), v)
        if d['flags'] is not None:
            A.instrument.DEPENDENCY(d['flags'])
        for k, f in (('declare', A.declare), ('user', A.user_vars), ('initialize', A.initialize), ('save', A.save), ('final', A.final)):
            if d[k] is not None:
                f(d[k])
        for c in d['components']:
            def place(x, what):
                ref = x[1].replace('RELATIVE ', '')
                n = re.fullmatch(r'PREVIOUS\((\d)\)', ref)
                if n:
                    ref = A.instrument.components[-int(n.group(1))].name
                coords = tuple(Expr.parse(e) for e in x[0]) if route == 'methods' else x[0]
                return coords, ref
            at = place(c['place'], 'at')
            rot = None if c['rot'] is None else place(c['rot'], 'rotate')
            jumps = []
            for t, k, e in c['jump']:
                m = re.fullmatch(r'(PREVIOUS|NEXT|MYSELF)(?:\((\d)\))?', t)
                n = 0 if m is None else int(m.group(2) or 1) * {'PREVIOUS': -1, 'NEXT': 1, 'MYSELF': 0}[m.group(1)]
                jumps.append(Jump(t if m is None or not m.group(2) else f'{m.group(1)}_{m.group(2)}', n, k == 'ITERATE', Expr.parse(e)))
            metas = tuple(MetaData.from_instance_tokens(c['name'], c05.unq(m), c05.unq(n), v) for m, n, v in c['cmeta'])
            values = {k: 'NULL' if v == 'NULL' else v for k, v in c['value']}
            split = None if c['split'] is None else c['split'] or '10'
            if route in ('kwargs', 'late'):
                kw = {}
                if c['when'] is not None:
                    kw['when'] = c['when']
                if split is not None:
                    kw['split'] = split
                if c['group']:
                    kw['group'] = c['group']
                if c['removable']:
                    kw['removable'] = True
                if c['cpu']:
                    kw['cpu'] = True
                if c['extend'] is not None:
                    kw['extend'] = c['extend']
                if jumps:
                    kw['jump'] = tuple(jumps)
                if metas:
                    kw['metadata'] = metas
                A.component(c['name'], c['type'], at=at, rotate=rot, parameters=values, **kw)
                continue
            if route == 'methods':
                i = A.component(c['name'], c['type'], at=at, rotate=rot)
            else:
                atv, atr = vector(at, A)
                rotv = angles(rot, A, atr)
                comp = A.reader.get_component(c['type'])
                i = Instance(c['name'], comp, (atv, atr), rotv)
                A.instrument.add_component(i)
                for f in A.reader.c_flags:
                    if f not in A.instrument.flags:
                        A.instrument.DEPENDENCY(f)
            i.set_parameters(**values)
            if c['when'] is not None:
                i.WHEN(c['when'])
            if split is not None:
                i.SPLIT(split)
            if c['group']:
                i.GROUP(c['group'])
            if c['extend'] is not None:
                i.EXTEND(c['extend'])
            if jumps:
                i.JUMP(*jumps)
            if c['removable']:
                i.REMOVABLE()
            if c['cpu']:
                i.CPU()
            for m in metas:
                i.add_metadata(m)
        if route == 'late':
            pars()
    return A.instrument


def reference(name, A):
    return None if name == 'ABSOLUTE' else A.instrument.components[-1] if name == 'PREVIOUS' else A.instrument.get_component(name)


def vector(at, A):
    from mccode_antlr.common import Expr
    from mccode_antlr.instr.orientation import Vector
    return Vector(*(Expr.parse(x) for x in at[0])), reference(at[1], A)


def angles(rot, A, ref):
    from mccode_antlr.common import Expr
    from mccode_antlr.instr.orientation import Angles
    if rot is None:
        return Angles(Expr.int(0), Expr.int(0), Expr.int(0)), ref
    return Angles(*(Expr.parse(x) for x in rot[0])), reference(rot[1], A)


# ---- values

def evaluate(text, **names):
    import numpy
    from mccode_antlr.common import Expr
    return eval(text, dict(numpy=numpy, Expr=Expr, **names))


HEAD = 'DEFINE INSTRUMENT Name(double p = 1, int q = 2, string t)\nDECLARE %{\ndouble arr[2];\n%}\nTRACE\n'


def sensible(kind, written):
    """Is this a value for this type of parameter, so that text with it would mean something?"""
    if kind in 'vk':
        return written in ('arr', 'arr + 1', 'box.list', 'NULL') or written.startswith('{') and (kind == 'v' or '.' not in written)
    if kind == 's':
        return written in ('"text"', 'NULL')
    return not written.startswith(('{', '"')) and written not in ('arr', 'arr + 1', 'box.list', 'NULL') and (kind == 'a' or '.' not in written)


def _value(args, r):
    kind, k, route, late = args
    given, written = VALUES[k]
    want = None
    if written is not None and not sensible(kind, written):
        r.outcome = 'not compared'
        return
    if written is not None:
        text = HEAD + f'COMPONENT x = Par({kind} = {written}) AT (0, 0, 0) ABSOLUTE\nEND\n'
        try:
            want = parsed(text)
            wanted = code(want)
        except Exception:
            want = None
    r.transitions += 1
    how = f'{kind}={given} by {route}'
    A = assembler()

    def pars():
        for x in ('double p = 1', 'int q = 2', 'string t'):
            A.parameter(x)
        A.declare('\ndouble arr[2];\n')
    try:
        with cgen.quiet():
            if not late:
                pars()
            value = evaluate(given)
            if route == 'kwargs':
                A.component('x', 'Par', at=(0, 0, 0), parameters={kind: value})
            else:
                A.component('x', 'Par', at=(0, 0, 0)).set_parameters(**{kind: value})
            if late:
                pars()
            got = code(A.instrument)
    except Exception as e:
        r.outcome = 'refused'
        if want is not None and not (kind in 'vk' and written == '{}'):
            r.problems.append((f'value refused:{type(e).__name__}', f'{how}: {e!r}, but {kind} = {written} is accepted in text'))
        return
    r.outcome = str(A.instrument.components[0].get_parameter(kind))
    if want is None:
        if written is None:
            r.problems.append(('nonsense accepted', f'{how} gives {r.outcome}'))
        return
    if got != wanted:
        i = next((i for i, (x, y) in enumerate(zip(got, wanted)) if x != y), min(len(got), len(wanted)))
        r.problems.append(('value', f'{how}: generated C is {got[i:i + 2]} instead of {wanted[i:i + 2]}'))
    again = parsed(str(A.instrument))
    r.transitions += 1
    same(r, 'value printed', c05.observe(parsed(text)), c05.observe(again), how)


def _par(args, r):
    given, t, n, u, v = PARS[args[0]]
    A = assembler()
    r.transitions += 2
    try:
        with cgen.quiet():
            evaluate(f'A.parameters({given})', A=A)
    except Exception as e:
        r.problems.append((f'par:{type(e).__name__}', f'parameters({given}): {e!r}'))
        return
    parcheck(r, A, given, t, n, u, v)


def parcheck(r, A, given, t, n, u, v):
    from mccode_antlr.common import DataType
    text = f"{t} {n}{'' if u is None else '/' + u}{'' if v is None else ' = ' + v}".strip()
    want = c05.observe(parsed(f'DEFINE INSTRUMENT Name({text})\nTRACE\nEND\n'))['params']
    for what, i in (('read', A.instrument), ('printed', parsed(str(A.instrument)))):
        got = c05.observe(i)['params']
        # an integer given to a parameter without type can be of either type
        if len(got) != 1 or (got[0][0], got[0][2]) != (want[0][0], want[0][2]) or not value_same(got[0][3], want[0][3]) or (t and got[0][1] != want[0][1]):
            r.problems.append((f'par {what}', f'parameters({given}) gives {got} instead of {want} ({str(A.instrument).split("DEFINE")[1].split(chr(10))[0]})'))
    r.outcome = str(want)


def value_same(a, b):
    try:
        return a == b or (a is not None and b is not None and abs(float(a) - float(b)) < 1e-12)
    except ValueError:
        return False


def _partext(args, r):
    from mccode_antlr.common import InstrumentParameter
    text, how = TEXTS[args[0]], args[1]
    A = assembler()
    r.transitions += 2
    with cgen.quiet():
        if how == 0:
            A.parameter(text)
        elif how == 1:
            A.parameters(text)
        else:
            A.instrument.add_parameter(InstrumentParameter.parse(text))
    want = c05.observe(parsed(f'DEFINE INSTRUMENT Name({text})\nTRACE\nEND\n'))['params']
    for i in (A.instrument, parsed(str(A.instrument))):
        got = c05.observe(i)['params']
        if got != want:
            r.problems.append(('par text', f'{text!r} gives {got} instead of {want}'))
    r.outcome = str(want)


# ---- places

def spot_text(given, third):
    """What a position means: three coordinates and a reference"""
    if given == 'None':
        return ['0', '0', '0'], None
    m = re.fullmatch(r'[\[(]?(.*?)(?:, ("\w+"|None|first|second)[\])])?', given)
    ref = m.group(2) if given.count('(') + given.count('[') > 1 and m.group(2) else None
    coords = given
    for x in ('numpy.array', 'Expr.parse', '(', ')', '[', ']', '"'):
        coords = coords.replace(x, '')
    coords = [x.strip() for x in coords.split(',')][:3]
    return coords, ref and ref.strip('"')


def _spot(args, r):
    a, b, c, late = args
    at, rot, other = SPOTS[a], SPOTS[b], SPOTS[c]
    A = assembler()
    text = f'DEFINE INSTRUMENT Name(double p = 0.5)\nTRACE\nCOMPONENT first = Gen() AT (1, 2, 3) ABSOLUTE ROTATED (10, 20, 30) ABSOLUTE\nCOMPONENT absolute2 = Gen() AT (1, 0, 0) RELATIVE first ROTATED (0, 45, 0) RELATIVE first\n'

    def say(name, at, rot, last):
        def ref(x):
            return 'ABSOLUTE' if x is None or x.lower() in ('none', 'absolute') else 'RELATIVE ' + {'PREVIOUS': last, 'second': 'absolute2'}.get(x, x)
        p, pr = spot_text(at, None)
        out = f'COMPONENT {name} = Gen() AT ({", ".join(p)}) {ref(pr)}'
        if rot != 'None':
            q, qr = spot_text(rot, None)
            plain = qr is None or qr.lower() == 'none'
            # without a reference of its own the orientation follows the position
            out += f' ROTATED ({", ".join(q)}) {ref(pr) if plain else ref(qr)}'
        return out + '\n'
    try:
        with cgen.quiet():
            if not late:
                A.parameter('double p = 0.5')
            first = A.component('first', 'Gen', at=(1, 2, 3), rotate=(10, 20, 30))
            second = A.component('absolute2', 'Gen', at=((1, 0, 0), first), rotate=((0, 45, 0), 'first'))
            names = dict(first=first, second=second)
            third = A.component('third', 'Gen', at=evaluate(at, **names), rotate=evaluate(rot, **names))
            A.component('fourth', 'Gen', at=evaluate(other, **names), rotate=evaluate(at, **names))
            if late:
                A.parameter('double p = 0.5')
    except Exception as e:
        r.problems.append((f'spot:{type(e).__name__}', f'at={at}, rotate={rot}: {e!r}'))
        return
    text += say('third', at, rot, 'absolute2') + say('fourth', other, at, 'third') + 'END\n'
    want = parsed(text)
    how = f'at={at}, rotate={rot}, then at={other}, rotate={at}\n{text}'
    r.transitions += 4
    r.states = 4
    same(r, 'spot', plain(c05.observe(want)), plain(c05.observe(A.instrument)), how)
    for x, y in zip(want.components, A.instrument.components):
        p, q = [[numbers(e) for e in (*z.orientation.position(), *z.orientation.rotation())] for z in (x, y)]
        if any(abs(i - j) > 1e-9 for i, j in zip(p, q)):
            r.problems.append(('spot place', f'{x.name} is at {q} instead of {p} for {how}'))
    if a % 3 == b % 3:
        same_code(r, 'spot', A.instrument, want, how)
    r.outcome = text


def plain(o):
    for c in o['components']:
        for k in ('at', 'rot'):
            if c[k]:
                c[k] = [re.sub(r'\b(\d+)\.0\b', r'\1', x) if isinstance(x, str) else x for x in c[k]]
    return o


def numbers(e):
    from mccode_antlr.common import Expr
    from ..cexpr import parse as cparse, try_value
    return try_value(cparse(str(e)), dict(p=0.5, DEG2RAD=0.017453292519943295))


# ---- calls, allowed and refused

def _calls(args, r):
    """The model: components with values, parameters, variables; a refused call changes nothing"""
    from mccode_antlr.common import InstrumentParameter, Expr
    A = assembler()
    model = dict(comps={}, pars={}, user=[], meta={}, declare=0)
    trail = []
    for k in args[0]:
        call = CALLS[k]
        trail.append(call)
        before = c05.observe(A.instrument)
        ok = True

        def it():
            return A.instrument.get_component('x')
        word = call.split()[0]
        if call in ('a', 'a again'):
            ok = 'x' not in model['comps']

            def act():
                A.component('x', 'Par', at=(0, 0, 0), parameters={'a': 1 if call == 'a' else 2})
            if ok:
                model['comps']['x'] = {'a': '1' if call == 'a' else '2'}
        elif word == 'b':
            ok = call == 'b at a' and 'x' in model['comps'] and 'y' not in model['comps']

            def act():
                A.component('y', 'None' if call == 'b no type' else 'Dep' if call == 'b at a' else 'Par', at=((0, 0, 1) if call != 'b bad place' else (0, 1), 'x' if call != 'b no ref' else 'z'),
                            parameters={'w' if call == 'b at a' else 'nope': 5} if call in ('b at a', 'b bad value') else None)
            if ok:
                model['comps']['y'] = {'w': '5'}
        elif word == 'par':
            ok = 'p' not in model['pars'] or call == 'par p ignore'

            def act():
                A.parameter('p = 1' if call == 'par p' else 'double p = 2', ignore_repeated=call == 'par p ignore')
            if ok:
                model['pars'].setdefault('p', '1' if call == 'par p' else '2')
        elif word == 'set':
            ok = 'x' in model['comps'] and call != 'set a unknown'
            value = {'set a': 7, 'set a again': 8, 'set a over': 9}.get(call)

            def act():
                it().set_parameter('a' if value else 'zz', value or 3, overwrite=call == 'set a over')
            if ok:
                if call == 'set a over' or 'a' not in model['comps']['x']:
                    model['comps']['x']['a'] = str(value)
        elif word in ('user', 'ensure'):
            name = call.split()[1]
            line = {'u': 'double u;', 'u2': 'double u2;', 'w': 'int w;'}[name]

            def act():
                (A.user_vars if word == 'user' else A.ensure_user_var)(line)
            if word == 'user' or line not in model['user']:
                model['user'].append(line)
        elif call == 'declare':
            def act():
                A.declare('int d;')
            model['declare'] += 1
        elif call == 'when const':
            ok = False

            def act():
                it().WHEN('1')
        else:
            def act():
                A.metadata('m', 'text/plain', call)
            model['meta']['m'] = call
        r.transitions += 1
        try:
            with cgen.quiet():
                act()
            done = True
        except Exception as e:
            done = False
            if ok:
                r.problems.append((f'calls:{type(e).__name__}', f'{call} raised {e!r} after {trail[:-1]}'))
                return
        if done and not ok:
            r.problems.append((f'calls accepted:{call}', f'{call} was accepted after {trail[:-1]}'))
            return
        now = c05.observe(A.instrument)
        if not ok:
            same(r, f'refused {call}', dict(before), dict(now), f'a refused {call} after {trail[:-1]} changed the instrument')
            if r.problems:
                return
        got = dict(comps={c['name']: c['values'] for c in now['components']}, pars={p[0]: p[3] for p in now['params']}, user=[x for x in now['user'].split('\n') if x],
                   meta={m[1]: m[2] for m in now['meta']}, declare=now['declare'].count('int d;'))
        if got != model:
            r.problems.append((f'calls:{call}', f'{got} instead of {model} after {trail}'))
            return
    for c in A.instrument.components:
        names = [p.name for p in c.parameters]
        if len(names) != len(set(names)):
            r.problems.append(('calls repeated', f'{names} of {c.name} after {trail}'))
            return
    r.states = len(trail)
    again = parsed(str(A.instrument))
    r.transitions += 1
    same(r, 'calls printed', plain(c05.observe(A.instrument)), plain(c05.observe(again)), f'{trail}')
    r.outcome = str(A.instrument)[-200:]
