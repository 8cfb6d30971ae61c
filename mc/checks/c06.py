"""C06: an object saved to HDF5 and loaded again is the same object, for every instrument, expression and history of saves."""
import itertools, re
from ..base import Result
from .. import cgen, env
from . import c05, c02

PID = 'C06'
LEVEL = 'model_checking'
ASSUMPTIONS = ['two instruments are the same when their content, printed text, component definitions and generated C are the same (up to the date)',
               'two expressions are the same when they print the same text, in C and in the instrument language, and have the same data type']
BOUND = ('the instrument descriptions of C05 (each feature value alone in two surroundings, pairs of features, triples of modifiers), each saved as read, '
         'and (single features) after translation, or loaded twice over; component definitions with every section; rotation parts in degrees and radian; every expression text of a menu; '
         'every history of up to 3 (thorough: 4) operations of save, load, edit, and translate over two instruments and two files')
CHUNK = 8
FULL = '''DEFINE COMPONENT %s
DEFINITION PARAMETERS (mode=1)
SETTING PARAMETERS (double w=1, int n=2, string s="def", vector v={1,2.5}, int *k={1,2}, q=2*3)
OUTPUT PARAMETERS (double o, hidden)
METADATA "text/plain" from %%{ of the definition
%%}
%s
SHARE %%{
  #ifndef SHARED_%s
  #define SHARED_%s 1
  int shared_%s(int a) { return a + 1; }
  #endif
%%}
USERVARS %%{ int flag_%s; %%}
DECLARE %%{
  double total;
  int table[3];
%%}
INITIALIZE %%{ total = w * 2; %%}
TRACE %%{ x += w; SCATTER; %%}
SAVE %%{ total += 1; %%}
FINALLY %%{ total = 0; %%}
MCDISPLAY %%{ magnify("x"); %%}
END
'''
FILES = dict(c05.FILES)
for name, extra in (('Full', ''), ('FullDep', 'DEPENDENCY "-lfull"'), ('FullCpu', 'NOACC')):
    FILES[name + '.comp'] = FULL % (name, extra, name, name, name, name)
FULLS = ['''DEFINE INSTRUMENT Name(double a=1, int n=2)
TRACE
COMPONENT one = %s(w=a) AT (0,0,a) ABSOLUTE ROTATED (a,30,0) ABSOLUTE GROUP g
COMPONENT two = %s(n=n, v={a,2,3}) AT (0,1,0) RELATIVE one GROUP g
METADATA "a/b" from %%{ of the instance %%}
COMPONENT three = COPY(two)(q=a*2) AT (a,0,0) RELATIVE PREVIOUS(2) ROTATED (0,a,0) RELATIVE two
END
''' % c for c in itertools.product(('Full', 'FullDep', 'FullCpu'), repeat=2)]
EXTRA = ['a', '1', '-1', '1.5', '"text"', '"a \\"quote\\""', 'a+b', 'a-b*c', '-(a+b)', '!a', 'a ? b : c', 'a == 1 ? b + 1 : -c', 'f(a, b)', 'f(a+1)', 'a[2]', 'a[b+1]',
         'a.b', 'a->b', 'a && b || c', 'a << 2', 'a ^ 2', 'a % 3', '1 + 2', '2*3.5', '1/3', 'a != b', '_particle->x', 'sin(cos(a))', '((a))', 'a >= b', '1e-300', '1e300',
         '123456789012', '"a" == s', 'PI', '3 - -4', 'a - (b - (c - 1))']
NEW = ['Expr.float("a")*2', 'Expr.int(3) + Expr.parse("a")', '-Expr.parse("a+1")', 'abs(Expr.parse("a - b"))', 'Expr.str("some")', 'Expr.str(None)', 'Expr.id("n") + 1',
       'Expr.id("x") * Expr.float(0.5)', 'Expr(Value([1.0, 2.0, 3.0], data_type=DataType.float, shape_type=ShapeType.vector))', 'Expr(Value("p", object_type=ObjectType.parameter))', 'Expr(Value("p", object_type=ObjectType.parameter))*2 + 1',
       'Expr(Value.array([1, 2, 3]))', 'Expr.array([Expr.parse("a+1"), 2, Expr.int(3)])', 'Expr.float(0)', 'Expr.int(0)', 'Expr.str("")', 'Expr.float(1e-300)', 'Expr.int(2**40)',
       'Expr(BinaryOp("==", Value.id("a"), Value.float(1)))', 'Expr.float(None)', 'Expr.int(None)', 'Expr.function("sin")', 'Expr.float("name")', 'Expr.int("name")', 'Expr(UnaryOp("sin", Value.id("a")))', 'Expr(TrinaryOp("__trinary__", Value.id("a"), Value.int(1), Value.int(0)))', 'Expr(Value.str("a \\n b"))']
LONG = '0123456789abcdef' * 4400
BIG = {
    'metadata': 'DEFINE INSTRUMENT Name(a=1)\nMETADATA "text/plain" "long" %{' + LONG + '%}\nTRACE\nCOMPONENT one = Gen() AT (0,0,0) ABSOLUTE\nMETADATA "text/plain" "long2" %{' + LONG + '\n%}\nEND\n',
    'block': 'DEFINE INSTRUMENT Name(a=1)\nINITIALIZE %{ /* ' + LONG + ' */ %}\nTRACE\nCOMPONENT one = Gen() AT (0,0,0) ABSOLUTE EXTEND %{ /* ' + LONG + ' */ %}\nEND\n',
    'string': 'DEFINE INSTRUMENT Name(string a="' + LONG + '")\nTRACE\nCOMPONENT one = Gen(s="' + LONG + '") AT (0,0,0) ABSOLUTE\nEND\n',
    'parameters': 'DEFINE INSTRUMENT Name(' + ', '.join(f'a{i}={i}' for i in range(101)) + ')\nTRACE\nCOMPONENT one = Gen(w=a99) AT (a10,a9,a100) ABSOLUTE\nEND\n',
    'components': 'DEFINE INSTRUMENT Name(a=1)\nTRACE\nCOMPONENT c0 = Gen() AT (0,0,0) ABSOLUTE\n' + '\n'.join(
        f'COMPONENT c{i} = Gen(w={i}) AT (0,0,{i}) RELATIVE c{i // 2}' for i in range(1, 12)) + '\nEND\n',
    'unicode': 'DEFINE INSTRUMENT Name(a=1)\nMETADATA "text/plain" "\u00e5ngstr\u00f6m" %{\u03b1\u03b2 \u2603%}\nINITIALIZE %{ printf("\u00b5"); %}\nTRACE\nCOMPONENT one = Gen(s="\u00b5m") AT (0,0,0) ABSOLUTE\nEND\n',
}
OPS = ['saveA', 'saveB', 'save other', 'load', 'edit', 'translate', 'save loaded']


def cases(tier):
    for c in c05.cases(tier):
        if tier != 'quick' or len(c[1]) == 1 or (len(c[1]) == 2 and all(i == c05.SMALL[f][0] for f, i in c[1].items())):
            yield ['instr', c]
    for i in range(len(FULLS)):
        for how in ('read', 'translated', 'twice'):
            yield ['full', i, how]
    for c in c05.cases('quick'):
        if len(c[1]) == 1:
            for how in ('translated', 'twice') if tier != 'quick' else ('translated' if c[0] == 'plain' else 'twice',):
                yield ['instr', c, how]
    for x in EXTRA:
        yield ['expr', x]
    for i in range(len(NEW)):
        yield ['new', i]
    for n in range(1, 4 if tier == 'quick' else 5):
        for h in itertools.product(range(len(OPS)), repeat=n):
            yield ['hist', list(h)]
    for which, degrees, v in itertools.product(('RotationX', 'RotationY', 'RotationZ'), (True, False), ('0', '30', '0.5', 'a', 'a + 1', '-a')):
        yield ['part', which, degrees, v]
    for kind in BIG:
        yield ['big', kind]
    for kind in ('memory', 'search', 'modes'):
        yield [kind]


def setup(tier):
    # every HDF5 group records the package version, which is slow to look up
    import functools, importlib.metadata as m
    if not hasattr(m.version, 'cache_info'):
        m.version = functools.lru_cache(None)(m.version)


def scrub(source):
    return re.sub(r'(?m)^\s*\* Date:.*$', '', source)


def comp_view(c):
    def blocks(bs):
        return [(b.source, b.line, b.filename) for b in bs]
    out = dict(name=c.name, category=c.category, dependency=c.dependency, acc=c.acc)
    for k in ('define', 'setting', 'output'):
        out[k] = [(p.name, expr_view(p.value)) for p in getattr(c, k)]
    for k in ('share', 'user', 'declare', 'initialize', 'trace', 'save', 'final', 'display'):
        out[k] = blocks(getattr(c, k))
    out['meta'] = [(m.source.name, m.source.type_name, m.name, m.mimetype, m.value) for m in c.metadata]
    return out


def expr_view(e):
    views = [str(e), repr(e)]
    for f in ('p', 'c'):
        try:
            views.append(format(e, f))
        except Exception as x:
            views.append(type(x).__name__)
    for f in ('is_id', 'is_parameter', 'is_str', 'is_scalar', 'is_vector', 'is_op', 'is_constant', 'has_value', 'is_singular', 'data_type', 'shape_type'):
        try:
            views.append((f, str(getattr(e, f))))
        except Exception as x:
            views.append((f, type(x).__name__))
    return views


def view(instr):
    out = dict(c05.observe(instr))
    out['text'] = str(instr)
    out['source'] = instr.source
    out['types'] = {c.name: comp_view(c) for c in instr.component_types()}
    out['metasource'] = [(m.source.name, m.source.type_name) for m in instr.metadata] + [(m.source.name, m.source.type_name) for c in instr.components for m in c.metadata]
    out['params*'] = [(p.name, p.unit, expr_view(p.value)) for p in instr.parameters]
    out['values*'] = [(p.name, expr_view(p.value)) for c in instr.components for p in c.parameters]
    out['where'] = [[str(x) for x in (*c.orientation.position(), *c.orientation.angles())] for c in instr.components]
    out['mode'] = [str(c.mode) for c in instr.components]
    out['registries'] = [(type(r).__name__, r.name) for r in instr.registries]
    out['included'] = list(instr.included)
    return out


def generated(instr):
    return scrub(cgen.translate(instr))


def compare(r, what, a, b):
    for k in a:
        if a[k] != b.get(k):
            d = c05.diff(a[k], b.get(k), k)
            r.problems.append((f'{what}:{k}', f'{d[0][0]}: was {d[0][1]!r}, is {d[0][2]!r}'[:700] if d else f'{a[k]!r} is {b.get(k)!r}'[:700]))


def path(i=0):
    import os
    return env.SCRATCH / 'work' / f'h{os.getpid()}-{i}.h5'


def trip(obj, i=0):
    from mccode_antlr.io import save_hdf5, load_hdf5
    with cgen.quiet():
        save_hdf5(obj, path(i))
        return load_hdf5(path(i))


def run_instr(r, text, how, regs):
    one = cgen.parse(text, regs)
    if how == 'translated':
        cgen.translate(one)
    was = view(one)
    two = trip(one)
    if how == 'twice':
        two = trip(two, 1)
    r.transitions += 2 if how != 'twice' else 4
    compare(r, 'loaded', was, view(two))
    compare(r, 'saving changed', was, view(one))
    if not r.problems:
        a, b = generated(one), generated(two)
        r.transitions += 2
        if a != b:
            la, lb = a.split('\n'), b.split('\n')
            k = next((i for i, (x, y) in enumerate(zip(la, lb)) if x != y), min(len(la), len(lb)))
            r.problems.append(('generated', f'generated line {k}: {la[k:k + 1]} became {lb[k:k + 1]}'))
    r.states = 2 + len(was['components'])
    r.outcome = was['text'][-300:]


def run_case(case):
    r = Result(states=1, transitions=0)
    kind = case[0]
    regs = [cgen.local('c06', FILES)]
    if kind == 'instr':
        run_instr(r, c05.render(c05.describe(case[1])), case[2] if len(case) > 2 else 'read', regs)
        r.nontrivial = bool(case[1][1])
    elif kind == 'full':
        run_instr(r, FULLS[case[1]], case[2], regs)
        r.nontrivial = True
    elif kind in ('expr', 'new'):
        import mccode_antlr.common.expression as E
        ns = dict(vars(E))
        if kind == 'expr':
            e = ns['Expr'].parse(case[1])
        else:
            try:
                e = eval(NEW[case[1]], ns)
            except (AttributeError, TypeError, ValueError) as x:
                # the public constructor does not exist (or refuses): nothing to save
                r.outcome = f'not built {NEW[case[1]]}: {type(x).__name__}'
                return r
        was = expr_view(e)
        two = trip(e)
        r.transitions += 2
        r.nontrivial = True
        if expr_view(two) != was:
            r.problems.append(('expr', f'{case[1]}: was {was}, loaded {expr_view(two)}'))
        if e != two and e == e:
            r.problems.append(('expr equal', f'{was[0]} is not equal to its loaded copy'))
        if expr_view(e) != was:
            r.problems.append(('expr changed', f'{was[0]} changed to {expr_view(e)}'))
        r.outcome = str(was[:2])
    elif kind == 'hist':
        run_history(r, case[1], regs)
    elif kind == 'memory':
        from mccode_antlr.reader.registry import InMemoryRegistry
        m = InMemoryRegistry('mem')
        for k, v in FILES.items():
            m.add(k, v)
        run_instr(r, FULLS[4], 'read', [m])
    elif kind == 'search':
        cgen.local('c06search', FILES)
        run_instr(r, FULLS[4].replace('TRACE', f'SEARCH "{env.SCRATCH}/registries/c06search"\nTRACE', 1), 'read', [])
    elif kind == 'big':
        run_instr(r, BIG[case[1]], 'read', regs)
        r.nontrivial = True
    elif kind == 'part':
        import mccode_antlr.instr.orientation as O
        from mccode_antlr.common import Expr
        _, which, degrees, v = case
        part = getattr(O, which)(v=Expr.parse(v), degrees=degrees)
        vec = O.Vector(Expr.parse('1'), Expr.parse('b'), Expr.parse('3'))
        ang = O.Angles(Expr.parse(v), Expr.parse('0'), Expr.parse('0'))
        orient = O.Orient.from_dependent_orientations(None, vec, None, ang)

        def see(p, o):
            return [[str(x) for x in (*p.position(), *p.angles(degrees=True), *p.angles(degrees=False), *p.seitz('axes'))], str(p),
                    [str(x) for x in (*o.position(), *o.angles())]]
        was, now = see(part, orient), see(trip(part), trip(orient, 1))
        r.transitions += 4
        r.nontrivial = True
        r.outcome = str(was)[:300]
        if was != now:
            r.problems.append((f'part:{which}', f'{which}({v}, degrees={degrees}) {was} is loaded as {now}'[:700]))
    elif kind == 'modes':
        from mccode_antlr.common import Mode
        one = cgen.parse(FULLS[0], regs)
        one.components[1].mode = Mode.minimal
        compare(r, 'mode', view(one), view(trip(one)))
    return r


TEXTS = {'A': c05.render(c05.describe(['rich', {}])), 'B': FULLS[0]}


def run_history(r, ops, regs):
    """Every operation has its effect on the model: the text which is expected in each file, and of each object"""
    from mccode_antlr.io import save_hdf5, load_hdf5
    objs = {k: cgen.parse(t, regs) for k, t in TEXTS.items()}
    files = {0: None, 1: None}
    loaded = None
    for i in (0, 1):
        path(i).unlink(missing_ok=True)
    edits = 0
    for o in ops:
        op = OPS[o]
        r.transitions += 1
        with cgen.quiet():
            if op in ('saveA', 'saveB'):
                save_hdf5(objs[op[-1]], path(0))
                files[0] = str(objs[op[-1]])
            elif op == 'save other':
                save_hdf5(objs['B'], path(1))
                files[1] = str(objs['B'])
            elif op == 'load':
                if files[0] is not None:
                    loaded = load_hdf5(path(0))
                    if str(loaded) != files[0]:
                        r.problems.append(('history', f'after {[OPS[x] for x in ops]} the file holds other content'))
            elif op == 'edit':
                from mccode_antlr.common import InstrumentParameter
                edits += 1
                target = loaded or objs['A']
                target.add_parameter(InstrumentParameter.parse(f'double extra{edits} = {edits}'))
                if loaded is not None and f'extra{edits}' in str(objs['A']) + str(objs['B']):
                    r.problems.append(('history', 'editing the loaded instrument changed the saved one'))
            elif op == 'translate':
                cgen.translate(loaded or objs['A'])
            elif op == 'save loaded' and loaded is not None:
                save_hdf5(loaded, path(0))
                files[0] = str(loaded)
        r.states += 1
    for i, t in files.items():
        if t is not None:
            with cgen.quiet():
                got = str(load_hdf5(path(i)))
            r.transitions += 1
            if got != t:
                r.problems.append(('history', f'after {[OPS[x] for x in ops]} file {i} holds other content'))
    r.nontrivial = any(f is not None for f in files.values())
    r.outcome = str(edits) + str([f is not None for f in files.values()])
