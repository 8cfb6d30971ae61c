"""C20: a component definition holds what its text says; a copied one also what it does not replace.

The model of a set of definition files is a dictionary of what each one states.  This module writes the texts, works out what every definition
holds (following COPY of definitions and sections) and compares with what the real reader gives, in every order of asking for them.
"""
import itertools, os
from ..base import Result
from .. import cgen
from . import c05, c19

PID = 'C20'
LEVEL = 'model_checking'
ASSUMPTIONS = ['blocks of code are compared up to leading and trailing blank lines; the order of parameters of copied definitions is not judged',
               'without a category in the text of a definition, or of the one it copies, the category is not judged',
               'MYSELF as a default, symbol parameters and definitions with syntax errors are not part of the menus']
BOUND = ('one definition: every value of every feature (parameters of every type and default, categories, metadata, dependency, NOACC, sections, case of the keywords) and all pairs of two features (thorough: triples); '
         'copies: all pairs of a feature of the original with one of the copy, all pairs of sections in all six ways of stating one, all subsets of replaced sections, '
         'all ways of three definitions to copy a section and each other, read in every order; generated programs with a copy and its original')
CHUNK = 16

SECTIONS = ['share', 'user', 'declare', 'initialize', 'trace', 'save', 'final', 'display']
KEYWORD = dict(share='SHARE', user='USERVARS', declare='DECLARE', initialize='INITIALIZE', trace='TRACE', save='SAVE', final='FINALLY', display='MCDISPLAY')
TYPES = ['', 'double ', 'int ', 'string ', 'char *', 'vector ', 'double *', 'int *']
DEFAULTS = {'': [None, '1', '-2.5e-3', '0', '2*(3 - 5)', 'PI/2', '1e12', '0.1'], 'double ': [None, '0', '1.5', 'sqrt(2)'], 'int ': [None, '0', '7', '-3', '1+2'],
            'string ': [None, '"text"', '""', 'NULL', '0', '"a, b)"', r'"q \"in\" q"'], 'char *': [None, '"t"', 'NULL', '0'],
            'vector ': [None, 'NULL', '0', 'ptr', '{1,2.5,-3}', '{1}'], 'double *': [None, 'NULL', '0', '{1e-3, 2*3}'], 'int *': [None, 'NULL', '0', '{4,-5,6}', 'ptr']}
PARAMS = [[]] + [[(t, 'p', d)] for t in TYPES for d in DEFAULTS[t]] + [[('', 'p', '1'), ('int ', 'q', None), ('string ', 's', '"x"'), ('vector ', 'v', '{1,2}')], [('', 'pp', '1'), ('', 'p', None), ('', 'ppp', '3')]]
OTHER = [[], [('', 'o', None)], [('', 'o', '1'), ('string ', 'o2', '"z"')]]
CATEGORY = [None, 'sources', '"optics"', '"two words/x"']
META = c05.META
DEP = [None, '-lm', '-I. -DX=1  -lfoo', r'-DY=\"z\"', '@NEXUSFLAGS@ CMD(echo a) -Wl,-rpath,GETPATH(x)', '']
BLOCK = [None, '\n  int a = 0;\n', ' double z; /* a " comment */ ', '\nchar *t = "%d } ";\n// line comment\n\n\nint k;\n', '\n#define X(y) \\\n  (y + 1)\n', '   \n', '']
FEATURES = dict(setting=PARAMS, definition=OTHER, output=OTHER + [[('', 'p', None)]], category=CATEGORY, meta=META, dep=DEP, noacc=[0, 1], case=[0, 1, 2], head=['', '/* a comment\n*/\n// SETTING PARAMETERS (x)\n\n'],
                **{s: BLOCK for s in SECTIONS})
SMALL = dict(FEATURES, setting=[[], [('', 'p', '1'), ('string ', 's', '"x"')], [('', 'p', None)], [('string ', 'p', '"other"')], [('int *', 'p', '{1,2}'), ('', 'r', '2')]], dep=DEP[:3], meta=META[:2] + META[4:6] + [[('text', 'one', 'again')]],
             case=[0], head=[''], **{s: BLOCK[:2] + ['', '\n  int b = 1;\n'] for s in SECTIONS})
KEYS = list(FEATURES)
DEFAULT = {k: v[0] for k, v in FEATURES.items()}
WAYS = ['-', 'n', 'e', 'cD', 'xD', 'xB']   # inherited, new, empty, copied from D, copied from D and extended, extended


def cases(tier):
    q = tier == 'quick'
    for k in KEYS:
        for i in range(len(FEATURES[k])):
            yield ['one', [[k, i]]]
    for a, b in itertools.combinations(KEYS, 2):
        m = SMALL if q or len(FEATURES[a]) * len(FEATURES[b]) > 200 else FEATURES
        for i in range(1, len(m[a])):
            for j in range(1, len(m[b])):
                yield ['one', [[a, FEATURES[a].index(m[a][i]) if m[a][i] in FEATURES[a] else i], [b, FEATURES[b].index(m[b][j]) if m[b][j] in FEATURES[b] else j]]]
    if not q:
        for abc in itertools.combinations(KEYS, 3):
            for ijk in itertools.product(*([FEATURES[k].index(x) for x in SMALL[k][1:3] if x in FEATURES[k]] for k in abc)):
                yield ['one', [[k, i] for k, i in zip(abc, ijk)]]
    for a in KEYS:
        for b in KEYS:
            for i in range(len(SMALL[a])):
                for j in range(len(SMALL[b])):
                    yield ['copy', [[a, i]], [[b, j]]]
    if not q:
        for a, b in itertools.combinations(KEYS, 2):
            for i, j in itertools.product((0, 1), repeat=2):
                for k, l in itertools.product(range(min(3, len(SMALL[a]))), range(min(3, len(SMALL[b])))):
                    yield ['copy', [[a, min(i, len(SMALL[a]) - 1)], [b, min(j, len(SMALL[b]) - 1)]], [[a, k], [b, l]]]
    for a, b in itertools.combinations(SECTIONS, 2):
        for wa, wb in itertools.product(WAYS, repeat=2):
            for rest in ('-', 'n') if q else WAYS:
                for have in ((1, 1), (1, 0), (0, 1)):
                    if not ('user' in (a, b) and ('c' in wa + wb or 'x' in wa + wb)):
                        yield ['ways', {a: wa, b: wb}, rest, list(have)]
    for n in range(len(SECTIONS) + 1):
        for s in itertools.combinations(SECTIONS, n):
            for w in ('n', 'e') if q else WAYS[1:]:
                yield ['ways', {k: w for k in s if k != 'user' or w in 'ne'}, '-', [1, 1]]
    for s in SECTIONS:
        for graph in itertools.product(['', 'D', 'E'], ['', 'B', 'D', 'E'], ['', 'E']):
            chain = itertools.product(['-', 'n', 'e', 'cD', 'xD', 'cE', 'xE'], ['-', 'n', 'cB', 'xB', 'cD', 'xD', 'cE'], ['n', '-', 'xE'])
            for b, a, d in chain:
                if s == 'user' and any(x[0] in 'cx' for x in (a, b, d)):
                    continue
                if q and s not in ('trace', 'user') and (any(graph[2 if s == 'share' else 0:]) or d != 'n'):
                    continue
                yield ['chain', s, list(graph), [b, a, d], int(not q or (s == 'trace' and graph == ('D', 'B', 'E') and b != '-' and a != '-'))]
    for s in SECTIONS:
        for w in WAYS:
            for copies in ([], ['B']):
                for order in ('AB', 'BA', 'ABA', 'A'):
                    if not (s == 'user' and w[0] in 'cx'):
                        yield ['run', s, w, copies, order]
    for w in WAYS:
        for order in ('AB', 'BA', 'AB', 'BDA'):
            yield ['run', 'all', w, ['B'], order]
    for k in range(len(REFUSED)):
        yield ['refuse', k]


# ---- the model

def definition(name, features, copy=None):
    d = dict(DEFAULT, name=name, copy=copy)
    d.update(features)
    return d


def text(d):
    case = [str.upper, str.capitalize, str.lower][d['case']]
    K = lambda w: ' '.join(case(x) for x in w.split())

    def pars(ps):
        return '(' + ', '.join(f'{t}{n}' + ('' if v is None else f'={v}') for t, n, v in ps) + ')'
    out = d['head'] + f'{K("DEFINE COMPONENT")} {d["name"]}' + (f' {K("COPY")} {d["copy"]}' if d['copy'] else '') + '\n'
    for k, w in (('definition', 'DEFINITION PARAMETERS'), ('setting', 'SETTING PARAMETERS'), ('output', 'OUTPUT PARAMETERS')):
        if d[k]:
            out += f'{K(w)} {pars(d[k])}\n'
    if d['category'] is not None:
        out += f'{K("CATEGORY")} {d["category"]}\n'
    out += ''.join(f'{K("METADATA")} {m} {n} %{{{v}%}}\n' for m, n, v in d['meta'])
    if d['dep'] is not None:
        out += f'{K("DEPENDENCY")} "{d["dep"]}"\n'
    if d['noacc']:
        out += 'NOACC\n'
    for s in SECTIONS:
        v, w = d[s], K(KEYWORD[s])
        if isinstance(v, (list, tuple)):
            out += f'{w} {K("COPY")} {v[0]}' + (f' {K("EXTEND")}\n%{{{v[1]}%}}\n' if len(v) > 1 else '\n')
        elif v is not None:
            out += f'{w}\n%{{{v}%}}\n'
    return out + K('END') + '\n'


NAMES = dict(zip(TYPES, ['double', 'double', 'int', 'string', 'string', 'double*', 'double*', 'int*']))


def value(t, v):
    if v is None:
        return None
    if v == 'NULL' or (v == '0' and NAMES[t] not in ('double', 'int')):
        return 'NULL'
    return v if v.startswith(('"', '{')) or v == 'ptr' else ('expr', v)


def holds(name, defs):
    """What the named definition holds: parameters, category, metadata, flags of all read, sections"""
    d = defs[name]
    if d['copy']:
        out = holds(d['copy'], defs)
        out.update(name=name, meta=[(name, *m[1:]) for m in out['meta']])
    else:
        out = dict(name=name, definition={}, setting={}, output={}, category=None, meta=[], noacc=0, **{s: [] for s in SECTIONS})
    for k in ('definition', 'setting', 'output'):
        for t, n, v in d[k]:
            if k != 'output':
                for other in ('definition', 'setting'):
                    out[other].pop(n, None)
            out[k][n] = (NAMES[t], value(t, v))
    if d['category'] is not None:
        out['category'] = c05.unq(d['category'])
    for m, n, v in d['meta']:
        n = c05.unq(n)
        out['meta'] = [x for x in out['meta'] if x[1] != n] + [(name, n, c05.unq(m), v)]
    out['noacc'] |= d['noacc']
    at = places(d)
    for s in SECTIONS:
        v = d[s]
        if isinstance(v, (list, tuple)):
            out[s] = list(holds(v[0], defs)[s])
            if len(v) > 1:
                out[s] += part(name, v[1], at[s])
        elif v is not None:
            out[s] = part(name, v, at[s])
    return out


def part(name, v, line):
    return [(f'{name}.comp', line, c05.block(v))] if v.strip() else []


def places(d):
    """The lines at which the blocks of the sections start"""
    out, lines = {}, text(d).split('\n')
    for i, l in enumerate(lines):
        w = l.split()
        if l.startswith('%{'):
            last = lines[i - 1].split()[0].upper()
            out.update({s: i + 1 for s in SECTIONS if KEYWORD[s] == last})
    return out


def flags(name, defs):
    """All flags which come with the use of a definition"""
    d = defs[name]
    out = set() if d['dep'] is None else {' '.join(d['dep'].split())}
    for other in [d['copy']] + [d[s][0] for s in SECTIONS if isinstance(d[s], (list, tuple))]:
        if other:
            out |= flags(other, defs)
    return out - {''}


def closure(name, defs):
    d = defs[name]
    return {name}.union(*(closure(x, defs) for x in [d['copy']] + [d[s][0] for s in SECTIONS if isinstance(d[s], (list, tuple))] if x))


def seen(comp):
    from mccode_antlr.common import DataType
    names = {DataType.float: 'double', DataType.int: 'int', DataType.str: 'string'}

    def pars(ps):
        out = {}
        for p in ps:
            assert p.name not in out, f'two parameters {p.name}'
            v = p.value
            out[p.name] = (names.get(v.data_type, str(v.data_type)) + ('*' if v.is_vector else ''), None if str(v) == 'None' else str(v))
        return out
    out = dict(name=comp.name, definition=pars(comp.define), setting=pars(comp.setting), output=pars(comp.output), category=comp.category,
               meta=[(m.source.name, c05.unq(m.name), m.mimetype, m.value) for m in comp.metadata], noacc=int(not comp.acc))
    for s in SECTIONS:
        out[s] = [(os.path.basename(b.filename), b.line, c05.block(b.source)) for b in getattr(comp, s)]
    return out


def registry(defs):
    return cgen.local(f'c20-{os.getpid()}', {f'{n}.comp': text(d) for n, d in defs.items()})


def compare(r, key, defs, order, used=None):
    from mccode_antlr.reader import Reader
    reg = registry(defs)
    with cgen.quiet():
        reader = Reader(registries=[reg])
        for _ in range(2):
            for n in order:
                comp = reader.get_component(n)
                want, got = holds(n, defs), seen(comp)
                r.transitions += 1
                if want['category'] is None:
                    want['category'] = got['category']
                for p, w, g in c05.diff(want, got):
                    r.problems.append((f'{key}:{c05.field(p)}', f'{n}{p}: should be {w!r}, is {g!r} for\n' + '\n'.join(text(d) for d in defs.values())))
                if not defs[n]['copy'] and [x.name for x in comp.setting] != [x[1] for x in defs[n]['setting']]:
                    r.problems.append((f'{key}:order', f'parameters are {[x.name for x in comp.setting]} for\n{text(defs[n])}'))
        want = set().union(*(flags(n, defs) for n in order))
        got = {' '.join(f.split()) for f in reader.c_flags} - {''}
        if want != got:
            r.problems.append((f'{key}:flags', f'flags should be {sorted(want)}, are {sorted(got)} for\n' + '\n'.join(text(d) for d in defs.values())))
        if set(reader.components) != set().union(*(closure(n, defs) for n in order)):
            r.problems.append((f'{key}:known', f'known are {sorted(reader.components)} after {order}'))
    r.states = len(defs)
    r.outcome = str((got, seen(comp)))[-400:]


def run_case(case):
    r = Result(states=1, transitions=0)
    globals()['_' + case[0]](case[1:], r)
    return r


def _one(args, r):
    defs = dict(A=definition('A', {k: FEATURES[k][i] for k, i in args[0]}))
    if clash(defs):
        r.transitions = 1
        return
    compare(r, 'one', defs, ['A'])
    r.nontrivial = any(i for k, i in args[0])


def clash(defs):
    """Parameters given twice are another family"""
    for d in defs.values():
        own = [n for k in ('definition', 'setting') for t, n, v in d[k]]
        if len(own) != len(set(own)):
            return True
        if d['copy'] and any(n in {x[1] for x in defs[d['copy']]['output']} for n in own):
            return True
    return False


def _copy(args, r):
    base = dict(setting=[('', 'p', '5'), ('int ', 'q', '6')], meta=[('text', 'one', 'of B'), ('text', 'three', 'B')], dep='-lB', **{s: f'\n  int {s}_B;\n' for s in SECTIONS})
    b = dict(base, **{k: SMALL[k][i] for k, i in args[0]})
    defs = dict(B=definition('B', b), A=definition('A', {k: SMALL[k][i] for k, i in args[1]}, copy='B'))
    if clash(defs):
        r.transitions = 1
        return
    for order in ('AB', 'BA'):
        compare(r, f'copy {order}', defs, list(order))


def stated(w, name, s):
    new = f'\n  int {s}_{name};\n'
    return {'-': None, 'n': new, 'e': ' \n', 'c': (w[1:],), 'x': (w[1:], new)}[w[0]]


def family(ways, rest, have):
    B = {s: stated('n', 'B', s) for s in SECTIONS} if have[0] else {}
    D = {s: stated('n', 'D', s) for s in SECTIONS} if have[1] else {}
    ways = {s: ways.get(s, rest if s != 'user' or rest[0] in '-ne' else '-') for s in SECTIONS}
    return dict(D=definition('D', dict(D, dep='-lD')), B=definition('B', dict(B, dep='-lB')), A=definition('A', {s: stated(w, 'A', s) for s, w in ways.items()}, copy='B'))


def _ways(args, r):
    defs = family(*args)
    compare(r, 'ways', defs, ['A', 'D', 'B'])
    if r.problems or args[2] != [1, 1]:
        return
    # the same as the definition which is written out
    single(r, defs)


def single(r, defs):
    h = holds('A', defs)
    flat = definition('A', {s: ''.join('\n' + b[2] + '\n' for b in h[s]) for s in SECTIONS})
    code = []
    for ds in (defs, dict(A=flat)):
        code.append(cgen.parse(INSTR % 'COMPONENT one = A() AT (0,0,0) ABSOLUTE', [registry(ds)]))
    c19.same_code(r, 'written out', *code, '\n'.join(text(d) for d in defs.values()))
    registry(defs)


INSTR = 'DEFINE INSTRUMENT inst()\nTRACE\n%s\nEND\n'


def _chain(args, r):
    s, (cb, ca, cd), (b, a, d), every = args
    defs = dict(E=definition('E', {s: f'\n  int {s}_E;\n', 'dep': '-lE', 'setting': [('', 'p', '4')]}),
                D=definition('D', {s: stated(d, 'D', s), 'meta': [('text', 'm', 'D')]}, copy=cd or None),
                B=definition('B', {s: stated(b, 'B', s), 'setting': [('int ', 'p', '2')]}, copy=cb or None),
                A=definition('A', {s: stated(a, 'A', s), 'meta': [('text', 'm', 'A')]}, copy=ca or None))
    for order in itertools.permutations('ABDE') if every else (('A', 'B', 'D', 'E'), ('E', 'D', 'B', 'A')):
        compare(r, 'chain', defs, list(order))
        if r.problems:
            return


CODE = dict(share='static int share_{0}(int i) {{ return i + 1; }}', user='int user_{0};', declare='int declare_{0};', initialize='printf("initialize {0}\\n");', trace='printf("trace {0}\\n");',
            save='printf("save {0}\\n");', final='printf("final {0}\\n");', display='line(0, 0, 0, 1, 1, {0}_display);')


def _run(args, r):
    """The program of an instrument with copies and originals does what each of them says"""
    s, w, copies, order = args
    own = {k: '\n  ' + CODE[k].format('B') + '\n' for k in SECTIONS if k != 'display'}
    other = {k: '\n  ' + CODE[k].format('D') + '\n' for k in SECTIONS if k != 'display'}
    sections = [s] if s != 'all' else SECTIONS

    def how(k):
        if k == 'display':
            return None
        v = w if k != 'user' or w[0] not in 'cx' else 'n'
        new = '\n  ' + CODE[k].format('A') + '\n'
        return {'-': None, 'n': new, 'e': '\n', 'c': (v[1:],), 'x': (v[1:], new)}[v[0]]
    defs = dict(D=definition('D', other), B=definition('B', own), A=definition('A', {k: how(k) for k in sections}, copy='B' if copies else None))
    instr = cgen.parse(INSTR % '\n'.join(f'COMPONENT c{i} = {n}() AT (0,0,{i}) ABSOLUTE' for i, n in enumerate(order)), [registry(defs)])
    r.transitions += 1
    code = cgen.translate(instr)
    label = '\n'.join(text(d) for d in defs.values())
    try:
        exe = cgen.build(code)
    except cgen.CompileError as e:
        r.problems.append(('run:compile', f'{e} for {order} of\n{label}'))
        return
    rc, out = cgen.execute(exe, 1)
    got = [l for l in out.split('\n') if l.split(' ')[0] in SECTIONS]
    want = []
    for k in ('initialize', 'trace', 'save', 'final'):
        for n in order:
            for _, _, t in holds(n, defs)[k]:
                want += [x.split('"')[1][:-2] for x in t.split('\n')]
    if rc != 0 or got != want:
        r.problems.append(('run:output', f'program of {order} returned {rc} and printed {got} instead of {want} for\n{label}'))
    r.outcome = str(got)


P = ('', 'p', '1')
REFUSED = [({'A': ('DEFINE COMPONENT A\nSETTING PARAMETERS (p=1, p=2)\nEND\n')}, 'A'), ({'A': 'DEFINE COMPONENT A\nDEFINITION PARAMETERS (p)\nSETTING PARAMETERS (int p=2)\nEND\n'}, 'A'),
           ({'A': 'DEFINE COMPONENT A\nOUTPUT PARAMETERS (p, q, p)\nEND\n'}, 'A'), ({'A': 'DEFINE COMPONENT A COPY Unknown\nEND\n'}, 'A'),
           *[({'A': f'DEFINE COMPONENT A\n{k} COPY Unknown\nEND\n'}, 'A') for s, k in KEYWORD.items() if s != 'user'],
           *[({'A': f'DEFINE COMPONENT A\n{k} COPY B EXTEND\n%{{ %}}\nEND\n', 'Bb': 'DEFINE COMPONENT Bb\nEND\n'}, 'A') for s, k in KEYWORD.items() if s != 'user'],
           ({'B': 'DEFINE COMPONENT B\nSETTING PARAMETERS (p=1)\nEND\n', 'A': 'DEFINE COMPONENT A COPY B\nSETTING PARAMETERS (p=2, p=3)\nEND\n'}, 'A'),
           ({'B': 'DEFINE COMPONENT B\nOUTPUT PARAMETERS (o)\nEND\n', 'A': 'DEFINE COMPONENT A COPY B\nOUTPUT PARAMETERS (o, o)\nEND\n'}, 'A'),
           ({'B': 'DEFINE COMPONENT B\nSETTING PARAMETERS (p=1)\nEND\n', 'A': 'DEFINE COMPONENT A COPY B\nDEFINITION PARAMETERS (p)\nSETTING PARAMETERS (p=3)\nEND\n'}, 'A'),
           ({'B': 'DEFINE COMPONENT B\nEND\n'}, 'A')]


def _refuse(args, r):
    from mccode_antlr.reader import Reader
    from mccode_antlr.reader.registry import InMemoryRegistry
    files, name = REFUSED[args[0]]
    reg = InMemoryRegistry('c20')
    for n, t in files.items():
        reg.add(f'{n}.comp', t)
    for _ in range(2):
        r.transitions += 1
        with cgen.quiet():
            reader = Reader(registries=[reg])
            try:
                c = reader.get_component(name)
                r.problems.append(('refuse:taken', f'{c} was read from {files}'))
            except Exception:
                if name in reader.components:
                    r.problems.append(('refuse:known', f'the refused definition is known for {files}'))
    r.outcome = args[0]
