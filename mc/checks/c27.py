"""C27: the code of every section runs once per component, in order and at its time.

Each enumerated instrument is translated, compiled and run; every block prints where and when it runs, for which component, and the whole output is
compared with the one the sections prescribe.
"""
import ast, itertools
from ..base import Result
from .. import cgen

PID = 'C27'
LEVEL = 'model_checking'
ASSUMPTIONS = ['the runtime library is a stand-in which calls init, the tracing of events and finally, like the real one',
               'save writes instrument code before that of components, as the translator of McStas 3 does']
BOUND = ('components of all 64 subsets of sections, in two orders, for all subsets of instrument sections, 0 to 2 events, with display or not, saving once more or not; every sequence of up to three components of 6 kinds '
         '(thorough: four); sections of one to three blocks, copied, extended and replaced in all ways, together with their origin; distances and positions in all sections; NeXus records of all parameter kinds; both flavors')
CHUNK = 4

SECTIONS = ['INITIALIZE', 'TRACE', 'SAVE', 'FINALLY', 'MCDISPLAY']
KINDS = {'All': SECTIONS, 'Nothing': [], 'Tracer': ['TRACE'], 'Init': ['INITIALIZE', 'FINALLY'], 'Monitor': ['TRACE', 'SAVE'], 'Show': ['MCDISPLAY', 'INITIALIZE']}
WAYS = ['inherit', 'replace', 'extend', 'copy', 'copyextend']



def cases(tier):
    q = tier == 'quick'
    for mcstas in (1, 0):
        for own in itertools.product((0, 1), repeat=3):
            for reverse in (0, 1):
                yield ['subsets', mcstas, list(own), reverse]
    for n in range(1, 4 if q else 5):
        for seq in itertools.product(sorted(KINDS), repeat=n):
            yield ['sequence', len(seq) % 2, list(seq)]
    for sec in SECTIONS:
        for way in itertools.product(WAYS, repeat=2):
            for blocks in (1, 2):
                yield ['blocks', sec, list(way), blocks]
    for sec in ('INITIALIZE', 'TRACE', 'SAVE', 'FINALLY', 'MCDISPLAY'):
        for k in range(4):
            yield ['places', sec, k]
    for i in range(4):
        yield ['distance', i]
    for k in range(len(NEXUS)):
        yield ['nexus', k]


def body(sec, tag='0'):
    return f'printf("{sec} %s %ld %s {tag}\\n", _comp->_name, _comp->_index, _comp->_type);'


def definition(name, sections, base=None, tag='0'):
    return f'DEFINE COMPONENT {name}{" COPY " + base if base else ""}\n' + ''.join(
        f'{s} %{{\n  {body(s, tag)}\n%}}\n' for s in SECTIONS if s in sections) + 'END\n'


def instrument(comps, own=(), head=''):
    """comps: (name, type, parameters)"""
    text = f'DEFINE INSTRUMENT parts(int a=1)\n{head}'
    if 'INITIALIZE' in own:
        text += 'INITIALIZE %{ printf("instrument INITIALIZE %d\\n", a); %}\n'
    text += 'TRACE\n' + ''.join(f'COMPONENT {n} = {t}({p}) AT (0, 0, {i}) ABSOLUTE\n' for i, (n, t, p) in enumerate(comps))
    for s in ('SAVE', 'FINALLY'):
        if s in own:
            text += f'{s} %{{ printf("instrument {s} %d\\n", a); %}}\n'
    return text + 'END\n'


def expected(comps, has, own, events, trace, twice, tags):
    """comps: (name, type); has(type, section) -> tags printed by the section"""
    def each(sec):
        return [f'{sec} {n} {i} {t} {tag}' for i, (n, t) in enumerate(comps, 1) for tag in has(t, sec)]

    def code(sec):
        return [f'instrument {sec} 5'] if sec in own else []

    def save():
        return code('SAVE') + each('SAVE')
    out = code('INITIALIZE') + each('INITIALIZE')
    if trace:
        out += ['MCDISPLAY: start']
        for i, (n, t) in enumerate(comps, 1):
            out += [f'MCDISPLAY: component {n}'] + [f'MCDISPLAY {n} {i} {t} {tag}' for tag in has(t, 'MCDISPLAY')]
        out += ['MCDISPLAY: end']
    for _ in range(events):
        out += each('TRACE')
    if twice:
        out += ['open'] + save() + ['close']
    return out + ['open'] + save() + code('FINALLY') + each('FINALLY') + ['close']




def program(instr, mcstas, trace, twice):
    """The generated program, whose runtime logs the opening and closing of results, and saves once more before its end when asked to"""
    source = cgen.translate(instr, bool(mcstas))
    for old, new in (('int siminfo_init(FILE *f) { return 0; }', 'int siminfo_init(FILE *f) { printf("open\\n"); siminfo_file = stdout; return 0; }'),
                     ('void siminfo_close(void) {}', 'void siminfo_close(void) { printf("close\\n"); siminfo_file = NULL; }'),
                     ('  finally();\n', '#ifdef TWICE\n  save(NULL);\n#endif\n  finally();\n')):
        assert old in source
        source = source.replace(old, new)
    return cgen.build(source, [f'-DDOTRACE={trace}'] + (['-DTWICE'] if twice else []))


def clean(out):
    return [' '.join(x.split()) for x in out.split('\n') if x.strip() and not x.startswith('***')]


def compare(instr, mcstas, comps, has, own, runs, r, shown):
    """runs: (events, trace, twice)"""
    for trace, twice in sorted({(t, w) for _, t, w in runs}):
        try:
            exe = program(instr, mcstas, trace, twice)
        except cgen.CompileError as e:
            r.problems.append(('compile', f'{e} for {shown}'))
            return
        try:
            for events in sorted({e for e, t, w in runs if (t, w) == (trace, twice)}):
                code, out = cgen.execute(exe, events, ['a=5'], keep=True)
                r.traces += 1
                got = clean(out)
                want = expected(comps, has, own, events, trace, twice, None)
                r.states += len(got)
                r.transitions += len(want)
                if code != 0:
                    r.problems.append(('run', f'ended with {code} for {shown}'))
                elif got != want:
                    i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
                    r.problems.append(('order', f'line {i} is {got[i:i + 3]} instead of {want[i:i + 3]} with {events} events, display {trace}, saving twice {twice}, for {shown}'))
                r.outcome = want[:20] + [len(want)]
        finally:
            exe.unlink()


ALL_RUNS = [(e, t, w) for e in (0, 1, 2) for t in (0, 1) for w in (0, 1)]


def run_case(case):
    r = Result(states=0, transitions=0, traces=0)
    globals()['_' + case[0]](case[1:], r)
    return r


def _subsets(args, r):
    mcstas, own, reverse = args
    own = [s for s, w in zip(('INITIALIZE', 'SAVE', 'FINALLY'), own) if w]
    types = {}
    for mask in range(32):
        types[f'T{mask}'] = [s for i, s in enumerate(SECTIONS) if mask >> i & 1]
    files = {f'{n}.comp': definition(n, s) for n, s in types.items()}
    reg = cgen.local('c27-subsets', files)
    order = sorted(types, key=lambda n: int(n[1:]) * 13 % 32)
    comps = [(f'c{i}', t) for i, t in enumerate(order + order[::-3])]
    if reverse:
        comps = comps[::-1]
    instr = cgen.parse(instrument([(n, t, '') for n, t in comps], own), [reg])
    compare(instr, mcstas, comps, lambda t, s: ['0'] if s in types[t] else [], own, ALL_RUNS if mcstas else ALL_RUNS[:2] + ALL_RUNS[-2:], r, f'all subsets, instrument {own}')


def _sequence(args, r):
    mcstas, seq = args
    reg = cgen.local('c27-sequence', {f'{n}.comp': definition(n, s) for n, s in KINDS.items()})
    comps = [('abc'[0] * (i + 1), t) for i, t in enumerate(seq)]
    text = instrument([(n, t, '') for n, t in comps], ['SAVE'] if len(seq) == 2 else [])
    compare(cgen.parse(text, [reg]), mcstas, comps, lambda t, s: ['0'] if s in KINDS[t] else [], ['SAVE'] if len(seq) == 2 else [], [(2, 1, 0)], r, text)


def _blocks(args, r):
    """A definition, a copy of it, and a copy of the copy, all in one instrument"""
    sec, ways, blocks = args
    tags = {'A': [f'A{k}' for k in range(blocks)]}
    first = f'{sec} %{{ {body(sec, "A0")} %}}\n' if blocks == 1 else None
    files = {}
    if blocks == 1:
        files['A.comp'] = f'DEFINE COMPONENT A\n{first}END\n'
    else:
        files['Z.comp'] = f'DEFINE COMPONENT Z\n{sec} %{{ {body(sec, "A0")} %}}\nEND\n'
        files['A.comp'] = f'DEFINE COMPONENT A COPY Z\n{sec} COPY Z EXTEND %{{ {body(sec, "A1")} %}}\nEND\n'
    previous = 'A'
    for name, way in zip('BC', ways):
        own = body(sec, name)
        files[f'{name}.comp'] = f'DEFINE COMPONENT {name} COPY {previous}\n' + {
            'inherit': '', 'replace': f'{sec} %{{ {own} %}}\n', 'extend': f'{sec} COPY {previous} EXTEND %{{ {own} %}}\n', 'copy': f'{sec} COPY A\n',
            'copyextend': f'{sec} COPY A EXTEND %{{ {own} %}}\n'}[way] + 'END\n'
        tags[name] = {'inherit': tags[previous], 'replace': [name], 'extend': tags[previous] + [name], 'copy': tags['A'], 'copyextend': tags['A'] + [name]}[way]
        previous = name
    reg = cgen.local(f'c27-blocks-{sec}-{"-".join(ways)}-{blocks}', files)
    comps = [('one', 'C'), ('two', 'A'), ('three', 'B'), ('four', 'C'), ('five', 'B')]
    instr = cgen.parse(instrument([(n, t, '') for n, t in comps]), [reg])
    compare(instr, 1, comps, lambda t, s: tags[t] if s == sec else [], [], [(1, 1, 0)], r, files)


def _places(args, r):
    """The absolute position of each component, and its own parameters, are known in all of its sections; variables of one do not show in another"""
    sec, k = args
    code = (f'double p1, p2, p3, q1, q2, q3; coords_get(instrument->_position_absolute[_comp->_index], &p1, &p2, &p3); coords_get(_comp->_position_absolute, &q1, &q2, &q3); '
            f'mine += step; printf("AT %s %g %g {sec} %d %d %g %s\\n", _comp->_name, p3, q3, step, mine, list[1], word);')
    files = {'P.comp': f'DEFINE COMPONENT P\nSETTING PARAMETERS (int step=1, vector list={{1,2}}, string word="w")\nDECLARE %{{ int mine; %}}\n{sec} %{{ {code} %}}\nEND\n',
             'Q.comp': f'DEFINE COMPONENT Q\nSETTING PARAMETERS (int mine=100, double word=4, step=0.5)\nDECLARE %{{ double list; %}}\n{sec} %{{ list += word; printf("Q %s %d %g %g %g\\n", _comp->_name, mine, word, step, list); %}}\nEND\n'}
    reg = cgen.local(f'c27-places-{sec}', files)
    order = [('p1', 'P', 'step=2'), ('q1', 'Q', ''), ('p2', 'P', 'list={5,6}, word="x y"'), ('q2', 'Q', 'word=7, mine=-1')]
    order = order[k:] + order[:k]
    text = instrument(order)
    exe = program(cgen.parse(text, [reg]), 1, 1, 0)
    code, out = cgen.execute(exe, 3, ['a=5'])
    want = []
    times = 3 if sec == 'TRACE' else 1
    for n in range(1, times + 1):
        for i, (name, typ, par) in enumerate(order):
            # TRACE has the coordinates as macros of the particle, and the positions all the same
            if typ == 'P':
                step = 2 if name == 'p1' else 1
                want.append(f'AT {name} {i} {i} {sec} {step} {n * step} {6 if name == "p2" else 2} {"x y" if name == "p2" else "w"}')
            else:
                word, mine = (7, -1) if name == 'q2' else (4, 100)
                want.append(f'Q {name} {mine} {word} 0.5 {n * word}')
    got = [x for x in clean(out) if x.startswith(('AT ', 'Q '))]
    r.traces += 1
    r.states, r.transitions, r.outcome = len(got), len(want), want
    if code != 0 or got != want:
        r.problems.append(('places', f'{got} instead of {want} (ended with {code}) for {files} {text}'))


def _distance(args, r):
    """Distances between components, known in their order while they are placed and everywhere afterwards"""
    k, = args
    expr, want = [('setpos_getdistance("one", "two")', 5.0), ('2*setpos_getdistance("two", "one") + a', 15.0), ('setpos_getdistance("one", "one")', 0.0), ('-setpos_getdistance("one", "two")', -5.0)][k]
    reg = cgen.local('c27-distance', {'D.comp': 'DEFINE COMPONENT D\nSETTING PARAMETERS (double v=0)\n' + ''.join(
        f'{s} %{{ printf("{s} %s %g %g %g %g\\n", _comp->_name, _comp->_position_absolute.z, v, getdistance("one", "two"), index_getdistance(_comp->_index, 1)); %}}\n' for s in ('INITIALIZE', 'SAVE', 'FINALLY', 'MCDISPLAY')) + 'END\n'})
    text = ('DEFINE INSTRUMENT parts(int a=1)\nTRACE\nCOMPONENT one = D() AT (0, 0, 1) ABSOLUTE\nCOMPONENT two = D() AT (3, 0, 5) ABSOLUTE\n'
            f'COMPONENT three = D(v=getdistance("two", "one")) AT (0, 0, {expr}) RELATIVE one\nEND\n')
    exe = program(cgen.parse(text, [reg]), 1, 1, 0)
    code, out = cgen.execute(exe, 1, ['a=5'])
    got = [x for x in clean(out) if x.split()[0] in ('INITIALIZE', 'SAVE', 'FINALLY', 'MCDISPLAY')]
    lines = [f'{s} {n} {z:g} {v:g} 5 {d:g}' for s in ('INITIALIZE', 'MCDISPLAY', 'SAVE', 'FINALLY') for n, z, v, d in (('one', 1, 0, 0), ('two', 5, 0, 5), ('three', 1 + want, 5, abs(want)))]
    r.traces += 1
    r.states, r.transitions, r.outcome = len(got), len(lines), lines
    if code != 0 or sorted(got) != sorted(lines):
        r.problems.append(('distance', f'{got} instead of {lines} (ended with {code}) for {text}'))


# parameters of a component, what an instance gives, and what the record of each shows: (default, value) or None for values only known at run time
NEXUS = [
    ('p=1', 'p=2.5'), ('p=1', ''), ('int p=3', 'p=-4'), ('string p="word"', 'p="other one"'), ('string p="word"', ''), ('string p="say \\"hi\\""', 'p="a\\\\b"'),
    ('string p=NULL', ''), ('string p=0', 'p="x"'), ('string p="d"', 'p=sp'), ('string p=0', 'p=NULL'), ('vector p={1,2}', 'p={3,4.5}'), ('vector p=NULL', ''), ('vector p=NULL', 'p=gptr'),
    ('int *p={1,2}', ''), ('p', 'p=2*dp + 1'), ('p=2', 'p=strlen("quoted")'), ('int p=0', 'p=dp > 1 ? 2 : 3'), ('string p="d"', 'p=pick("a")'), ('p=0', "p=sin(0.5)"), ('string p', 'p="given"'), ('int p=2+3', 'p=7/2'),
    ('p=1e-9', 'p=1e10'), ('string p=""', 'p=""'),
]


def _nexus(args, r):
    k, = args
    decl, value = NEXUS[k]
    reg = cgen.local(f'c27-nexus-{k}', {'N.comp': f'DEFINE COMPONENT N\nSETTING PARAMETERS ({decl}, last=9)\nTRACE %{{ %}}\nEND\n'})
    text = (f'DEFINE INSTRUMENT parts(dp=0.5, string sp="preset")\nDECLARE %{{ double gptr[2]; char *pick(char *x) {{ return x; }} %}}\nTRACE\n'
            f'COMPONENT one = N({value}) AT (0, 0, 1) ABSOLUTE\nCOMPONENT two = N({value}{", " if value else ""}last=8) AT (0, 2, 0) RELATIVE one\nEND\n')
    source = cgen.translate(cgen.parse(text, [reg]))
    old = 'int siminfo_init(FILE *f) { return 0; }'
    assert old in source
    source = source.replace(old, old + r'''
#define _STRINGS_H
int nxhandle = 1; char *mcformat = "NeXus";
char *strcasestr(const char *a, const char *b);
void mccomp_placement_type_nexus(int h, char *component, Coords p, Rotation q, char *type) { printf("PLACE|%s|%g|%g|%s\n", component, p.z, p.y, type); }
void mccomp_param_nexus(int h, char *component, char *name, char *standard, char *value, char *type) {
  printf("PARAM|%s|%s|%s|%s|%s\n", component, name, standard ? standard : "NULL", value ? value : "NULL", type); }
''')
    try:
        exe = cgen.build(source, ['-DUSE_NEXUS'])
    except cgen.CompileError as e:
        r.problems.append(('compile', f'{e} for {decl} {value}'))
        return
    code, out = cgen.execute(exe, 1)
    r.traces += 1
    got = [x.split('|') for x in out.split('\n') if x.startswith(('PLACE', 'PARAM'))]
    r.states = r.transitions = len(got)
    r.outcome = got
    if [g[1:] for g in got if g[0] == 'PLACE'] != [['0000_one', '1', '0', 'N'], ['0001_two', '1', '2', 'N']]:
        r.problems.append(('place', f'{got} for {decl} {value}'))
    names = [(g[1], g[2]) for g in got if g[0] == 'PARAM']
    if names != [(c, p) for c in ('0000_one', '0001_two') for p in ('p', 'last')]:
        r.problems.append(('names', f'{got} for {decl} {value}'))
    kind = 'string' if decl.startswith('string') else 'other'
    texts = [decl.split('=', 1)[1] if '=' in decl else None, value.split('=', 1)[1] if value else decl.split('=', 1)[1]]
    for g in got:
        if g[0] != 'PARAM':
            continue
        if g[2] == 'last':
            want = ['9', '8' if g[1].endswith('two') else '9']
        else:
            want = texts
        for w, t, label in zip(want, g[3:5], ('default', 'value')):
            if w is None:
                ok = t in ('', 'None', 'NULL')
            elif kind == 'string' and g[2] == 'p':
                ok = t in ('', 'NULL') if w in ('0', 'NULL') else t == {'sp': 'preset', 'pick("a")': 'a'}.get(w) or w[0] == '"' and t == ast.literal_eval(w)
            else:
                try:
                    ok = abs(float(eval(w, {}, {})) - float(t)) <= 1e-12 * abs(float(t))
                except Exception:
                    # an expression only has a value once the program runs, a list is compared without blanks
                    ok = w[0] != '{' or w.replace(' ', '') == t.replace(' ', '')
            if not ok:
                r.problems.append(('record', f'{label} of {g[2]} is {t!r} for {decl} {value}'))
