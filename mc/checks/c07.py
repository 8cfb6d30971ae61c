"""C07: copying and splitting an instrument keeps its content and placement, and the parts work like the whole."""
import itertools, os, re, subprocess, shutil
from ..base import Result
from .. import cgen, cexpr, env, geom
from . import c04, c05
from .c03 import num

PID = 'C07'
LEVEL = 'model_checking'
ASSUMPTIONS = ['MCPL_output and MCPL_input are stand-ins which write and read the state of each event in a text file',
               'generated C is compiled with the system gcc against a stand-in runtime and executed',
               'a parameter whose name only occurs as a part of another word may be kept or removed as unused']
BOUND = ('every chain of four components placed from a menu of constant and symbolic placements, split at each component, judged in Python, after printing and '
         'reading, and (a subset) by running the two halves of an MCPL split; the C05 descriptions split at each component with and without removal of '
         'parameters; every history of up to 3 (thorough: 4) copies, splits, edits and translations')
CHUNK = 4
CASE_SECONDS = 200
ENVS = [dict(a=25.0, d=1.5), dict(a=-70.0, d=-0.5)]
MENU = [dict(at=('0', '0', '1'), ref='RELATIVE PREVIOUS', rot=None, rref=None),
        dict(at=('1', '0', '0'), ref='ABSOLUTE', rot=('0', '90', '0'), rref='ABSOLUTE'),
        dict(at=('0', '1', '0'), ref='RELATIVE c0', rot=('30', '0', '0'), rref='RELATIVE PREVIOUS'),
        dict(at=('0', '0', 'd'), ref='RELATIVE PREVIOUS', rot=None, rref=None),
        dict(at=('0', '0', '1'), ref='RELATIVE PREVIOUS', rot=('10', '20', '30'), rref='RELATIVE c0'),
        dict(at=('0', '0', '1'), ref='RELATIVE PREVIOUS', rot=('0', 'a', '0'), rref='RELATIVE PREVIOUS'),
        dict(at=('1', '2', 'd*2'), ref='RELATIVE c0', rot=('0', '0', '0'), rref='ABSOLUTE'),
        dict(at=('1', '0', '0'), ref='ABSOLUTE', rot=('0', '45', '0'), rref='RELATIVE PREVIOUS')]
FIRST = [dict(at=('0', '0', '0'), ref='ABSOLUTE', rot=None, rref=None), dict(at=('1', '2', '3'), ref='ABSOLUTE', rot=('20', '10', '0'), rref='ABSOLUTE'),
         dict(at=('0', 'd', '0'), ref='ABSOLUTE', rot=('a', '0', '0'), rref='ABSOLUTE')]
COMPS = {'Arm.comp': 'DEFINE COMPONENT Arm\nTRACE\n%{\n%}\nEND\n',
         'Step.comp': '''DEFINE COMPONENT Step
SETTING PARAMETERS (double w=1, string label="s")
TRACE
%{
  x += w; y -= 0.5*w*z; p *= 0.5;
  SCATTER;
  printf("P %s %.9g %.9g %.9g %.9g %.9g %.9g %.9g %.9g\\n", label, x, y, z, vx, vy, vz, t, p);
%}
END
''', 'Pick.comp': '''DEFINE COMPONENT Pick
SETTING PARAMETERS (int every=2, string label="s")
DECLARE
%{
  long seen;
%}
INITIALIZE
%{
  seen = 0;
%}
TRACE
%{
  if (((long) t) % every == 0) { SCATTER; x += 10; printf("P %s %.9g %.9g %.9g\\n", label, x, y, z); }
%}
END
''', 'Src.comp': '''DEFINE COMPONENT Src
DECLARE
%{
  long count;
%}
INITIALIZE
%{
  count = 0;
%}
TRACE
%{
  count++;
  x = 0.1*count; y = 1; z = -0.2*count; vx = 1; vy = 0.5*count; vz = 2; t = count; p = 1;
%}
END
''', 'MCPL_output.comp': '''DEFINE COMPONENT MCPL_output
SETTING PARAMETERS (string filename=0, int extra=0)
DECLARE
%{
  FILE *f;
%}
INITIALIZE
%{
  f = fopen(filename, "w");
%}
TRACE
%{
  fprintf(f, "%.17g %.17g %.17g %.17g %.17g %.17g %.17g %.17g\\n", x, y, z, vx, vy, vz, t, p);
%}
FINALLY
%{
  fclose(f);
%}
END
''', 'MCPL_input.comp': '''DEFINE COMPONENT MCPL_input
SETTING PARAMETERS (string filename=0, double verbose=1, int extra=0)
DECLARE
%{
  FILE *f;
%}
INITIALIZE
%{
  f = fopen(filename, "r");
  printf("VERBOSE %g\\n", verbose);
%}
TRACE
%{
  if (8 != fscanf(f, "%lg %lg %lg %lg %lg %lg %lg %lg", &x, &y, &z, &vx, &vy, &vz, &t, &p)) ABSORB;
%}
FINALLY
%{
  fclose(f);
%}
END
'''}
# what the components before and after the split point look like, for the programs which are run
RUNS = [('plain', ['Step(w=1, label="one")', 'Step(w=2, label="two")'], ['Step(w=d, label="three")', 'Step(w=a, label="four")'], ['', ''], ['', '']),
        ('when', ['Step(w=1, label="one") WHEN (d > 0)', 'Step(label="two")'], ['Step(label="three") WHEN (d < 0)', 'Step(label="four")'], ['', ''], ['', '']),
        ('group', ['Pick(every=2, label="one")', 'Pick(every=3, label="two")'], ['Pick(every=2, label="three")', 'Pick(every=1, label="four")'],
         ['GROUP g', 'GROUP g'], ['GROUP h', 'GROUP h']),
        ('group in the second part', ['Step(label="one")', 'Step(label="two")'], ['Pick(every=2, label="three")', 'Pick(every=3, label="four")'], ['', ''], ['GROUP g', 'GROUP g']),
        ('extend', ['Step(label="one")', 'Step(label="two")'], ['Step(label="three")', 'Step(label="four")'], ['EXTEND %{ y += 0.25; %}', 'EXTEND %{ if (SCATTERED) z += 1; %}'],
         ['EXTEND %{ y += 0.5*x; %}', '']),
        ('jump', ['Step(label="one")', 'Step(label="two")'], ['Step(label="three")', 'Step(label="four")'], ['JUMP MYSELF ITERATE 1', ''], ['JUMP NEXT(2) WHEN x > 2', '']),
        ('named jump', ['Step(label="one")', 'Step(label="two")'], ['Step(label="three")', 'Step(label="four")'], ['JUMP cut WHEN x > 2', ''],
         ['', 'JUMP s2 ITERATE 2']),
        ('split', ['SPLIT 2 Step(label="one")', 'Step(label="two")'], ['Step(label="three")', 'SPLIT 3 Step(label="four")'], ['', ''], ['', '']),
        ('copy', ['Step(label="one")', 'COPY(s0)(label="two")'], ['Step(label="three")', 'COPY(s2)(label="four")'], ['JUMP NEXT WHEN x > 2', ''], ['JUMP MYSELF ITERATE 1', ''])]
HOW = ['mcpl', 'mcpl translated', 'mcpl reread', 'mcpl named', 'mcpl unused']
OPS = ['copy', 'split', 'mcpl', 'translate', 'translate last', 'add parameter', 'add parameter last', 'rename', 'metadata', 'set parameter last', 'default last']


def cases(tier):
    m, f = range(len(MENU)), range(len(FIRST))
    for i, j, k in itertools.product(m, m, m):
        for a in f if tier != 'quick' else ((i + j + k) % 3,):
            yield ['place', [a, i, j, k]]
    for how in HOW:
        for i in range(len(RUNS)):
            poses = itertools.product(f, m, m) if tier != 'quick' else [((i + n) % 3, (3 * i + 2 * n) % 8, (5 * i + 3 * n + 2) % 8) for n in range(3)]
            for p in poses:
                yield ['run', how, i, list(p)]
    if tier == 'quick':
        for p in itertools.product(f, m):
            yield ['run', 'mcpl', 0, [*p, (p[0] + 2 * p[1]) % 8]]
    for c in c05.cases('quick'):
        if len(c[1]) == 1 or tier != 'quick':
            yield ['text', c]
    for place in USES:
        for e in range(len(USE_EXPR)):
            for which in range(3):
                for others in range(2):
                    yield ['used', place, e, which, others]
    for n in range(1, 4 if tier == 'quick' else 5):
        for h in itertools.product(range(len(OPS)), repeat=n):
            if tier != 'quick' or n < 3 or len({OPS[h[0]], OPS[h[1]], OPS[h[2]]} & {'copy', 'split', 'mcpl'}):
                yield ['hist', list(h)]


USES = ['x', 'y', 'z', 'rx', 'ry', 'rz', 'value', 'split', 'when', 'extend', 'jump', 'DECLARE', 'USERVARS', 'INITIALIZE', 'SAVE', 'FINALLY', 'nowhere']
USE_EXPR = ['find', '-find', '1+find', 'find*2', '(2-find)/3', 'sin(find)', 'atan2(1,find)', 'find > 0 ? 1 : 2', 'b > 0 ? find : 2', 'b > 0 ? 1 : find', 'arr[find]',
            'b > 1 && find > 0', '!find', 'atan2(cos(b),1+b*find)']


def _used(args, r):
    """An instrument parameter which is used in one place is kept by the parts which have that place, and only by those"""
    place, e, which, others = args
    e = USE_EXPR[e]
    if place == 'nowhere':
        e = 'b'
    regs = [cgen.local('c07', COMPS)]

    def row(name, n):
        def use(p, other):
            return e if n == which and p == place else other if others else None
        xyz = [use(k, k2) or '1' for k, k2 in zip('xyz', ('1', 'b', '3'))]
        rot = [use(k, k2) or '0' for k, k2 in zip(('rx', 'ry', 'rz'), ('0', 'b', '10'))]
        out = f'SPLIT {use("split", "b")} ' if use('split', 'b') else ''
        out += f'COMPONENT {name} = Step(w = {use("value", "b+1") or 2}, label = "{name}") '
        out += f'WHEN ({use("when", "b > 2")}) ' if use('when', 'b > 2') else ''
        out += f'AT ({", ".join(xyz)}) {"ABSOLUTE" if name == "one" else "RELATIVE PREVIOUS"} ROTATED ({", ".join(rot)}) {"ABSOLUTE" if name == "one" else "RELATIVE PREVIOUS"}'
        out += f'\nEXTEND %{{ y += {use("extend", "z")}; %}}' if use('extend', 'z') else ''
        out += f'\nJUMP MYSELF WHEN {use("jump", "b > 3")}' if use('jump', 'b > 3') else ''
        return out + '\n'
    text = 'DEFINE INSTRUMENT i(double find = 1, double b = 2)\n'
    everywhere = place in USES[11:16]

    def block(k):
        if place == k:
            return f'{k} %{{ double k{k} = {e}; %}}\n'
        return f'{k} %{{ double other{k}; %}}\n' if others else ''
    text += block('DECLARE') + block('USERVARS') + block('INITIALIZE') + 'TRACE\n'
    text += ''.join(row(name, n) for n, name in enumerate(('one', 'two', 'three'))) + block('SAVE') + block('FINALLY') + 'END\n'
    whole = cgen.parse(text, regs)
    for at in range(3):
        with cgen.quiet():
            parts = whole.split(('one', 'two', 'three')[at], remove_unused_parameters=True)
        for part, lo, hi in zip(parts, (0, at), (at, 2)):
            r.transitions += 1
            r.states += 1
            if place == 'nowhere':
                want = False
            elif everywhere or lo <= which <= hi:
                want = True
            elif place in USES[:6] and which < lo:
                want = 'find' in body_of(part)   # it can still be in the absolute placement of what follows
            else:
                want = False
            got = part.has_parameter('find')
            if got != want:
                r.problems.append(('used' if want else 'not used', f'{part.name} split at {at} {"lost" if want else "kept"} the parameter: used in {place} of component {which} as {e}; {part}'[:900]))
            if not whole.has_parameter('find'):
                r.problems.append(('whole', 'the whole lost the parameter'))
    r.nontrivial = place != 'nowhere'
    r.outcome = [place, which]


def run_case(case):
    r = Result(states=1, transitions=0)
    globals()['_' + case[0]](case[1:], r)
    return r


def chain_text(poses, params='a=1, d=2'):
    return f'DEFINE INSTRUMENT whole({params})\nTRACE\n' + '\n'.join(
        f'COMPONENT c{n} = Step(label="c{n}") {c04.place(c)}' for n, c in enumerate(poses)) + '\nEND\n'


def numeric(c, e):
    return [num(x, e) for x in (*c.orientation.position(), *c.orientation.rotation())]


def _place(args, r):
    idx, = args
    poses = [FIRST[idx[0]]] + [MENU[i] for i in idx[1:]]
    regs = [cgen.local('c07', COMPS)]
    whole = cgen.parse(chain_text(poses), regs)
    models = [c04.model([(f'c{n}', c, True) for n, c in enumerate(poses)], e) for e in ENVS]
    text = str(whole)
    r.nontrivial = True
    for at in range(4):
        parts = whole.split(f'c{at}')
        for part, names in zip(parts, ([f'c{n}' for n in range(at + 1)], [f'c{n}' for n in range(at, 4)])):
            r.states += 1
            if [c.name for c in part.components] != names:
                r.problems.append(('members', f'split at c{at} has components {[c.name for c in part.components]}'))
                continue
            for c in part.components:
                for ref in (c.at_relative[1], c.rotate_relative[1]):
                    if ref is not None and not any(ref is x for x in part.components):
                        r.problems.append(('reference', f'split at c{at}: {c.name} refers to {ref.name}, which is not a component of {part.name}'))
            again = cgen.parse(str(part), regs)
            for e, model in zip(ENVS, models):
                for c, c2 in zip(part.components, again.components):
                    rot, pos = model[int(c.name[1:])]
                    want = [*pos, *(x for row in rot for x in row)]
                    r.transitions += 2
                    got = numeric(c, e)
                    if not geom.close(got, want, 1e-8):
                        r.problems.append(('placed', f'{c.name} after split at c{at}, {e}: {got} should be {want}'))
                    got = printed(c2, e)
                    if not geom.close(got, want, 1e-7):
                        r.problems.append(('printed', f'{c.name} after split at c{at}, printing and reading, {e}: {got} should be {want}; {part}'[:1500]))
    if str(whole) != text:
        r.problems.append(('changed', f'splitting changed the instrument to {whole}'))
    r.outcome = str(idx)


def printed(c, e, cache=None):
    """Place a component like the runtime will: its AT and ROTATED values are C expressions"""
    def val(x):
        return cexpr.ceval(str(x), {**e, 'PI': 3.141592653589793, 'DEG2RAD': 3.141592653589793 / 180, 'RAD2DEG': 180 / 3.141592653589793})

    def pose(c):
        def of(ref):
            return (geom.EYE, [0.0, 0.0, 0.0]) if ref is None else pose(ref)
        pr, pt = of(c.at_relative[1])
        pos = [u + v for u, v in zip(pt, geom.apply(geom.tr(pr), [val(x) for x in c.at_relative[0]]))]
        rr, _ = of(c.rotate_relative[1])
        return geom.mul(geom.euler(*[geom.deg(val(x)) for x in c.rotate_relative[0]]), rr), pos
    rot, pos = pose(c)
    return [*pos, *(x for row in rot for x in row)]


def run_text(run, poses):
    _, before, after, mb, ma = run
    where = [poses[1], poses[2], poses[1], poses[2]]
    rows = [('src', 'Src()', FIRST[poses[0]], '')]
    rows += [(f's{n}', c, MENU[where[n]], m) for n, (c, m) in enumerate(zip(before, mb))]
    rows += [('cut', 'Arm()', MENU[poses[1]], '')]
    rows += [(f's{n + 2}', c, MENU[where[n + 2]], m) for n, (c, m) in enumerate(zip(after, ma))]
    rows += [('fin', 'Step(label="fin")', MENU[0], '')]
    out = 'DEFINE INSTRUMENT whole(double a=1, double d=2, int unused=3)\nTRACE\n'
    for name, c, pose, m in rows:
        split = re.match(r'SPLIT \S+ ', c)
        split = split.group(0) if split else ''
        c = c[len(split):]
        c, _, when = c.partition(' WHEN ')
        out += f'{split}COMPONENT {name} = {c} {"WHEN " + when if when else ""} {c04.place(pose).replace("c0", "src")} {m}\n'
    return out + 'END\n'


def events(out, labels):
    return [l for l in out.split('\n') if l.startswith('P ') and l.split()[1] in labels]


def _run(args, r):
    how, i, poses = args
    regs = [cgen.local('c07', COMPS)]
    text = run_text(RUNS[i], poses)
    whole = cgen.parse(text, regs)
    if how == 'mcpl translated':
        cgen.translate(whole)
    kw = dict(remove_unused_parameters=how == 'mcpl unused')
    name = 'whole.mcpl'
    if how == 'mcpl named':
        from mccode_antlr.common import ComponentParameter, Expr
        name = 'some file'
        kw.update(filename=name, output_parameters=(ComponentParameter('extra', Expr.int(1)),), input_parameters=(ComponentParameter('extra', Expr.int(2)),))
    with cgen.quiet():
        first, second = whole.mcpl_split('cut', **kw)
    r.transitions += 1
    if how == 'mcpl unused':
        for part in (first, second):
            if part.has_parameter('unused'):
                r.problems.append(('unused', f'{part.name} still has the unused parameter'))
    if how == 'mcpl reread':
        first, second = cgen.parse(str(first), regs), cgen.parse(str(second), regs)
    folder = env.SCRATCH / 'work' / f'm{os.getpid()}'
    shutil.rmtree(folder, ignore_errors=True)
    folder.mkdir(parents=True)

    def go(exe, n, e, part):
        args = [f'{k}={v!r}' for k, v in e.items() if part.has_parameter(k)]
        p = subprocess.run([str(exe), str(n), *args], capture_output=True, text=True, timeout=20, cwd=folder)
        r.traces += 1
        if p.returncode:
            r.problems.append(('ended', f'{part.name} ended with {p.returncode}: {p.stderr[-200:]}'))
        return p.stdout
    exes = []
    try:
        for x in (whole, first, second):
            exes.append(cgen.build(cgen.translate(x)))
        for e in ENVS:
            out = [go(exes[0], 6, e, whole), go(exes[1], 6, e, first)]
            file = folder / name
            lines = file.read_text().split('\n')[:-1] if file.exists() else []
            out.append(go(exes[2], max(len(lines), 1), e, second))
            early, late = ('one', 'two'), ('three', 'four', 'fin')
            for labels, got, what in ((early, out[1], 'first'), (late, out[2], 'second')):
                a, b = events(out[0], labels), events(got, labels)
                r.transitions += 1
                if not same(a, b):
                    k = next((k for k, (x, y) in enumerate(zip(a, b)) if not same([x], [y])), min(len(a), len(b)))
                    r.problems.append((f'run {what}', f'{RUNS[i][0]} {e}: the whole program has {len(a)} lines, the {what} part {len(b)}; line {k}: {a[k:k + 1]} {b[k:k + 1]}'))
    finally:
        for x in exes:
            x.unlink(missing_ok=True)
        shutil.rmtree(folder, ignore_errors=True)
    r.states = 3
    r.nontrivial = True
    r.outcome = [how, i]


def same(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        x, y = x.split(), y.split()
        if x[:2] != y[:2] or not all(abs(float(u) - float(v)) <= 1e-6 * max(1.0, abs(float(u))) for u, v in zip(x[2:], y[2:])):
            return False
    return True


def content(instr):
    t = str(instr)
    return t[t.index('*/') + 2:]


def words(*texts):
    return set(re.findall(r'[A-Za-z_]\w*', ' '.join(str(t) for t in texts)))


def _text(args, r):
    case, = args
    d = c05.describe(case)
    regs = [cgen.local('c05', c05.FILES)]
    whole = cgen.parse(c05.render(d), regs)
    full, text = c05.observe(whole), str(whole)
    for at in range(len(whole.components)):
        for remove in (False, True):
            with cgen.quiet():
                parts = whole.split(whole.components[at].name if remove else whole.components[at], remove_unused_parameters=remove)
            r.transitions += 1
            for which, (part, lo, hi) in enumerate(zip(parts, (0, at), (at + 1, None))):
                got = c05.observe(part)
                want = dict(full, name=full['name'] + ('_second' if which else '_first'), components=full['components'][lo:hi])
                r.states += 1
                if which:
                    members = {c['name'] for c in want['components']}
                    for q, g in enumerate(got['components'][:len(want['components'])]):
                        for a, b in (('at', 'atref'), ('rot', 'rotref')):
                            w = want['components'][q]
                            if w[b] not in members:
                                # becomes an absolute placement, judged by the other cases
                                want['components'][q] = dict(w, **{a: g[a], b: None})
                if remove:
                    kept = {p[0] for p in got['params']}
                    for p in want['params']:
                        # as a word of anything that is left: has to stay; not even a part of any word: has to go
                        if p[0] not in kept and p[0] in words(body_of(part)):
                            r.problems.append(('removed', f'split at {at}: parameter {p[0]} is used in {part.name} but was removed'))
                        if p[0] in kept and p[0] not in body_of(part):
                            r.problems.append(('kept', f'split at {at}: parameter {p[0]} is not used in {part.name} but was not removed'))
                    want['params'] = [p for p in want['params'] if p[0] in kept]
                if want != got:
                    x = c05.diff(want, got)
                    r.problems.append((f'part:{c05.field(x[0][0]) if x else ""}', f'split at {at} remove={remove} part {which}: {x[:1]}'))
    other = whole.copy()
    r.transitions += 1
    if str(other) != text or c05.observe(other) != full:
        r.problems.append(('copy', f'the copy differs: {c05.diff(full, c05.observe(other))[:1]}'))
    for c in other.components:
        for ref in (c.at_relative[1], c.rotate_relative[1]):
            if ref is not None and not any(ref is x for x in other.components):
                r.problems.append(('copy reference', f'{c.name} of the copy refers to a component {ref.name} outside of the copy'))
    if str(whole) != text:
        r.problems.append(('changed', 'splitting or copying changed the instrument'))
    r.nontrivial = bool(case[1])
    r.outcome = text[-200:]


def body_of(part):
    """Everything an instrument parameter can be used in"""
    out = [b.source for k in ('declare', 'initialize', 'save', 'final') for b in getattr(part, k)]
    for c in part.components:
        out += [str(p.value) for p in c.parameters] + [str(x) for x in (*c.at_relative[0], *c.rotate_relative[0])]
        out += [str(c.when or ''), str(c.split or '')] + [b.source for b in c.extend] + [str(j.condition) for j in c.jump]
        out += [str(x) for x in (*c.orientation.position(), *c.orientation.angles())]
    return '\n'.join(out)


HIST = '''DEFINE INSTRUMENT whole(double a=1, double d=2)
DECLARE %{ int k; %}
TRACE
COMPONENT src = Src() AT (0,0,0) ABSOLUTE
COMPONENT s0 = Pick(label="one") AT (0,0,1) RELATIVE PREVIOUS ROTATED (0,30,0) RELATIVE src GROUP g
COMPONENT s1 = Pick(label="two") AT (0,0,d) RELATIVE PREVIOUS GROUP g JUMP NEXT WHEN x > 1
COMPONENT cut = Arm() AT (0,0,1) RELATIVE PREVIOUS
METADATA "a/b" name %{value%}
COMPONENT s2 = Pick(label="three") AT (0,0,1) RELATIVE s1 GROUP h
COMPONENT s3 = Pick(label="four") AT (0,0,1) RELATIVE PREVIOUS GROUP h EXTEND %{ y += 3; %}
COMPONENT fin = Step(label="fin") AT (0,0,1) RELATIVE PREVIOUS JUMP s2 WHEN x > a
END
'''


def _hist(args, r):
    """Objects only change by operations on themselves, and translate like an instrument freshly read from their text"""
    from mccode_antlr.common import InstrumentParameter, MetaData
    ops, = args
    regs = [cgen.local('c07', COMPS)]
    objs = [cgen.parse(HIST, regs)]
    texts = [content(objs[0])]
    n = 0
    for o in ops:
        op = OPS[o]
        n += 1
        k = len(objs) - 1 if op.endswith('last') else 0
        new = []
        with cgen.quiet():
            if op == 'copy':
                new = [objs[0].copy()]
            elif op == 'split':
                new = list(objs[0].split('cut'))
            elif op == 'mcpl':
                new = list(objs[0].mcpl_split('cut'))
            elif op.startswith('translate'):
                if 'JUMP s2' not in texts[k] or 'COMPONENT s2' in texts[k]:
                    cgen.translate(objs[k])
            elif op.startswith('add parameter'):
                objs[k].add_parameter(InstrumentParameter.parse(f'double extra{n} = {n}'))
                texts[k] = None
            elif op == 'rename':
                objs[0].components[4].name = f's2x{n}'
                for j in objs[0].components[6].jump:
                    j.target = f's2x{n}'
                texts[0] = None
            elif op == 'metadata':
                objs[0].components[3].add_metadata(MetaData.from_instance_tokens('cut', 'text', 'name', f'edited {n}'))
                objs[0].add_metadata(MetaData.from_instrument_tokens('whole', 'text', 'name', f'edited {n}'))
                texts[0] = None
            elif op == 'set parameter last':
                objs[k].components[-1].set_parameter('label', f'"other{n}"', overwrite=True)
                texts[k] = None
            elif op == 'default last':
                from mccode_antlr.common import Expr
                objs[k].parameters[0].value = Expr.float(10 + n)
                texts[k] = None
        r.transitions += 1
        for i, x in enumerate(objs):
            if texts[i] is None:
                texts[i] = content(x)
            elif content(x) != texts[i]:
                a, b = texts[i].split('\n'), content(x).split('\n')
                q = next((q for q, (u, v) in enumerate(zip(a, b)) if u != v), min(len(a), len(b)))
                r.problems.append(('shared', f'after {[OPS[z] for z in ops[:n]]} object {i} changed from {a[q:q + 1]} to {b[q:q + 1]}'))
                texts[i] = content(x)
        for x in new:
            objs.append(x)
            texts.append(content(x))
    if len(ops) < 3 or len(objs) > 1:
        for i, x in enumerate(objs):
            fresh = cgen.parse(texts[i], regs)
            fresh.source = x.source
            a, b = strip(cgen.translate(fresh)), strip(cgen.translate(x))
            r.transitions += 1
            if a != b:
                q = next((q for q, (u, v) in enumerate(zip(a, b)) if u != v), min(len(a), len(b)))
                r.problems.append(('translation', f'after {[OPS[z] for z in ops]} object {i} does not translate like its text: {b[q:q + 2]} instead of {a[q:q + 2]}'))
    r.states = 1 + len(ops)
    r.nontrivial = True
    r.outcome = str(ops[:2])


def strip(source):
    """Generated lines without the date, the origin of C blocks, the instrument name in the metadata table, and empty lines"""
    out = []
    for l in source.split('\n'):
        l = re.sub(r'(".*?"|<.*?>):\d+', '', l)
        l = re.sub(r'^\s*#line .*', '', l)
        l = re.sub(r'^(\s*\{\s*)"whole\w*",', r'\1"",', l)
        if l.strip() and not re.match(r'\s*\* Date:', l):
            out.append(l.strip())
    return out
