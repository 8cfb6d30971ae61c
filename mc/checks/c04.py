"""C04: every component sits where its AT/ROTATED statement says, in the parsed instrument and in the compiled program."""
import itertools, re
from ..base import Result
from .. import cgen, geom, cexpr
from ..geom import deg
from .c03 import num

PID = 'C04'
LEVEL = 'model_checking'
ASSUMPTIONS = ['the C runtime is a stand-in with the coordinate routines of McCode (mc/cgen.py)',
               'generated C is compiled with the system gcc and executed',
               'a particle enters the first component in the laboratory frame', 'numbers agree to 1e-9 (absolute angles: 1e-6)']
BOUND = ('every instrument of two components placed from a menu (constant, symbolic and expression positions and angles; references '
         'ABSOLUTE, RELATIVE a name, RELATIVE PREVIOUS, PREVIOUS(2)) followed by every third component from a larger menu with independent '
         'position and rotation references; each with and without TRACE code; under two values of the instrument parameters; '
         'non-trivial: some rotation or relative reference')
CASE_SECONDS = 200
CHUNK = 1

ENVS = [dict(p=2.5, q=40.0), dict(p=-1.25, q=-110.0)]
PROBE = '''DEFINE COMPONENT %s
SETTING PARAMETERS (int dummy=0)
INITIALIZE %%{
  printf("I %%ld %%.17g %%.17g %%.17g", _comp->_index, _comp->_position_absolute.x, _comp->_position_absolute.y, _comp->_position_absolute.z);
  for (int i=0; i<9; i++) printf(" %%.17g", _comp->_rotation_absolute[i/3][i%%3]);
  printf("\\n");
%%}
%s
END
'''
TRACE = 'TRACE %{ printf("T %ld %.17g %.17g %.17g %.17g %.17g %.17g\\n", _comp->_index, x, y, z, vx, vy, vz); %}'

A = [dict(at=('0', '0', '0'), ref='ABSOLUTE', rot=None, rref=None),
     dict(at=('1', '-2', '3'), ref='ABSOLUTE', rot=('10', '20', '30'), rref='ABSOLUTE'),
     dict(at=('p', '0', '2*p - 1'), ref='ABSOLUTE', rot=('0', 'q', '0'), rref='ABSOLUTE')]
B_AT = [('0', '0', '1.5'), ('0.1', '-p', '0')]
B_ROT = [(None, None), (('0', '90', '0'), 'RELATIVE a'), (('-30', '0', '180'), 'ABSOLUTE'), (('q/2', '0', '0'), 'RELATIVE PREVIOUS')]
B_REF = ['ABSOLUTE', 'RELATIVE a', 'RELATIVE PREVIOUS']
C_AT = [('0', '0', '0'), ('1', '2', '3'), ('p', '-p*2', '0.25')]
C_ROT = [('0', '0', '0'), ('0', '0', '45'), ('15', '-25', '35'), ('0', 'q + 5', '0')]
REFS = ['ABSOLUTE', 'RELATIVE a', 'RELATIVE b', 'RELATIVE PREVIOUS', 'RELATIVE PREVIOUS(2)']


def thirds():
    for at in C_AT:
        for ref in REFS:
            yield dict(at=at, ref=ref, rot=None, rref=None)
            for rot in C_ROT:
                for rref in REFS:
                    if rot == ('0', '0', '0') and at != C_AT[0] and rref == ref:
                        continue
                    yield dict(at=at, ref=ref, rot=rot, rref=rref)


def cases(tier):
    n = len(list(thirds()))
    parts = 3 if tier == 'quick' else 1
    for flavor in (['mcstas'] if tier == 'quick' else ['mcstas', 'mcxtrace']):
        for ia in range(len(A)):
            for at, (rot, rref), ref in itertools.product(B_AT, B_ROT, B_REF):
                i = B_AT.index(at) + B_REF.index(ref) + B_ROT.index((rot, rref)) + ia
                for traced in ((i % 4,) if tier == 'quick' else range(4)):
                    b = dict(at=at, ref=ref, rot=rot, rref=rref)
                    if tier == 'quick':
                        yield [flavor, ia, b, traced, i % parts, parts]
                    else:
                        for k in range(3):
                            yield [flavor, ia, b, traced, k, 3]
    if tier == 'quick':
        yield ['mcxtrace', 1, dict(at=B_AT[0], ref='RELATIVE a', rot=B_ROT[1][0], rref='RELATIVE a'), 3, 0, 3]


def place(c):
    s = f'AT ({", ".join(c["at"])}) {c["ref"]}'
    if c['rot'] is not None:
        s += f' ROTATED ({", ".join(c["rot"])}) {c["rref"]}'
    return s


def program(case):
    """The instrument and, for each component, (placement, has trace code)"""
    flavor, ia, b, traced, part, parts = case
    comps = [('a', A[ia], traced & 1), ('b', b, traced & 2)]
    for k, c in enumerate(thirds()):
        if k % parts != part:
            continue
        if 'PREVIOUS' in c['ref'] or 'PREVIOUS' in (c['rref'] or ''):
            # PREVIOUS and PREVIOUS(2) are fresh components
            comps.append((f'm{k}', dict(at=('0', '1', '0'), ref='RELATIVE a', rot=('0', '0', '90'), rref='ABSOLUTE'), k % 2))
            comps.append((f'n{k}', dict(at=('-1', '0', 'p'), ref='ABSOLUTE', rot=None, rref=None), (k // 2) % 2))
        comps.append((f'c{k}', c, (k + traced) % 3 != 0))
    text = 'DEFINE INSTRUMENT place(p=1, q=2)\nTRACE\n'
    for name, c, t in comps:
        text += f'COMPONENT {name} = {"Probe" if t else "Mark"}() {place(c)}\n'
    return text + 'END\n', comps


def model(comps, env):
    """The McCode convention on plain numbers: absolute (rotation, position) of each component"""
    val = lambda s: cexpr.ceval(s, env)
    out, names = [], {}

    def look(ref, i):
        if ref is None or ref == 'ABSOLUTE':
            return geom.EYE, [0.0, 0.0, 0.0]
        if ref.startswith('RELATIVE PREVIOUS'):
            m = re.search(r'\((\d+)\)', ref)
            return out[i - (int(m.group(1)) if m else 1)]
        return out[names[ref.split()[1]]]
    for i, (name, c, _) in enumerate(comps):
        pr, pt = look(c['ref'], i)
        pos = [u + v for u, v in zip(pt, geom.apply(geom.tr(pr), [val(x) for x in c['at']]))]
        if c['rot'] is None:
            rot = pr
        else:
            rr, _ = look(c['rref'], i)
            rot = geom.mul(geom.euler(*[deg(val(x)) for x in c['rot']]), rr)
        out.append((rot, pos))
        names[name] = i
    return out


def run_case(case):
    r = Result(states=0, transitions=0, traces=0)
    flavor = case[0]
    mcstas = flavor == 'mcstas'
    trace = TRACE if mcstas else TRACE.replace('vx, vy, vz', 'kx, ky, kz')
    reg = cgen.local('c04' + flavor, {'Probe.comp': PROBE % ('Probe', trace), 'Mark.comp': PROBE % ('Mark', '')})
    text, comps = program(case)
    instr = cgen.parse(text, [reg])
    bad = 0
    for k, env in enumerate(ENVS):
        want = model(comps, env)
        for (name, c, _), inst, (rot, pos) in zip(comps, instr.components, want):
            if k and all('p' not in x and 'q' not in x for x in (*c['at'], *(c['rot'] or ()))):
                continue
            r.transitions += 1
            got = [num(e, env) for e in inst.orientation.position()]
            grot = [num(e, env) for e in inst.orientation.rotation()]
            if not geom.close(got, pos) and bad < 5:
                bad += 1
                r.problems.append(('parsed-position', f'{name} {place(c)} at {got} instead of {pos} for {env}'))
            if not geom.close(grot, [x for row in rot for x in row]) and bad < 5:
                bad += 1
                r.problems.append(('parsed-rotation', f'{name} {place(c)} rotated {grot} instead of {rot} for {env}'))
    source = cgen.translate(instr, mcstas)
    exe = cgen.build(source)
    try:
        for env in ENVS:
            code, out = cgen.execute(exe, 1, [f'{k}={v!r}' for k, v in env.items()], keep=True)
            if code != 0:
                r.problems.append(('run', f'exit code {code}: {out[-300:]}'))
                continue
            want = model(comps, env)
            init, seen = {}, {}
            for line in out.split('\n'):
                w = line.split()
                if w[:1] == ['I']:
                    init.setdefault(int(w[1]), []).append([float(x) for x in w[2:]])
                if w[:1] == ['T']:
                    seen.setdefault(int(w[1]), []).append([float(x) for x in w[2:]])
            r.traces += 1
            for i, ((name, c, t), (rot, pos)) in enumerate(zip(comps, want), start=1):
                r.states += 1
                r.transitions += 2
                flat = [*pos, *(x for row in rot for x in row)]
                if len(init.get(i, [])) != 1 or not geom.close(init[i][0], flat):
                    bad += 1
                    if bad < 8:
                        r.problems.append(('compiled-placement', f'{name} {place(c)}: {init.get(i)} instead of {flat} for {env}'))
                local = [*geom.apply(rot, [-v for v in pos]), *geom.apply(rot, [0, 0, 1])]
                if t:
                    if len(seen.get(i, [])) != 1 or not geom.close(seen[i][0], local, 1e-8):
                        bad += 1
                        if bad < 8:
                            r.problems.append(('compiled-coordinates', f'a particle enters {name} {place(c)} as {seen.get(i)} '
                                                                       f'instead of {local} for {env}'))
                elif i in seen:
                    r.problems.append(('compiled-coordinates', f'{name} has no trace code but ran'))
    finally:
        exe.unlink()
    r.outcome = [flavor, case[1], place(case[2]), len(comps)]
    return r
