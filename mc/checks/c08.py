"""C08: the compiled TRACE follows the component logic: WHEN, GROUP, EXTEND, JUMP, SPLIT, ABSORB, RESTORE."""
import itertools, re
from ..base import Result
from .. import cgen, geom
from ..geom import deg

PID = 'C08'
LEVEL = 'model_checking'
ASSUMPTIONS = ['the C runtime is a stand-in (mc/cgen.py); generated C is compiled with the system gcc and executed',
               'no component after a SPLIT jumps backward, and jumps do not enter a GROUP other than at its first member',
               'an event absorbed in a GROUP without having scattered is tried on the next member, as the generated code documents',
               'copies of an event made by SPLIT are compared by the sum of their weights']
BOUND = ('every instrument of a source, three slots and an end, each slot one of a menu of components (pass, no code, scatter, absorb, restore) '
         'with modifiers (WHEN, GROUP, EXTEND, SPLIT, JUMP forms), plus four-slot instruments over a group-only menu; each run on all '
         '16 decision vectors of an event, in the default layout and (without JUMP) the FUNNEL layout; non-trivial: any modifier or decision')
CASE_SECONDS = 120
CHUNK = 4

TYPES = {
    'Src': '''t = 0; vx = 1; vy = 2; vz = 3; LOG''',
    'Go': 'LOG; MODIFY;',
    'Nul': None,
    'Sca': 'LOG; MODIFY; if ((_particle->_uid >> bit) & 1) SCATTER;',
    'Abs': 'LOG; MODIFY; if ((_particle->_uid >> bit) & 1) ABSORB;',
    'ScaAbs': 'LOG; MODIFY; SCATTER; if ((_particle->_uid >> bit) & 1) ABSORB;',
    'Res': 'LOG; MODIFY; SCATTER; if ((_particle->_uid >> bit) & 1) RESTORE_NEUTRON(INDEX_CURRENT_COMP, x, y, z, vx, vy, vz, t, sx, sy, sz, p);',
}
LOG = ('printf("L %lld %ld %.15g %.12g %.12g %.12g %.12g %.12g %.12g %.15g\\n", _particle->_uid, _comp->_index, p, x, y, z, vx, vy, vz, t)')
MODIFY = 't = fmod(10*t + _comp->_index, 1000003); vx += 0.5; z += 0.25; sx += 1; p *= 1.5'


def comp_text(name):
    code = TYPES[name]
    s = f'DEFINE COMPONENT {name}\nSETTING PARAMETERS (int bit=0)\n'
    if code is not None:
        s += 'SHARE %{\n#define INDEX_CURRENT_COMP 1\n%}\nTRACE %{\n' + code.replace('LOG', LOG).replace('MODIFY', MODIFY) + ';\n%}\n'
    return s + 'END\n'


# slot: [type, {modifier: value}]
BASE = [['Go', {}], ['Nul', {}], ['Sca', {'GROUP': 'g'}], ['Abs', {'GROUP': 'g'}], ['Abs', {}], ['Res', {}],
        ['Sca', {'WHEN': 'w == 1'}], ['Sca', {'WHEN': 'w == 1', 'GROUP': 'g'}], ['Go', {'EXTEND': 1, 'SPLIT': '2'}],
        ['Go', {'JUMP': ['MYSELF', 'ITERATE', '3']}], ['Go', {'JUMP': ['s0', 'ITERATE', '2'], 'EXTEND': 1}],
        ['Go', {'JUMP': ['NEXT(2)', 'WHEN', 'w == 1']}]]
MORE = BASE + [['Nul', {'GROUP': 'g'}], ['Res', {'GROUP': 'g'}], ['Nul', {'EXTEND': 1}], ['Nul', {'EXTEND': 1, 'WHEN': 'w == 1'}],
               ['Abs', {'EXTEND': 1, 'WHEN': 'w != 1'}], ['Sca', {'GROUP': 'h'}], ['ScaAbs', {'GROUP': 'g', 'EXTEND': 1}],
               ['Abs', {'SPLIT': 'nsplit + 1'}], ['Nul', {'JUMP': ['s0', 'ITERATE', '2']}],
               ['Go', {'JUMP': ['PREVIOUS', 'WHEN', 'n < 3'], 'EXTEND': 1}], ['Sca', {'EXTEND': 1}]]
GROUPS = [['Go', {}], ['Nul', {}], ['Sca', {'GROUP': 'g'}], ['Sca', {'GROUP': 'h'}], ['Abs', {'GROUP': 'g'}],
          ['Sca', {'GROUP': 'g', 'WHEN': 'w == 1'}], ['Nul', {'GROUP': 'g'}]]


def cases(tier):
    menu = BASE if tier == 'quick' else MORE
    seen = set()

    def emit(flavor, slots):
        k = repr((flavor, slots))
        if k not in seen and admissible(slots):
            seen.add(k)
            yield [flavor, *slots]
    for slots in itertools.product(menu, repeat=2):
        yield from emit('mcstas', list(slots))
    for slots in itertools.product(MORE, repeat=2):
        yield from emit('mcstas', list(slots))
    for slots in itertools.product(menu, repeat=3):
        yield from emit('mcstas', list(slots))
    gm = GROUPS[:1] + GROUPS[2:6] if tier == 'quick' else GROUPS
    for slots in itertools.product(gm, repeat=4):
        if sum('GROUP' in s[1] for s in slots) >= 2:
            yield from emit('mcstas', list(slots))
    for slots in itertools.product(BASE[2:6], repeat=2):
        yield from emit('mcxtrace', list(slots))


def target(i, jump, n):
    t = jump[0]
    m = re.match(r'(NEXT|PREVIOUS)(?:\((\d+)\))?$', t)
    if m:
        return i + int(m.group(2) or 1) * (1 if m.group(1) == 'NEXT' else -1)
    return {'MYSELF': i, 's0': 1}[t]


def admissible(slots):
    """comps: 0 source, 1..n slots, n+1 end"""
    n = len(slots) + 2
    groups = {}
    for i, (t, m) in enumerate(slots, 1):
        if 'GROUP' in m:
            groups.setdefault(m['GROUP'], []).append(i)
    if any(max(g) - min(g) + 1 != len(g) for g in groups.values()):
        return False    # a group is one run of components
    inner = {i for g in groups.values() for i in g[1:]}
    for i, (t, m) in enumerate(slots, 1):
        if 'JUMP' in m:
            k = target(i, m['JUMP'], n)
            if k < 0 or k >= n or k in inner or (k == 0):
                return False
            if k <= i and any('SPLIT' in slots[j - 1][1] for j in range(1, i + 1)):
                return False
            # a backward jump over another one multiplies the loops, fine; an unconditional ping-pong is not terminating
            if m['JUMP'][1] == 'WHEN' and k <= i and 'EXTEND' not in m:
                return False
    return True


POSE = [((0, 0, 0), None), ((0, 0, 1), None), ((0.5, 0, 1), (0, 90, 0)), ((0, 0, 1), None), ((0, -1, 0), (30, 0, 0)), ((0, 0, 1), None)]


def program(slots):
    text = 'DEFINE INSTRUMENT flow(int nsplit=1)\nUSERVARS %{\nint w;\nint n;\n%}\nTRACE\n'
    text += 'COMPONENT src = Src() AT (0, 0, 0) ABSOLUTE EXTEND %{ w = (_particle->_uid >> 3) & 1; n = 0; %}\n'
    for i, (typ, m) in enumerate([*slots, ['Go', {}]], 1):
        name = f's{i - 1}' if i <= len(slots) else 'fin'
        at, rot = POSE[i]
        if 'SPLIT' in m:
            text += f'SPLIT {m["SPLIT"]} '
        text += f'COMPONENT {name} = {typ}(bit={min(i - 1, 2)}) '
        if 'WHEN' in m:
            text += f'WHEN ({m["WHEN"]}) '
        text += f'AT ({at[0]}, {at[1]}, {at[2]}) RELATIVE PREVIOUS '
        if rot:
            text += f'ROTATED ({rot[0]}, {rot[1]}, {rot[2]}) RELATIVE PREVIOUS '
        if 'GROUP' in m:
            text += f'GROUP {m["GROUP"]} '
        if 'EXTEND' in m:
            text += f'EXTEND %{{ n += 1; printf("E %lld %ld %d %d\\n", _particle->_uid, _comp->_index, n, (int) (SCATTERED > 0)); %}} '
        if 'JUMP' in m:
            j = m['JUMP']
            text += f'JUMP {j[0]} {j[1]} ({j[2]}) ' if j[1] == 'WHEN' else f'JUMP {j[0]} {j[1]} {j[2]} '
        text += '\n'
    return text + 'END\n'


def poses(n):
    out = [(geom.EYE, [0.0, 0.0, 0.0])]
    for i in range(1, n):
        at, rot = POSE[i]
        pr, pt = out[-1]
        pos = [u + v for u, v in zip(pt, geom.apply(geom.tr(pr), at))]
        out.append((geom.mul(geom.euler(*[deg(x) for x in rot]), pr) if rot else pr, pos))
    return out


def model(slots, uid, split_applies=True):
    """All events of one decision vector: dict of event -> summed weight, and the number of model steps"""
    comps = [['Src', {'EXTEND': 0}], *slots, ['Go', {}]]
    where = poses(len(comps))
    log, steps = {}, 0
    first, last = {}, {}
    for i, (t, m) in enumerate(comps):
        if 'GROUP' in m:
            first.setdefault(m['GROUP'], i)
            last[m['GROUP']] = i

    def note(key, weight):
        log[key] = log.get(key, 0.0) + weight

    def local(s, i):
        r, o = where[i]
        return geom.apply(r, [a - b for a, b in zip(s['x'], o)]), geom.apply(r, s['v'])

    def absolute(i, x, v):
        r, o = where[i]
        return [a + b for a, b in zip(o, geom.apply(geom.tr(r), x))], geom.apply(geom.tr(r), v)

    cond = {'w == 1': lambda s: s['w'] == 1, 'w != 1': lambda s: s['w'] != 1, 'n < 3': lambda s: s['n'] < 3}
    todo = [dict(i=0, x=[0.0, 0, 0], v=[0.0, 0, 1.0], t=0.0, p=1.0, w=0, n=0, count={}, skip=False, enter=None)]
    while todo:
        s = todo.pop()
        while s['i'] < len(comps):
            steps += 1
            if steps > 5000:
                raise RuntimeError('model does not end')
            i = s['i']
            typ, m = comps[i]
            if 'SPLIT' in m and not s['skip'] and split_applies:
                for _ in range(2):
                    c = dict(s, p=s['p'] / 2, skip=True, count=dict(s['count']))
                    todo.append(c)
                break
            s['skip'] = False
            g = m.get('GROUP')
            if g is not None:
                if i == first[g] or s['enter'] is None:
                    s['enter'] = {k: s[k] for k in 'xvtp'}
                s.update(s['enter'])
            entry = {k: s[k] for k in 'xvtp'}
            absorbed = scattered = False
            has_code = TYPES[typ] is not None or 'EXTEND' in m
            if has_code and ('WHEN' not in m or cond[m['WHEN']](s)):
                x, v = local(s, i)
                if typ == 'Src':
                    s['t'], v = 0.0, [1.0, 2.0, 3.0]
                bit = (uid >> min(i - 1, 2)) & 1 if i else 0
                if TYPES[typ] is not None:
                    note(('L', i + 1, *[round(q, 6) + 0.0 for q in (*x, *v)], s['t']), s['p'])
                if typ not in ('Src', 'Nul'):
                    s['t'] = (10 * s['t'] + i + 1) % 1000003
                    v = [v[0] + 0.5, v[1], v[2]]
                    x = [x[0], x[1], x[2] + 0.25]
                    s['p'] *= 1.5
                s['x'], s['v'] = absolute(i, x, v)
                if typ in ('ScaAbs', 'Res') or (typ == 'Sca' and bit):
                    scattered = True
                absorbed = typ in ('Abs', 'ScaAbs') and bit
                if i == 0:
                    s['w'], s['n'] = (uid >> 3) & 1, 0
                elif 'EXTEND' in m and not absorbed:
                    s['n'] += 1
                    note(('E', i + 1, s['n'], int(scattered)), 1)
                if typ == 'Res' and bit:
                    s.update(entry)
            if g is not None:
                if scattered:
                    if absorbed:
                        break
                    s['enter'] = None
                    s['i'] = last[g] + 1
                    continue
                if i == last[g]:
                    break
                s.update(s['enter'])
                s['i'] += 1
                continue
            if absorbed:
                break
            nxt = i + 1
            if 'JUMP' in m:
                j = m['JUMP']
                k = target(i, j, len(comps))
                if j[1] == 'WHEN':
                    go = cond[j[2]](s)
                else:
                    s['count'][i] = s['count'].get(i, 0) + 1
                    go = s['count'][i] < int(j[2])
                    if not go:
                        s['count'][i] = 0
                if go:
                    x, v = local(s, i)      # the coordinates are taken over as they are
                    s['x'], s['v'] = absolute(k, x, v)
                    nxt = k
            s['i'] = nxt
    return log, steps


def observed(out):
    logs = {}
    for line in out.split('\n'):
        w = line.split()
        if w[:1] == ['L']:
            f = [float(q) for q in w[3:]]
            key = ('L', int(w[2]), *[round(q, 6) + 0.0 for q in f[1:7]], f[7])
            d = logs.setdefault(int(w[1]), {})
            d[key] = d.get(key, 0.0) + f[0]
        elif w[:1] == ['E']:
            key = ('E', int(w[2]), int(w[3]), int(w[4]))
            d = logs.setdefault(int(w[1]), {})
            d[key] = d.get(key, 0) + 1
    return logs


def differences(got, want, counted=True):
    bad = []
    for k in sorted({*got, *want}, key=repr):
        if k[0] == 'E' and not counted:
            if (k in got) != (k in want):
                bad.append((k, got.get(k), want.get(k)))
            continue
        if abs(got.get(k, 0) - want.get(k, 0)) > 1e-9 * max(1.0, abs(want.get(k, 0))):
            bad.append((k, got.get(k, 0), want.get(k, 0)))
    return bad


def run_case(case):
    flavor, *slots = case
    mcstas = flavor == 'mcstas'
    r = Result(states=0, transitions=0, traces=0, nontrivial=any(m or t in ('Abs', 'Res') for t, m in slots))
    texts = {f'{t}.comp': comp_text(t) for t in TYPES}
    if not mcstas:
        texts = {k: v.replace('RESTORE_NEUTRON', 'RESTORE_XRAY').replace('vx, vy, vz', 'kx, ky, kz').replace('sx, sy, sz', 'Ex, Ey, Ez')
                 .replace('vx = 1; vy = 2; vz = 3', 'kx = 1; ky = 2; kz = 3').replace('vx +=', 'kx +=').replace('sx +=', 'Ex +=')
                 for k, v in texts.items()}
    reg = cgen.local('c08' + flavor, texts)
    text = program(slots)
    source = cgen.translate(cgen.parse(text, [reg]), mcstas)
    events = 0
    for layout in ('default', 'funnel'):
        if layout == 'funnel' and any('JUMP' in m for _, m in slots):
            continue
        exe = cgen.build(source, ['-DFUNNEL'] if layout == 'funnel' else [])
        code, out = cgen.execute(exe, 16, timeout=10)
        if code != 0:
            r.problems.append((f'{layout}-run', f'{text}: ended with {code}'))
            continue
        logs = observed(out)
        split = any('SPLIT' in m for _, m in slots)
        for uid in range(16):
            want, steps = model(slots, uid, layout == 'default')
            got = logs.get(uid, {})
            r.traces += 1
            r.states += len(want)
            r.transitions += steps
            events += len(got)
            bad = differences(got, want, counted=layout == 'default' or not split)
            if bad:
                r.problems.append((f'{layout}-flow', f'{text} event {uid:04b}: (what, got, expected) {bad[:4]}'))
                break
    r.outcome = events
    return r
