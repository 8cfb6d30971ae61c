"""C03: chains of rotations and translations keep their geometric meaning through every operation on them."""
import itertools, math
from ..base import Result
from .. import cexpr, geom
from ..geom import Affine, deg

PID = 'C03'
LEVEL = 'model_checking'
ASSUMPTIONS = ['symbolic trigonometric functions in a chain given in degrees are functions of degrees (as the test suite fixes)',
               'symbolic angles avoid the value where the y rotation reaches exactly +-90 degrees',
               'numbers are compared to 1e-9 (angles read back from a matrix: 1e-6)']
BOUND = ('every sequence of up to 3 (thorough 4) elementary parts from a menu of rotations about x, y, z (special and general '
         'angles, degrees and radian, constant and symbolic) and translations, through resolve, reduce, inverse, +, - and '
         'specialization; every chain of 3 dependent orientations from a menu of placements and of position and rotation '
         'references; the same in radian; sums, products, lengths of every pair from 34 vectors and 8 matrices; non-trivial: at least one rotation')

ENVS = [dict(p=40.0, q=0.7), dict(p=-120.0, q=-2.0)]
DEG = {'sin': lambda x: math.sin(deg(x)), 'cos': lambda x: math.cos(deg(x)), 'atan2': lambda y, x: math.atan2(y, x) / math.pi * 180,
       'acos': lambda x: math.acos(x) / math.pi * 180, 'sqrt': lambda x: math.sqrt(max(x, 0.0)), 'abs': abs}

MENU = [['x', 90], ['x', 30], ['x', 180], ['x', -30], ['y', -90], ['y', 60], ['y', 180], ['y', 'p'], ['z', 180], ['z', -90],
        ['z', 'p'], ['xr', math.pi], ['yr', 0.5], ['zr', math.pi / 2], ['t', 1, 2, 3], ['t', 0, 0, 'q'], ['t', 0, 0, -1.5]]


ATS = [[0, 0, 0], [1, 2, 3], [0, 0, 'q']]
ROTS = [[0, 0, 0], [30, 0, 0], [0, 90, 0], [10, 20, 30], [180, 0, -90], [0, 'p', 0]]
ROTS_Q = [[0, 0, 0], [0, 90, 0], [10, 20, 30], [0, 'p', 0]]


def cases(tier):
    yield ['chain']
    for n in range(1, 4 if tier == 'quick' else 5):
        for c in itertools.product(range(len(MENU)), repeat=n):
            if n == 4 and c[0] in (2, 6, 8, 11):
                continue
            yield ['chain', *c]
    for x, y, z in itertools.product([-180, -90, -45, 0, 30, 90, 150, 180], repeat=3):
        yield ['euler', x, y, z]
    rots = ROTS if tier == 'thorough' else ROTS_Q
    for a0 in ATS[1:]:
        for r0 in rots:
            for a1 in ATS:
                for r1 in rots:
                    for ra in (-1, 0):
                        for rr in (-1, 0):
                            yield ['place', [a0, r0, -1, -1], [a1, r1, ra, rr]]
    for a0 in ATS[1:]:
        for r0, r1 in itertools.product(ROTS_Q[:3], repeat=2):
            for ra, rr in itertools.product((-1, 0), repeat=2):
                yield ['place', [a0, r0, -1, -1], [ATS[1], r1, ra, rr], 'radian']
    for i in range(len(VECTORS)):
        yield ['vectors', i]
    for i in range(len(MATRICES)):
        yield ['matrices', i]


VECTORS = [list(v) for v in itertools.product((0, 1.5, -2), repeat=3)] + [[1, 2, 3], [3, 0, -4], ['p', 2, 0], [0, 'q', 0], ['p', 'q', 1],
                                                                       [-5, -12, 0], [0, 0, 'p']]
MATRICES = [[0] * 9, [1, 0, 0, 0, 1, 0, 0, 0, 1], [1, 2, 3, 4, 5, 6, 7, 8, 9], [0, -1, 0, 1, 0, 0, 0, 0, 1], [-1.25, 0, 2.5, 0.375, -3, 0, 0, 0, -1.75],
            ['p', 2, 0, 0, 'q', 1, 0, -1, 3], [0, 0, 0, 1, 2, 3, 0, 0, 0], [2, 0, 0, 0, 0, 'q', 0, 'p', 0]]


def num(e, env):
    if e.has_value:
        return float(e.value)
    return cexpr.ceval(str(e), {**env, 'PI': math.pi, '()': DEG})


def ex(v):
    from mccode_antlr.common import Expr
    return Expr.id(v) if isinstance(v, str) else Expr.float(v)


def part(m):
    from mccode_antlr.instr.orientation import RotationX, RotationY, RotationZ, TranslationPart, Vector
    if m[0] == 't':
        return TranslationPart(v=Vector(*[ex(v) for v in m[1:]]))
    cls = {'x': RotationX, 'y': RotationY, 'z': RotationZ}[m[0][0]]
    return cls(v=ex(m[1]), degrees=len(m[0]) == 1)


def ref(m, env):
    if m[0] == 't':
        return Affine(t=[env.get(v, v) for v in m[1:]])
    v = env.get(m[1], m[1])
    return Affine(geom.axis_rotation(m[0][0], v if len(m[0]) == 2 else deg(v)))


def numeric(p, env):
    """The transformation of one part of the implementation"""
    s = [num(e, env) for e in p.axes]
    return Affine([s[0:3], s[4:7], s[8:11]], [s[3], s[7], s[11]])


def product(parts, env):
    out = Affine()
    for p in parts:
        out = out.then(numeric(p, env))
    return out


def run_case(case):
    r = Result(states=1, transitions=0)
    globals()['_' + case[0]](case[1:], r)
    return r


def _chain(idx, r):
    from mccode_antlr.instr.orientation import Parts
    menu = [MENU[i] for i in idx]
    r.nontrivial = any(m[0] != 't' for m in menu)
    symbolic = any(isinstance(v, str) for m in menu for v in m[1:])
    stack = tuple(part(m) for m in menu)
    chain = Parts(stack)
    before = str([list(p.axes) for p in stack])
    envs = ENVS if symbolic else ENVS[:1]
    want = []
    for env in envs:
        w = Affine()
        for m in menu:
            w = w.then(ref(m, env))
        want.append(w)

    def same(what, got, w, tol=1e-9):
        r.transitions += 1
        if not geom.close(got.flat(), w.flat(), tol):
            r.problems.append((what, f'{menu}: {got.flat()} instead of {w.flat()}'))

    single = chain.resolve()
    red = chain.reduce()
    inv = chain.inverse()
    ident = chain - chain
    fewer = (chain - stack[-1]) if stack else chain
    summed = Parts(stack[:1]) + Parts(stack[1:])
    added = Parts(stack[:-1])
    if stack:
        added = added + stack[-1]
    for env, w in zip(envs, want):
        same('resolve', numeric(single, env), w)
        same('reduce', product(red.stack(), env), w)
        same('inverse', w.then(product(inv.stack(), env)), Affine())
        same('minus', product(ident.stack(), env), Affine())
        same('plus', product(summed.stack(), env), w)
        same('plus', product(added.stack(), env), w)
        if stack:
            same('minus-part', product(fewer.stack(), env).then(ref(menu[-1], env)), w)
            same('part-inverse', numeric(stack[0].inverse(), env).then(ref(menu[0], env)), Affine())
        if len(stack) > 1:
            same('part-product', numeric(stack[1] * stack[0], env), ref(menu[0], env).then(ref(menu[1], env)))
        same('reduce-twice', product(red.reduce().stack(), env), w)
        same('inverse-reduced', w.then(product(inv.reduce().stack(), env)), Affine())
        co = single.coordinates
        s = [num(e, env) for e in co]
        same('coordinates', w.then(Affine([s[0:3], s[4:7], s[8:11]], [s[3], s[7], s[11]])), Affine())
        pos = [num(e, env) for e in chain.position()]
        rot = [num(e, env) for e in chain.rotation()]
        same('position', Affine([rot[0:3], rot[3:6], rot[6:9]], pos), w)
    if any(a.is_constant and b.is_constant for a, b in zip(red.stack(), red.stack()[1:])):
        r.problems.append(('not-reduced', f'{menu}: adjacent constant parts remain: {red}'))
    if not symbolic:
        if len(red.stack()) > 1:
            r.problems.append(('not-reduced', f'{menu}: {red}'))
        rotated = not geom.close([x for row in want[0].r for x in row], [x for row in geom.EYE for x in row], 1e-9)
        moved = any(abs(x) > 1e-9 for x in want[0].t)
        if not moved:
            for unit in (True, False):
                a = [num(e, {}) for e in single.angles(degrees=unit)]
                back = geom.euler(*[deg(x) if unit else x for x in a])
                same('angles', Affine(back), want[0], 1e-6)
        if rotated != bool(single.is_rotation):
            r.problems.append(('is-rotation', f'{menu}: is_rotation {single.is_rotation}'))
        same('specialization', numeric(single.specialization(), {}), want[0], 1e-6)
    if str([list(p.axes) for p in stack]) != before:
        r.problems.append(('aliasing', f'{menu}: an operation changed its operand'))
    r.outcome = str(single)[:60]


def _euler(a, r):
    from mccode_antlr.instr.orientation import Rotation, Angles, axes_euler_angles, Parts, Vector
    want = Affine(geom.euler(*[deg(x) for x in a]))
    for unit in (True, False):
        given = Angles(*[ex(x if unit else deg(x)) for x in a])
        m = Rotation.from_angles(given, degrees=unit)
        f = [num(e, {}) for e in m]
        r.transitions += 2
        if not geom.close([x for row in want.r for x in row], f):
            r.problems.append(('from-angles', f'{a} degrees={unit}: {f}'))
        chain = Parts.from_at_rotated(Vector(), given, degrees=unit)
        if not geom.close(product(chain.stack(), {}).flat(), want.flat()):
            r.problems.append(('from-at-rotated', f'{a} degrees={unit}: {chain}'))
        back = [num(e, {}) for e in chain.resolve().angles(degrees=unit)]
        back = geom.euler(*[deg(x) if unit else x for x in back])
        if not geom.close([x for row in want.r for x in row], [x for row in back for x in row], 1e-6):
            r.problems.append(('angles', f'{a} degrees={unit}: {back}'))
    r.outcome = a


def _place(nodes, r):
    from mccode_antlr.instr.orientation import Orient, Vector, Angles
    degrees = nodes[-1] != 'radian'
    nodes = nodes if degrees else nodes[:-1]
    unit = (lambda v: v) if degrees else (lambda v: v if isinstance(v, str) else deg(v))
    third = [[a, rot, ra, rr] for a in ATS[1:] for rot in ([0, 0, 0], [10, 20, 30], [0, 'p', 0])
             for ra in (-1, 0, 1) for rr in (-1, 0, 1) if degrees or 'p' not in rot]
    made, wants = [], {i: [] for i in range(len(ENVS))}

    def add(node):
        at, rot, ra, rr = node
        o = Orient.from_dependent_orientations(None if ra < 0 else made[ra], Vector(*[ex(v) for v in at]),
                                               None if rr < 0 else made[rr], Angles(*[ex(unit(v)) for v in rot]), degrees=degrees)
        if ra == rr:
            # the same, said with one reference
            dep = None if ra < 0 else made[ra]
            one = Orient.from_dependent_orientation(dep, tuple(ex(v) for v in at), tuple(ex(unit(v)) for v in rot), degrees=degrees)
            for what in ('position', 'rotation', 'angles'):
                a, b = getattr(one, what)(), getattr(o, what)()
                if any(not geom.close([num(x, env) for x in a], [num(x, env) for x in b]) for env in ENVS):
                    r.problems.append(('one-reference', f'{nodes} {node} {what}: {a} instead of {b}'))
        made.append(o)
        for k, env in enumerate(ENVS):
            w = wants[k]
            own = geom.euler(*[deg(env.get(v, v)) for v in rot])
            pos = [env.get(v, v) for v in at]
            if ra >= 0:
                pr, pt = w[ra]
                pos = [x + y for x, y in zip(pt, geom.apply(geom.tr(pr), pos))]
            w.append((geom.mul(own, w[rr][0]) if rr >= 0 else own, pos))

    def check(o, which):
        for k, env in enumerate(ENVS):
            rw, tw = wants[k][which]
            r.transitions += 1
            pos = [num(e, env) for e in o.position()]
            rot = [num(e, env) for e in o.rotation()]
            coord = [num(e, env) for e in o.rotation('coordinates')]
            if not geom.close(pos, tw):
                r.problems.append(('placed-position', f'{nodes} {which}: {pos} instead of {tw}'))
            flat = [x for row in rw for x in row]
            if not geom.close(rot, flat):
                r.problems.append(('placed-rotation', f'{nodes} {which}: {rot} instead of {flat}'))
            if not geom.close(coord, [x for row in geom.tr(rw) for x in row]):
                r.problems.append(('placed-coordinates', f'{nodes} {which}: {coord}'))
            both = product(o.combine().stack(), env)
            if not geom.close(both.flat(), Affine(rw, tw).flat()):
                r.problems.append(('combine', f'{nodes} {which}: {both.flat()}'))
            less = o.reduce()
            if not geom.close(product(less.combine().stack(), env).flat(), Affine(rw, tw).flat()):
                r.problems.append(('reduce', f'{nodes} {which}: {less}'))
            undone = o.inverse()
            raw = product(undone.get_raw_rotation().stack(), env), product(undone.get_raw_position().stack(), env)
            if not geom.close(Affine(rw).then(raw[0]).flat(), Affine().flat()) or not geom.close(Affine(t=tw).then(raw[1]).flat(), Affine().flat()):
                r.problems.append(('placed-inverse', f'{nodes} {which}: {undone}'))
            a = [num(e, env) for e in o.angles()]
            back = [x for row in geom.euler(*[deg(x) if degrees else x for x in a]) for x in row]
            if not geom.close(back, flat, 1e-6):
                r.problems.append(('placed-angles', f'{nodes} {which} {env}: angles {a} give {back} instead of {flat}'))

    for node in nodes:
        add(node)
    for i in range(len(nodes)):
        check(made[i], i)
    for node in third:
        add(node)
        r.states += 1
        check(made[-1], len(nodes))
        made.pop()
        for w in wants.values():
            w.pop()
    r.outcome = str(made[-1].position())[:60]


def _vectors(a, r):
    """Sums, differences, multiples, lengths and cross products of vectors and angles, against plain numbers"""
    from mccode_antlr.instr.orientation import Vector, Angles
    from mccode_antlr.common import Expr
    one = VECTORS[a[0]]
    value = lambda v, env: [float(env.get(x, x)) for x in v]
    got_of = lambda v, env: [num(e, env) for e in v]

    def same(what, got, want, env):
        r.transitions += 1
        if not geom.close(got, want):
            r.problems.append((what, f'{what} {a} {env}: {got} instead of {want}'))

    for env in ENVS:
        v, u = Vector(*[ex(x) for x in one]), value(one, env)
        same('length', [num(v.length(), env)], [math.sqrt(sum(x * x for x in u))], env)
        same('null', [v.is_null()], [not any(x != 0 for x in one)], env)
        m = v.cross_matrix()
        for other in VECTORS:
            w, z = Vector(*[ex(x) for x in other]), value(other, env)
            r.states += 1
            for cls in (Vector, Angles):
                s, t = cls(*v), cls(*w)
                for what, res, want in (('plus', s + t, [x + y for x, y in zip(u, z)]), ('minus', s - t, [x - y for x, y in zip(u, z)])):
                    if not isinstance(res, cls):
                        r.problems.append(('kind', f'{what} of two {cls.__name__} is {type(res)}'))
                    same(what, got_of(res, env), want, env)
            same('cross', got_of(m * w, env), [u[1] * z[2] - u[2] * z[1], u[2] * z[0] - u[0] * z[2], u[0] * z[1] - u[1] * z[0]], env)
        for k in (2, -0.5, 'p', 'q'):
            f = env.get(k, k)
            same('times', got_of(v * ex(k), env), [x * f for x in u], env)
            same('times', got_of(Angles(*v) * ex(k), env), [x * f for x in u], env)
            same('divided', got_of(v / ex(k), env), [x / f for x in u], env)
        same('unchanged', got_of(v, env), u, env)
    r.outcome = str(v)


def _matrices(a, r):
    """Sums, differences, products of matrices with matrices, vectors and numbers; absolute and rounded values"""
    from mccode_antlr.instr.orientation import Matrix, Vector, Rotation, Seitz
    one = MATRICES[a[0]]
    value = lambda v, env: [float(env.get(x, x)) for x in v]
    got_of = lambda v, env: [num(e, env) for e in v]
    rows = lambda f: [f[0:3], f[3:6], f[6:9]]
    mul = lambda f, g: [sum(f[3 * i + k] * g[3 * k + j] for k in range(3)) for i in range(3) for j in range(3)]

    def same(what, got, want, env):
        r.transitions += 1
        if not geom.close(got, want):
            r.problems.append((what, f'matrix {what} {a} {env}: {got} instead of {want}'))

    m = Matrix(*[ex(x) for x in one])
    rotation = Rotation(*m)
    constant = all(not isinstance(x, str) for x in one)
    same('eye', got_of(Matrix.eye(), {}), MATRICES[1], {})
    same('default', got_of(Rotation(), {}), MATRICES[1], {})
    if constant:
        same('abs', got_of(abs(m), {}), [abs(x) for x in one], {})
        for n in (0, 1, 2):
            same('round', got_of(round(m, n), {}), [round(x, n) for x in one], {})
    for env in ENVS:
        u = value(one, env)
        same('transpose', got_of(rotation.transpose(), env), [u[3 * j + i] for i in range(3) for j in range(3)], env)
        for other in MATRICES:
            r.states += 1
            w, z = Matrix(*[ex(x) for x in other]), value(other, env)
            same('plus', got_of(m + w, env), [x + y for x, y in zip(u, z)], env)
            same('minus', got_of(m - w, env), [x - y for x, y in zip(u, z)], env)
            same('rotation-minus', got_of(rotation - Rotation(*w), env), [x - y for x, y in zip(u, z)], env)
            same('product', got_of(m * w, env), mul(u, z), env)
            same('rotation-product', got_of(rotation * Rotation(*w), env), mul(u, z), env)
            # with a translation each: (A t)(B s) = AB, As + t
            t, s = [1, -2, 3], [0.5, 4, -1]
            left = Seitz(*u_rows(m, t))
            right = Seitz(*u_rows(w, s))
            same('seitz', got_of((left * right).rotation(), env), mul(u, z), env)
            same('seitz', got_of((left * right).vector(), env), [sum(u[3 * i + k] * s[k] for k in range(3)) + t[i] for i in range(3)], env)
        for vec in VECTORS:
            v, z = Vector(*[ex(x) for x in vec]), value(vec, env)
            want = [sum(u[3 * i + k] * z[k] for k in range(3)) for i in range(3)]
            same('apply', got_of(m * v, env), want, env)
            same('apply', got_of(rotation * v, env), want, env)
            same('apply-left', got_of(v * m, env), [sum(u[3 * k + i] * z[k] for k in range(3)) for i in range(3)], env)
            same('from-vector', got_of(Seitz.from_vector(v).vector(), env), z, env)
        for k in (2, -0.5, 'p'):
            same('times', got_of(m * ex(k), env), [x * env.get(k, k) for x in u], env)
        lone = Seitz.from_rotation(rotation)
        same('from-rotation', got_of(lone.rotation(), env), u, env)
        same('from-rotation', got_of(lone.vector(), env), [0, 0, 0], env)
        same('trace', [num(lone.trace(), env)], [u[0] + u[4] + u[8]], env)
    r.outcome = str(rotation)


def u_rows(m, t):
    """A matrix and a translation, as the 12 entries of a projective transformation"""
    m = list(m)
    return [*m[0:3], ex(t[0]), *m[3:6], ex(t[1]), *m[6:9], ex(t[2])]
