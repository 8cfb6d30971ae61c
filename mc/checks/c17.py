"""C17: user variables belong to each particle, and everything found by name at run time is exactly the thing named."""
import itertools, os, re
from ..base import Result
from .. import cgen

PID = 'C17'
LEVEL = 'model_checking'
ASSUMPTIONS = ['particle_getvar and particle_getuservar_byid are compared for variables of type double only, since they return doubles',
               'variables which are no plain double, MCNUM or int are compared after they were first set, since only plain ones start as zero']
BOUND = ('every set of up to 2 (thorough: 3) user variables of a menu of types and (similar) names for the instrument with every set of up to 2 for two component types with 1 or 2 instances; '
         'every sequence of 3 operations setting one of the variables or particle properties in one of the possible ways, each followed by reading everything in every way')
CHUNK = 2
# name, declaration, C type, number of elements (0: scalar)
MENU = [('flag', 'double flag', 'double', 0), ('fla', 'double fla', 'double', 0), ('count', 'int count', 'int', 0), ('num', 'MCNUM num', 'double', 0), ('list', 'double list[3]', 'double', 3),
        ('text', 'char text[8]', 'char', 8), ('ptr', 'double *ptr', 'double *', 0), ('flag_1', 'double flag_1', 'double', 0), ('big', 'unsigned long long big', 'unsigned long long', 0), ('Flag', 'double Flag', 'double', 0),
        ('vxx', 'double vxx', 'double', 0)]
OWN = [('own', 'double own', 'double', 0), ('tag', 'int tag', 'int', 0), ('flag', 'double flag', 'double', 0), ('mem', 'double mem[2]', 'double', 2), ('ow', 'double ow', 'double', 0)]
NEUTRON = ['x', 'y', 'z', 'vx', 'vy', 'vz', 'sx', 'sy', 'sz', 't', 'p', '_mctmp_a', '_mctmp_b', '_mctmp_c']
XRAY = ['x', 'y', 'z', 'kx', 'ky', 'kz', 'phi', 'Ex', 'Ey', 'Ez', 't', 'p', '_mctmp_a', '_mctmp_b', '_mctmp_c']
START = {'vz': 1.0, 'p': 1.0, 'kz': 1.0}


def sets(n, most):
    return [list(c) for k in range(most + 1) for c in itertools.combinations(range(n), k)]


def cases(tier):
    q = tier == 'quick'
    k = 0
    for i in sets(len(MENU), 2 if q else 3):
        for o in sets(len(OWN), 1 if q else 2):
            k += 1
            if q and o and len(i) == 2 and k % 3:
                continue
            yield ['values', 'mcstas', i, o, k % 3]
    for i in range(len(MENU)):
        yield ['values', 'mcxtrace', [i], [i % len(OWN)], i % 3]
    for i, j in itertools.combinations(range(len(OWN)), 2):
        yield ['values', 'mcstas', [], [i, j], 2]
    for k in range(len(STATEMENTS)):
        yield ['statements', k]
    for i in range(len(CONFLICTS)):
        yield ['conflict', i]
    for n in range(1, 5 if q else 6):
        for first in range(len(NAMES) - n + 1):
            yield ['lookup', 'mcstas', first, n]
    for w in range(4):
        yield ['particles', w]
    yield ['lookup', 'mcxtrace', 0, 4]


def run_case(case):
    r = Result(states=0, transitions=0)
    globals()['_' + case[0]](case[1:], r)
    return r


# how the USERVARS block can be written: joined in one statement, or each by itself
def block(decls, style):
    if not decls:
        return ''
    if style == 0:
        return 'USERVARS %{\n' + ''.join(f'  {d};\n' for d in decls) + '%}\n'
    if style == 1:
        return 'USERVARS %{' + ' '.join(f'{d};' for d in decls) + ' /* double none; */ %}\n'
    return 'USERVARS\n%{\n// all of them\n' + '\n\n'.join(f'{d} ;' for d in decls) + '\n%}\n'


def reading(names, types, doubles, ids):
    """C code printing every variable as seen by every way of reading it"""
    out = ['static void show(_class_particle *_particle) { int s; void *q; double d; printf("<");']
    for n in names:
        typ, many = types[n]
        size = f'sizeof(_particle->{n})'
        out.append(f'printf("{n}:"); hex(&_particle->{n}, {size});')
        out.append(f's = 9; q = particle_getvar_void(_particle, "{n}", &s); if (s != 0 || q != (void *) &_particle->{n}) printf("!void");')
        out.append(f'if (particle_getvar_void(_particle, "{n}", NULL) != q) printf("!null");')
        if n in doubles:
            out.append(f's = 9; d = particle_getvar(_particle, "{n}", &s); if (s != 0 || memcmp(&d, &_particle->{n}, sizeof(double))) printf("!getvar");')
        if n in ids:
            out.append(f'if (_get_particle_var("{n}", _particle) != (void *) &_particle->{n}) printf("!macro");')
            if n in doubles:
                out.append(f's = 9; d = particle_getuservar_byid(_particle, {ids[n]}, &s); if (s != 0 || memcmp(&d, &_particle->{n}, sizeof(double))) printf("!byid");')
        out.append('printf(" ");')
    for n in UNKNOWN:
        if n not in names:
            out.append(f's = 0; particle_getvar(_particle, "{n}", &s); if (s == 0) printf("!known {n}"); s = 0; particle_getvar_void(_particle, "{n}", &s); if (s == 0) printf("!void {n}");')
            out.append(f'd = 3; if (particle_setvar_void(_particle, "{n}", &d) == 0) printf("!set {n}"); if (_get_particle_var("{n}", _particle)) printf("!macro {n}");')
    out.append(f's = 0; particle_getuservar_byid(_particle, {len(ids)}, &s); if (s == 0) printf("!id"); s = 0; particle_getuservar_byid(_particle, -1, &s); if (s == 0) printf("!id");')
    out.append('printf(">\\n"); }')
    return '\n'.join(out)


UNKNOWN = ['fl', 'flag2', 'FLAG', '', 'own', 'flags', 'own_9', 'own_', 'v', '_mctmp', 'list[0]']


def _values(args, r):
    """All sequences of three operations"""
    flavour, own_i, own_o, style = args
    ivars = [MENU[k] for k in own_i]
    ovars = [OWN[k] for k in own_o]
    # instances: 1 ops, 2 a (type One), 3 b (type Two), 4 c (type One), ...
    inst = [('a', 'One', 2), ('b', 'Two', 3), ('c', 'One', 4)]
    variables = [(n, t, k) for n, _, t, k in ivars]
    for n, _, t, k in ovars:
        variables += [(f'{n}_{i}', t, k) for _, typ, i in inst if typ == 'One']
    if ovars:
        n, _, t, k = ovars[0]
        variables.append((f'{n}_3', t, k))
    if len({v[0] for v in variables}) < len(variables):
        return
    members = NEUTRON if flavour == 'mcstas' else XRAY
    types = {n: (t, k) for n, t, k in variables}
    types.update({m: ('double', 0) for m in members})
    names = [v[0] for v in variables] + members
    # operations: (variable, way, value)
    ops = [None]
    value = 1
    for n, t, k in variables:
        ways = ['member', 'void'] if not k and '*' not in t else ['member', 'array']
        for w in ways + ['extend']:
            value += 1
            ops.append((n, w, value))
    for m in members[:5:2] if len(variables) > 3 else members[::2]:
        value += 1
        ops.append((m, 'void', value))
    ops.append((members[-1], 'void', value + 1))
    if len(ops) > 21:
        ops = ops[:21]

    def assign(target, n, v):
        t, k = types[n]
        if k:
            return ''.join(f'{target}[{j}] = {v + j};' for j in range(k))
        return f'{target} = ({t}) {f"(size_t) {v}" if "*" in t else v};'

    def setter(n, way, v):
        t, k = types[n]
        if way == 'member':
            return assign(f'_particle->{n}', n, v)
        if way == 'void':
            return f'{{ {t} value = {v}; if (particle_setvar_void(_particle, "{n}", &value)) printf("!setvar"); }}'
        if way == 'array':
            m = k or 1
            return f'{{ {t} value[{m}]; int j; for (j = 0; j < {m}; j++) value[j] = ({t}) ({"(size_t)" if "*" in t else ""} ({v} + j)); if (particle_setvar_void_array(_particle, "{n}", value, {m})) printf("!array"); }}'
    switch = ''.join(f'case {i}: {setter(*o)} break;\n' for i, o in enumerate(ops) if o and o[1] != 'extend')
    K = len(ops)
    show = reading(names, types, [n for n in names if types[n] == ('double', 0)], {v[0]: i for i, v in enumerate(order(variables, ivars, ovars, inst))})
    # the handlers are declared in the header, but the macro lookup is not
    share = 'void *_get_particle_var(char *token, _class_particle *p);\nstatic void hex(void *p, size_t n) { size_t k; for (k = 0; k < n; k++) printf("%02x", ((unsigned char *) p)[k]); }\n' + show + \
        f'\nstatic int which(_class_particle *_particle, int step) {{ long k = _particle->_uid; while (step--) k /= {K}; return k % {K}; }}\n' \
        f'static void operate(_class_particle *_particle, int step) {{ switch (which(_particle, step)) {{\n{switch} default: break; }} }}\n'
    trace = 'TRACE %{ operate(_particle, step); %}\n'

    def extend(step, i):
        """Code of the EXTEND block of instance i, where the variables of its type and of the instrument are known by name"""
        typ = {k: t for _, t, k in inst}.get(i)
        mine = [v[0] for v in variables if v[0] in [x[0] for x in ivars] or any(v[0] == f'{x[0]}_{k}' for x in (ovars if typ == 'One' else ovars[:1] if typ == 'Two' else []) for _, t, k in inst if t == typ)]
        return 'EXTEND %{ switch (which(_particle, ' + str(step) + ')) {\n' + \
            ''.join(f'case {j}: {assign(o[0] if o[0] in mine else "_particle->" + o[0], o[0], o[2])} break;\n' for j, o in enumerate(ops) if o and o[1] == 'extend') + \
            'default: break; } show(_particle); %}\n'
    comps = {'Ops.comp': 'DEFINE COMPONENT Ops\nSHARE %{\n' + share + '%}\nTRACE %{ show(_particle); %}\nEND\n',
             'One.comp': 'DEFINE COMPONENT One\nSETTING PARAMETERS (int step=0)\n' + block([d for _, d, _, _ in ovars], style) + trace + 'END\n',
             'Two.comp': 'DEFINE COMPONENT Two\nSETTING PARAMETERS (int step=0)\n' + block([d for _, d, _, _ in ovars[:1]], style) + trace + 'END\n'}
    text = 'DEFINE INSTRUMENT user()\n' + block([d for _, d, _, _ in ivars], style) + 'TRACE\nCOMPONENT o = Ops() AT (0,0,0) ABSOLUTE\n' + \
        ''.join(f'COMPONENT {n} = {t}(step={s}) AT (0,0,0) ABSOLUTE\n{extend(s, i)}' for s, (n, t, i) in enumerate(inst)) + 'END\n'
    reg = cgen.local(f'c17-{os.getpid()}', comps)
    label = f'{flavour}: instrument {[x[1] for x in ivars]}, component {[x[1] for x in ovars]}'
    try:
        exe = cgen.build(cgen.translate(cgen.parse(text, [reg]), flavour == 'mcstas'), ['-DGARBAGE'])
    except Exception as e:
        r.problems.append(('build', f'{label}: {type(e).__name__}: {str(e)[:500]}'))
        return
    n = K ** 3
    code, out = cgen.execute(exe, n, timeout=120)
    if code != 0:
        r.problems.append(('run', f'{label}: ended with {code}'))
        return
    lines = [x for x in out.split('\n') if x.startswith('<') or '!' in x]
    if len(lines) != 4 * n:
        r.problems.append(('run', f'{label}: {len(lines)} lines of {4 * n}: {lines[:2]}'))
        return
    import struct
    fmt = {'double': 'd', 'int': 'i', 'char': 'b', 'unsigned long long': 'Q', 'double *': 'Q'}

    def coded(n, v):
        t, k = types[n]
        return struct.pack('=' + str(k or 1) + fmt[t], *[(float(v + j) if t == 'double' else v + j) for j in range(k or 1)]).hex() if v is not None else None

    zero = {x: struct.pack('=' + fmt[types[x][0]], 0).hex() for x in names if types[x][1] == 0 and types[x][0] in ('double', 'int')}
    for x, v in START.items():
        if x in zero:
            zero[x] = struct.pack('=d', v).hex()
    after = {(x, v): coded(x, v) for x, w, v in (o for o in ops if o)}
    for k in range(n):
        state = dict(zero)
        for step in range(4):
            if step:
                o = ops[k // K ** (step - 1) % K]
                if o:
                    state[o[0]] = after[o[0], o[2]]
            line = lines[4 * k + step]
            r.transitions += 1
            if '!' in line:
                r.problems.append(('lookup', f'{label}: {line[:600]}'))
                return
            got = dict(x.split(':') for x in line[1:-1].split())
            bad = [x for x in state if got[x] != state[x]]
            if bad:
                done = [ops[k // K ** j % K] for j in range(step)]
                r.problems.append(('value', f'{label}: after {done} {bad[0]} is {got[bad[0]]} instead of {state[bad[0]]}'))
                return
    r.states += n
    r.traces += n


def order(variables, ivars, ovars, inst):
    """In the order of the ids: the instrument's, then those of the component types as they come, instance by instance"""
    out = [v for v in variables if v[0] in [x[0] for x in ivars]]
    for typ in ('One', 'Two'):
        mine = ovars if typ == 'One' else ovars[:1]
        for _, t, i in inst:
            if t == typ:
                for n, _, ct, k in mine:
                    out += [v for v in variables if v[0] == f'{n}_{i}']
    return out


STATEMENTS = [('double a, b;', ['a', 'b']), ('double a; double b;', ['a', 'b']), ('double a,b[2],*c;', ['a', 'b', 'c']), ('double a;\n#ifdef NOT\n#endif\nint b;', None), ('/* double x1; */ double a;', ['a']),
              ('double a;\ndouble a;', ['a']), ('pair_t a;', ['a']), ('struct tagged a; enum colour b;', ['a', 'b']), ('double (*f)(double);', ['f']), ('long double a; unsigned char b;', ['a', 'b']),
              ('double a[2][2]; char s[SIZE];', ['a', 's'])]


def _statements(args, r):
    """Any C declarations can be used"""
    text, names = STATEMENTS[args[0]]
    if names is None:
        return
    share = 'typedef struct {int i; double d;} pair_t; struct tagged {int j;}; enum colour {RED}; \n#define SIZE 4\n'
    # types of SHARE blocks are not known yet where particles are defined: only those without are used by the instrument
    own = not any(x in text for x in ('pair_t', 'struct', 'enum', 'SIZE'))
    for where in ('instrument', 'component'):
        if not own:
            continue
        r.states += 1
        suffix = '' if where == 'instrument' else '_2'
        reads = ' '.join(f'printf("{n} %zu %d;", sizeof(_particle->{n}{suffix}), particle_getvar_void(_particle, "{n}{suffix}", NULL) == (void *) &_particle->{n}{suffix});' for n in names)
        comps = {'First.comp': 'DEFINE COMPONENT First\nTRACE %{ %}\nEND\n',
                 'Show.comp': 'DEFINE COMPONENT Show\nSHARE %{' + share + '%}\n' + ('USERVARS %{ ' + text + ' %}\n' if where == 'component' else '') + 'TRACE %{ printf("<"); ' + reads + ' printf(">\\n"); %}\nEND\n'}
        instr = 'DEFINE INSTRUMENT s()\n' + ('USERVARS %{ ' + text + ' %}\n' if where == 'instrument' else '') + 'TRACE\nCOMPONENT f = First() AT (0,0,0) ABSOLUTE\nCOMPONENT s = Show() AT (0,0,0) ABSOLUTE\nEND\n'
        reg = cgen.local(f'c17s-{os.getpid()}', comps)
        from .c16 import gcc
        _, want = gcc('#include <stdio.h>\n' + share + 'struct s {' + (text if text != 'double a;\ndouble a;' else 'double a;') + '} p; int main(void) { printf("<"); ' +
                      ' '.join(f'printf("{n} %zu 1;", sizeof(p.{n}));' for n in names) + 'printf(">"); return 0; }')
        r.transitions += 1
        try:
            code, out = cgen.execute(cgen.build(cgen.translate(cgen.parse(instr, [reg]))), 1)
        except Exception as e:
            r.problems.append(('statements', f'{where} USERVARS {text!r}: {type(e).__name__}: {str(e)[:300]}'))
            continue
        if want not in out:
            r.problems.append(('statements', f'{where} USERVARS {text!r}: {out} but expected {want}'))


# instrument's, component's, whether it is in conflict
CONFLICTS = [('double a;', 'double a;', False), ('double a; int a;', '', True), ('', 'double a; int a;', True), ('double a_2;', 'double a;', False), ('int a_2;', 'double a;', True), ('double a; double a;', 'double b;', False),
             ('double a_1;', 'int a;', False), ('double a[2];', 'double *a;', False), ('double a[2]; double a[3];', '', True), ('double a; double *a;', '', True), ('', 'double a; double a[2];', True)]


def _conflict(args, r):
    """The same name for different things is refused; the same thing twice is one"""
    ivars, ovars, bad = CONFLICTS[args[0]]
    comps = {'First.comp': 'DEFINE COMPONENT First\nTRACE %{ %}\nEND\n', 'Own.comp': 'DEFINE COMPONENT Own\n' + (f'USERVARS %{{ {ovars} %}}\n' if ovars else '') + 'TRACE %{ %}\nEND\n'}
    text = 'DEFINE INSTRUMENT c()\n' + (f'USERVARS %{{ {ivars} %}}\n' if ivars else '') + 'TRACE\nCOMPONENT f = First() AT (0,0,0) ABSOLUTE\nCOMPONENT o = Own() AT (0,0,0) ABSOLUTE\nEND\n'
    r.states += 1
    r.transitions += 1
    reg = cgen.local(f'c17c-{os.getpid()}', comps)
    if not bad:
        try:
            cgen.execute(cgen.build(cgen.translate(cgen.parse(text, [reg]))), 1)
        except Exception as e:
            r.problems.append(('conflict', f'instrument {ivars!r} and component {ovars!r}: {type(e).__name__}: {str(e)[:300]}'))
        return
    try:
        cgen.translate(cgen.parse(text, [reg]))
    except Exception:
        return
    r.problems.append(('conflict', f'instrument {ivars!r} and component {ovars!r} are accepted'))


def _particles(args, r):
    """Each particle has its own: what was set for one is not seen by the next, and copies made by SPLIT start with the value of the original"""
    w = args[0]
    split = 'SPLIT 3 ' if w % 2 else ''
    flags = ['-DGARBAGE'] + (['-DFUNNEL'] if w > 1 else [])
    comps = {'Add.comp': 'DEFINE COMPONENT Add\nUSERVARS %{ double total; int many; %}\nTRACE %{ %}\nEND\n',
             'Show.comp': 'DEFINE COMPONENT Show\nTRACE %{ %}\nEND\n'}
    show = 'show_all(_particle);'
    comps['Show.comp'] = 'DEFINE COMPONENT Show\nSHARE %{ static void show_all(_class_particle *q) { printf("<%lld %g %d %g %d %g>\\n", q->_uid, q->u, q->m, q->total_1, q->many_1, q->total_3); } %}\nTRACE %{ %}\nEND\n'
    text = 'DEFINE INSTRUMENT s()\nUSERVARS %{ double u; int m; %}\nTRACE\nCOMPONENT a = Add() AT (0,0,0) ABSOLUTE\nEXTEND %{ u += _particle->_uid + 1; m++; total_1 += 2*u; many_1--; %}\n' \
           f'{split}COMPONENT s = Show() AT (0,0,0) ABSOLUTE\nEXTEND %{{ u += 10; {show} u += 1000; %}}\nCOMPONENT b = Add() AT (0,0,0) ABSOLUTE\nEXTEND %{{ total_3 += u; {show} %}}\nEND\n'
    reg = cgen.local(f'c17p-{os.getpid()}', comps)
    r.states += 1
    try:
        code, out = cgen.execute(cgen.build(cgen.translate(cgen.parse(text, [reg])), flags), 3)
    except Exception as e:
        r.problems.append(('particles', f'{w}: {type(e).__name__}: {str(e)[:300]}'))
        return
    got = sorted(x for x in out.split('\n') if x.startswith('<'))
    n = (3 if w == 1 else 1)
    want = sorted(f'<{k} {k + 11 + more} 1 {2 * (k + 1)} -1 {0 if more == 0 else k + 11 + more}>' for k in range(3) for more in (0, 1000) for _ in range(n))
    r.transitions += len(want)
    if w == 3:
        # copies fill up the buffer, which has no room for any here
        want = sorted(set(want))
    if got != want:
        r.problems.append(('particles', f'{w}: {got} but expected {want}'))


NAMES = ['a', 'ab', 'A', 'abc', 'b', 'a_1', 'x', 'index', 'a1']


def _lookup(args, r):
    """Components and their parameters are found by name"""
    flavour, first, n = args
    names = NAMES[first:first + n]
    for order_ in itertools.permutations(names) if n < 4 else [names, names[::-1]]:
        r.states += 1
        checks = ''.join(f'printf("%d %g;", _getcomp_index("{m}"), _getvar_parameters("{m}") ? *(double *) _getvar_parameters("{m}") : -1);' for m in NAMES + ['none', '', 'aa', 'B'])
        comps = {'Par.comp': 'DEFINE COMPONENT Par\nSETTING PARAMETERS (double value=0)\nTRACE %{ %}\nEND\n'}
        text = 'DEFINE INSTRUMENT look()\nDECLARE %{ void *_getvar_parameters(char *); int _getcomp_index(char *); %}\nTRACE\n' + ''.join(f'COMPONENT {m} = Par(value={10 + i}) AT (0,0,{i}) ABSOLUTE\n' for i, m in enumerate(order_)) + \
               f'FINALLY %{{ printf("<"); {checks} printf(">\\n"); %}}\nEND\n'
        reg = cgen.local(f'c17l-{os.getpid()}', comps)
        try:
            code, out = cgen.execute(cgen.build(cgen.translate(cgen.parse(text, [reg]), flavour == 'mcstas')), 1)
        except Exception as e:
            r.problems.append(('lookup', f'{order_}: {type(e).__name__}: {str(e)[:300]}'))
            return
        want = '<' + ''.join(f'{order_.index(m) + 1} {10 + order_.index(m)};' if m in order_ else '-1 -1;' for m in NAMES + ['none', '', 'aa', 'B']) + '>'
        r.transitions += len(NAMES) + 4
        if want not in out:
            r.problems.append(('lookup', f'{order_}: {out} but expected {want}'))
            return
