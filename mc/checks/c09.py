"""C09: parameters reach the generated program with the values the instrument gives them, in every section."""
import itertools, ast, re
from ..base import Result
from .. import cgen, cexpr

PID = 'C09'
LEVEL = 'model_checking'
ASSUMPTIONS = ['the C runtime is a stand-in (mc/cgen.py); generated C is compiled with the system gcc and executed',
               'a real value given to an integer parameter is truncated, as C does',
               'a string parameter without a value, or given NULL or 0, is empty']
BOUND = ('for every declared parameter type and default (real, int, string, vector), an instance for every value in a menu (literals, '
         'instrument parameters, expressions, calls, conditionals, DECLAREd variables, NULL, nothing), alone and in pairs of parameters; every '
         'instrument parameter type with every default in a menu; DECLAREd component variables with every initialiser in a menu; each '
         'under default and two other parameter assignments; values observed in INITIALIZE, TRACE, SAVE, FINALLY and MCDISPLAY; '
         'non-trivial: the value is not simply the default')
CASE_SECONDS = 200
CHUNK = 1

ENVS = [{}, dict(dp='2.5', ip='3', sp='given text', q='-0.25'), dict(dp='-1e-3', ip='-7', sp='', q='12')]
DEFAULT = dict(dp='0.5', ip='4', sp='preset', q='1.25')
REAL = ['3', '-4', '1e-3', '.5', '2.', '-1.5e+2', 'dp', 'ip', 'dp*2+ip', '-dp', 'sin(dp)', 'dp > 1 ? 2 : 3', 'gvar', 'gvar*dp', '0', 'q', '2*q', 'dp - -q',
        'pow(dp, 2)', 'ip == 3', '(dp + q)*(dp - q)', 'fabs(q) - 1', 'arr[1]', 'data.y', 'ptr->y', '1/4.0', 'getnum()', '2*getnum() - dp']
INT = ['3', '-4', '0', 'ip', 'ip + 1', '-ip', 'ip*2 - 7', 'ip > 0 ? 1 : -1', 'gint', '7/2', 'ip == 3', 'abs(ip)', 'arr2[1]']
STR = ['"text"', '""', '"a, b"', r'"a\nb"', 'sp', 'gstr', 'NULL', '"%d %s"', '"a.dat"', r'"back\\slash"', r'"say \"hi\""', '"x=(1)"',
       'ip > 3 ? sp : gstr', 'ip > 3 ? "many" : "few"', 'names[1]']
VEC = ['{1,2,3}', '{-1, .5, 2e3}', '{dp, 2*dp, ip}', 'gptr', 'NULL', '{4}', '{-dp, q + 1, sin(q)}', 'gptr + 1', 'getvec()', 'ip > 3 ? gptr : other', 'holder.list']
KINDS = {   # declaration with %s the name: (menu, type)
    'real': ['%s', 'double %s', '%s=2.5', 'double %s=-1e-3', '%s=0', 'double %s=3', '%s=1.5*2'],
    'int': ['int %s', 'int %s=7', 'int %s=-2', 'int %s=0'],
    'string': ['string %s', 'string %s="def ault"', 'string %s=NULL', 'string %s=0', 'char *%s="other"', 'string %s=""'],
    'vector': ['vector %s', 'vector %s=NULL', 'vector %s={7,8,9}', 'double *%s=NULL', 'vector %s=0'],
    'ints': ['int *%s=NULL', 'int *%s={7,8,9}', 'int *%s'],
}
MENU = dict(real=REAL, int=INT, string=STR, vector=VEC, ints=['{1,2,3}', '{-1, ip, 4}', 'giptr', 'NULL', 'giptr + 0'])
INSTR_PARS = ['%s', 'double %s', '%s=1', 'double %s=-2.5', '%s=1e-6', 'int %s', 'int %s=5', 'int %s=-3', 'string %s', 'string %s="abc"',
              'string %s="a b, c"', 'string %s=NULL', '%s=1+2', 'double %s=2*(3-5)', '%s/"m"=3', 'int %s/"count"=8', 'string %s/"name"="n"',
              'string %s=""', 'double %s=0', 'int %s=0', '%s=-1/4.0']
DECLS = [  # (declaration, C expression printing it, expected)
    ('double d=2.5;', 'printf("%.17g", d)', '2.5'), ('int d;', 'printf("%d", d)', '0'), ('int d = 1 + 2;', 'printf("%d", d)', '3'),
    ('double d[3] = {1, 2.5, -3};', 'printf("%g %g %g", d[0], d[1], d[2])', '1 2.5 -3'), ('char *d = "abc";', 'printf("%s", d)', 'abc'),
    ('double *d;', 'printf("%d", d == NULL)', '1'), ('double *d = NULL;', 'printf("%d", d == NULL)', '1'),
    ('int a, d = 4;', 'printf("%d %d", a, d)', '0 4'), ('double d, *e;', 'printf("%g %d", d, e == NULL)', '0 1'),
    ('char d[20];', 'printf("[%s]", d)', '[]'), ('int d[2][3];', 'printf("%d", d[1][2])', '0'), ('struct pair {int a; int b;} d;', 'printf("%d", d.b)', '0'),
    ('double d = -1e-3;', 'printf("%g", d)', '-0.001'), ('long d = 10; unsigned int e = 3;', 'printf("%ld %u", d, e)', '10 3'),
    ('MyType d;', 'printf("%g", d.w)', '0'), ('MyType *d;', 'printf("%d", d == NULL)', '1'), ('double d = 1, e = 2, f;', 'printf("%g %g %g", d, e, f)', '1 2 0'),
    ('int d[3] = {4, 5, 6}; double e = 1.5;', 'printf("%d %d %d %g", d[0], d[1], d[2], e)', '4 5 6 1.5'),
    ('/* nothing, really */ int d = 3; // int e;', 'printf("%d", d)', '3'), ('double d = 2*PI/PI;', 'printf("%g", d)', '2'),
    ('FILE *d;', 'printf("%d", d == NULL)', '1'), ('unsigned long long d = 5;', 'printf("%llu", d)', '5'), ('const char *d = "x,y";', 'printf("%s", d)', 'x,y'),
    ('char d = 65;', 'printf("%c", d)', 'A'), ("char d = 'z';", 'printf("%c", d)', 'z'), ('double **d;', 'printf("%d", d == NULL)', '1'),
    ('int (*d)(int);', 'printf("%d", d == NULL)', '1'), ('char d[4] = {65, 66, 0, 0};', 'printf("%s", d)', 'AB'),
    ('double *d[2];', 'printf("%d", d[1] == NULL)', '1'), ('int d = 3 > 2 ? 8 : 9;', 'printf("%d", d)', '8'), ('double d = (1 + 2)*3;', 'printf("%g", d)', '9'),
]


def cases(tier):
    for kind, decls in KINDS.items():
        for d in range(len(decls)):
            yield ['setting', 'mcstas', kind, d]
    for i in range(len(INSTR_PARS)):
        yield ['instrument', 'mcstas', [i]]
    n = len(INSTR_PARS)
    for i, j in itertools.product(range(n), repeat=2):
        if i != j:
            yield ['instrument', 'mcstas', [i, j]]
    for i in range(len(DECLS)):
        yield ['declare', 'mcstas', i]
    kinds = [(k, d) for k, decls in KINDS.items() for d in range(len(decls))]
    for (k1, d1), (k2, d2) in itertools.product(kinds, repeat=2):
        yield ['pair', 'mcstas', k1, d1, k2, d2]
    for name in ('dp', 'ip', 'sp', 'q'):
        yield ['names', 'mcstas', name]
    for kind, decls in KINDS.items():
        for d in range(len(decls)):
            yield ['setting', 'mcxtrace', kind, d]
    if tier != 'quick':
        for (k1, d1), (k2, d2) in itertools.product(kinds, repeat=2):
            yield ['pair', 'mcxtrace', k1, d1, k2, d2]
        for ijk in itertools.product(range(0, n, 2), repeat=3):
            if len(set(ijk)) == 3:
                yield ['instrument', 'mcxtrace', list(ijk)]


HEAD = r'''DEFINE INSTRUMENT values(double dp=0.5, int ip=4, string sp="preset", q=1.25)
DECLARE %{
double gvar; int gint; double gptr[4]; int giptr[3]; char *gstr; char *names[2] = {"first name", "second name"}; double arr[3]; int arr2[2]; struct xyz {double x, y, z;} data, *ptr = &data; double other[4] = {1, 2, 3, 4}; struct {double *list;} holder = {other};
double getnum(void) { return 6.5; } double *getvec(void) { return gptr; }
%}
INITIALIZE %{
gvar = 10*dp; gint = 2*ip; gstr = "global text"; gptr[0] = 5; gptr[1] = dp; gptr[2] = 7; gptr[3] = 9; giptr[0]=1; giptr[1]=ip; giptr[2]=3; arr[1] = dp + 1; arr2[1] = 9; data.y = q;
printf("S initialize %.17g %d [%s] %.17g\n", dp, ip, sp, q);
%}
TRACE
'''
TAIL = r'''SAVE %{ printf("S save %.17g %d [%s] %.17g\n", dp, ip, sp, q); %}
FINALLY %{ printf("S finally %.17g %d [%s] %.17g\n", dp, ip, sp, q); %}
END
'''


def glob(env):
    e = {k: float(env[k]) for k in ('dp', 'q')}
    e['ip'] = int(env['ip'])
    return dict(e, gvar=10 * e['dp'], gint=2 * e['ip'], gptr=[5.0, e['dp'], 7.0, 9.0], giptr=[1, e['ip'], 3], arr=[0, e['dp'] + 1], arr2=[0, 9],
                data_y=e['q'], gstr='global text', sp=env['sp'], **{'names[1]': 'second name'})


def number(text, env):
    t = text.replace('data.y', 'data_y').replace('ptr->y', 'data_y').replace('arr2[1]', 'arr2_1').replace('arr[1]', 'arr_1')
    g = {k: v for k, v in glob(env).items() if isinstance(v, (int, float))}
    import math
    t2 = re.sub(r'\b7/2\b', '3', t)
    return eval_c(t2, dict(g, arr2_1=9, arr_1=glob(env)['arr'][1]))


def eval_c(t, env):
    import math
    m = re.match(r'^(.*)\?(.*):(.*)$', t)
    if m:
        return eval_c(m.group(2), env) if eval_c(m.group(1), env) else eval_c(m.group(3), env)
    return eval(t, dict(getnum=lambda: 6.5, sin=math.sin, pow=pow, fabs=abs, abs=abs, **env))


def string(text, env):
    if text is None or text in ('NULL', '0'):
        return ''
    m = re.match(r'^(.*)\?(.*):(.*)$', text)
    if m:
        return string(m.group(2 if eval_c(m.group(1), glob(env)) else 3).strip(), env)
    if text in ('sp', 'gstr', 'names[1]'):
        return glob(env)[text]
    return ast.literal_eval(text)


def vector(text, env, n=3):
    if text in (None, 'NULL', '0'):
        return None
    g = glob(env)
    names = {'gptr': g['gptr'][:3], 'giptr': g['giptr'], 'giptr + 0': g['giptr'], 'gptr + 1': g['gptr'][1:], 'getvec()': g['gptr'][:3], 
             'holder.list': [1., 2., 3.], 'ip > 3 ? gptr : other': g['gptr'][:3] if g['ip'] > 3 else [1., 2., 3.]}
    if text in names:
        return names[text]
    return [number(x, env) for x in text.strip('{}').split(',')]


def default_of(decl):
    return decl.split('=', 1)[1] if '=' in decl else None


def expected(kind, text, env):
    if kind in ('real', 'int'):
        v = 0 if text is None else number(text, env)
        return [float(int(v) if kind == 'int' else v)]
    if kind == 'string':
        return string(text, env)
    v = vector(text, env)
    return None if v is None else [float(int(x)) if kind == 'ints' else float(x) for x in v]


def printer(kind, name, count, tag):
    """C statement which prints a parameter"""
    head = f'printf("V %ld {tag} {name} ", _comp->_index); '
    if kind == 'real':
        return head + f'printf("%.17g\\n", {name});'
    if kind == 'int':
        return head + f'printf("%d\\n", {name});'
    if kind == 'string':
        return head + f'printf("<"); for (const char *_s = {name}; *_s; _s++) printf("%d ", (int) *_s); printf(">\\n");'
    fmt = '%.17g' if kind == 'vector' else '%d'
    return head + (f'if ({name} == NULL) printf("null\\n"); else {{ for (int _i=0; _i<{count}; _i++) printf("{fmt} ", {name}[_i]); printf("\\n"); }}')


def observed(kind, words):
    s = ' '.join(words)
    if kind == 'string':
        return ''.join(chr(int(x)) for x in s.strip('<> ').split())
    if s.startswith('null'):
        return None
    return [float(x) for x in words if x]


def same(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) >= len(b) and all(abs(x - y) <= 1e-12 * max(1, abs(x), abs(y)) for x, y in zip(a, b))
    return a == b


def comp_text(name, pars, counts, extra='', more='', share=''):
    """A component printing its parameters [(kind, declaration, name)] in all sections"""
    s = f'DEFINE COMPONENT {name}\n'
    s += f'SETTING PARAMETERS ({", ".join(d % n for _, d, n in pars)})\n' if pars else ''
    s += f'SHARE %{{\n{share}\n%}}\n' if share else ''
    s += f'DECLARE %{{\n{extra}\n%}}\n' if extra else ''
    for sec in ('INITIALIZE', 'TRACE', 'SAVE', 'FINALLY', 'MCDISPLAY'):
        body = ' '.join(printer(k, n, counts, sec) for k, _, n in pars)
        s += f'{sec} %{{ {body} {more.replace("SECTION", sec)} %}}\n'
    return s + 'END\n'


SECTIONS = ('INITIALIZE', 'TRACE', 'SAVE', 'FINALLY', 'MCDISPLAY')
UNKNOWN_COUNT = 3


def programs(case):
    """(component files, instrument text, [(index, kind, parameter, value text)])"""
    what = case[0]
    if what == 'setting':
        kind, d = case[2], KINDS[case[2]][case[3]]
        default = default_of(d)
        values = ([None] if default is not None else []) + MENU[kind]
        if default == '0' and kind == 'vector':
            default = 'NULL'
        comps, insts, text = {}, [], HEAD
        for i, v in enumerate(values):
            # one definition for each number of elements, to print all of them
            n = len((v or default or '').split(',')) if kind in ('vector', 'ints') and '{' in (v or default or '') else UNKNOWN_COUNT
            comps[f'Val{n}.comp'] = comp_text(f'Val{n}', [(kind, d, 'par')], n)
            text += f'COMPONENT c{i} = Val{n}({"par=" + v if v is not None else ""}) AT (0, 0, {i}) ABSOLUTE\n'
            insts.append((i + 1, kind, 'par', v if v is not None else default))
        return comps, text + TAIL, insts
    if what == 'pair':
        (k1, d1), (k2, d2) = [(k, KINDS[k][i]) for k, i in ((case[2], case[3]), (case[4], case[5]))]
        comps = {'Duo.comp': comp_text('Duo', [(k1, d1, 'one'), (k2, d2, 'two')], 3)}
        text, insts = HEAD, []
        i = 0
        three = lambda k: [v for v in MENU[k] if '{' not in v or v.count(',') == 2]
        m1, m2 = three(k1)[:7], three(k2)[:7]
        for j in range(7):
            a, b = m1[j % len(m1)], m2[(3 * j + 1) % len(m2)]
            for names in (('one', 'two'), ('two', 'one'), ('one',), ('two',)):
                given = dict(one=a, two=b)
                if any('=' not in d for n, d in (('one', d1), ('two', d2)) if n not in names):
                    continue
                text += f'COMPONENT c{i} = Duo({", ".join(f"{n}={given[n]}" for n in names)}) AT (0, 0, 1) ABSOLUTE\n'
                i += 1
                for n, k, d in (('one', k1, d1), ('two', k2, d2)):
                    insts.append((i, k, n, given[n] if n in names else default_of(d)))
        return comps, text + TAIL, insts
    if what == 'names':
        # the component parameter has the name of an instrument parameter
        name = case[2]
        kind = dict(dp='real', q='real', ip='int', sp='string')[name]
        d = {'real': '%s=7', 'int': 'int %s=7', 'string': 'string %s="seven"'}[kind]
        values = [None, name] + ([f'2*{name} - 1'] if kind != 'string' else []) + MENU[kind][:3]
        text, insts = HEAD, []
        for i, v in enumerate(values):
            text += f'COMPONENT c{i} = Same({f"{name}={v}" if v is not None else ""}) AT (0, 0, {i}) ABSOLUTE\n'
            insts.append((i + 1, kind, name, v if v is not None else default_of(d)))
        return {'Same.comp': comp_text('Same', [(kind, d, name)], 3)}, text + TAIL, insts
    if what == 'declare':
        decl, show, want = DECLS[case[2]]
        more = 'printf("V %ld SECTION d "); '.replace('%ld', '1') + show + '; printf("\\n");'
        comps = {'Dec.comp': comp_text('Dec', [('real', '%s=1', 'par')], 3, decl, more, 'typedef struct { double u; double w; } MyType;')}
        return comps, HEAD + 'COMPONENT c0 = Dec() AT (0, 0, 0) ABSOLUTE\n' + TAIL, [(1, 'text', 'd', want), (1, 'real', 'par', '1')]


def run_instrument(case, r):
    decls = [(INSTR_PARS[i], f'par{k}') for k, i in enumerate(case[2])]
    stmts, want_types = '', []
    for d, n in decls:
        if d.startswith('string'):
            stmts += f'printf("P {n} <%s>\\n", {n} ? {n} : "");'
        elif d.startswith('int'):
            stmts += f'printf("P {n} %d\\n", {n});'
        else:
            stmts += f'printf("P {n} %.17g\\n", {n});'
    reg = cgen.local('c09i', {'Null.comp': 'DEFINE COMPONENT Null\nEND\n'})
    text = f'DEFINE INSTRUMENT pars({", ".join(d % n for d, n in decls)})\nINITIALIZE %{{ {stmts} %}}\nTRACE\nCOMPONENT a = Null() AT (0,0,0) ABSOLUTE\nEND\n'
    exe = cgen.build(cgen.translate(cgen.parse(text, [reg]), case[1] == 'mcstas'), ['-DDUMP_PARAMETERS'])
    vals = [{}, {n: {'s': 'word', 'i': '-12'}.get(d[0], '6.25') for d, n in decls}]
    try:
        for given in vals:
            code, out = cgen.execute(exe, 1, [f'{k}={v}' for k, v in given.items()], keep=True)
            r.traces += 1
            r.states += 1
            if code != 0:
                r.problems.append(('run', f'{text}: ended with {code}'))
                continue
            lines = out.split('\n')
            inputs = [l for l in lines if l.startswith('INPUT ')]
            if len(inputs) != len(decls):
                r.problems.append(('table', f'{text}: {inputs}'))
            for (d, n), line in zip(decls, inputs):
                r.transitions += 1
                left, _, default = d.partition('=')
                unit = left.split('/')[1].strip('"') if '/' in left else ''
                kind = 'string' if d.startswith('string') else 'int' if d.startswith('int') else 'real'
                typ = dict(string=1, int=0, real=2)[kind]
                m = re.match(r'INPUT (\S+) type=(\d+) val=\[(.*)\] unit=\[(.*)\]$', line)
                ok = m and m.group(1) == n and int(m.group(2)) == typ and m.group(4) == unit
                if kind == 'string':
                    dv = '' if default in ('', 'NULL') else ast.literal_eval(default)
                    ok = ok and m.group(3) in ([dv, 'NULL'] if default == 'NULL' else [dv])
                else:
                    dv = eval(default) if default else 0
                    try:
                        ok = ok and (m.group(3) == '' if not default else abs(float(m.group(3)) - dv) < 1e-15)
                    except ValueError:
                        ok = False
                if not ok:
                    r.problems.append(('table', f'{d % n}: {line}'))
                p = [l for l in lines if l.startswith(f'P {n} ')]
                if kind == 'string':
                    w = given.get(n, dv)
                    ok = p == [f'P {n} <{w}>'] or (default == 'NULL' and n not in given and p == [f'P {n} <NULL>'])
                else:
                    ok = len(p) == 1 and abs(float(p[0].split()[2]) - float(given.get(n, dv))) < 1e-15
                if not ok:
                    r.problems.append(('value', f'{d % n} given {given.get(n)}: {p}'))
    finally:
        exe.unlink()
    r.outcome = case[2]
    return r


def run_case(case):
    r = Result(states=0, transitions=0, traces=0)
    if case[0] == 'instrument':
        return run_instrument(case, r)
    comps, text, insts = programs(case)
    reg = cgen.local('c09-' + '-'.join(str(x) for x in case), comps)
    try:
        exe = cgen.build(cgen.translate(cgen.parse(text, [reg]), case[1] == 'mcstas'), ['-DDOTRACE=1'])
    except cgen.CompileError as e:
        r.problems.append(('compile', f'{e} for {comps} {text}'))
        return r
    seen = set()
    try:
        for env in ENVS:
            full = dict(DEFAULT, **env)
            code, out = cgen.execute(exe, 1, [f'{k}={v}' for k, v in env.items()], keep=True)
            r.traces += 1
            if code != 0:
                r.problems.append(('run', f'{text}: ended with {code} for {env}'))
                continue
            got, sections = {}, {}
            for line in out.split('\n'):
                w = line.split(' ')
                if w[0] == 'V':
                    got.setdefault((int(w[1]), w[2], w[3]), []).append(w[4:])
                if w[0] == 'S':
                    sections.setdefault(w[1], []).append(' '.join(w[2:]))
            line = f"{float(full['dp']):.17g} {int(full['ip'])} [{full['sp']}] {float(full['q']):.17g}"
            for s in ('initialize', 'save', 'finally'):
                r.transitions += 1
                if sections.get(s) != [line]:
                    r.problems.append(('section', f'{s} saw {sections.get(s)} instead of {line}'))
            for i, kind, name, value in insts:
                r.states += 1
                want = value if kind == 'text' else expected(kind, value, full)
                seen.add(repr(want))
                for sec in SECTIONS:
                    r.transitions += 1
                    o = got.get((i, sec, name), [])
                    if len(o) != 1:
                        r.problems.append(('missing', f'component {i} parameter {name} in {sec}: {o}'))
                        break
                    v = ' '.join(o[0]) if kind == 'text' else observed(kind, o[0])
                    if not same(v, want):
                        r.problems.append(('value', f'component {i} {kind} {name} given {value} is {v} in {sec} instead of {want} with {full}'))
                        break
    finally:
        exe.unlink()
    r.outcome = sorted(seen)[:6]
    return r
