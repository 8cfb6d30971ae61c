"""C16: variables declared in component DECLARE blocks are those C declares: same names, types, sizes and initial values in every instance."""
import itertools, os, re, subprocess
from ..base import Result
from .. import cgen, env

PID = 'C16'
LEVEL = 'model_checking'
ASSUMPTIONS = ['declarations which are valid C at file scope and in a structure: no const objects, static or extern, no types defined inside DECLARE',
               'an initial value does not use other variables or parameters of the component']
BOUND = ('every type of a menu with every declarator and every initial value fitting it; every pair of declarations (thorough: every triple) of a menu, in one statement or several, '
         'with comments and spacing from a menu; types from SHARE, libraries, other components; two instances per component')
CHUNK = 2

SHARE = r'''
#define SIZE 3
typedef struct { int a; double b; char name[8]; } pair_t;
typedef double real_t;
typedef real_t triple_t[3];
typedef int (*func_t)(int);
struct tagged { double first_, second_; struct tagged *next; };
enum colour { RED, GREEN = 5, BLUE };
typedef enum { OFF, ON } switch_t;
union both { int i; unsigned char c[4]; };
static int add1(int x) { return x + 1; }
static int dbl(int x) { return 2 * x; }
static double half(double x) { return x / 2; }
static pair_t shared_pair = {7, 8.5, "sh"};
'''
# numbers: (type, how to print)
SCALARS = [('double', '%.17g', 'double'), ('int', '%d', 'int'), ('unsigned long long', '%llu', 'unsigned long long'), ('char', '%d', 'int'), ('real_t', '%.17g', 'double'), ('float', '%.9g', 'double'),
           ('unsigned char', '%d', 'int'), ('long int', '%ld', 'long'), ('short', '%d', 'int'), ('enum colour', '%d', 'int'), ('switch_t', '%d', 'int'), ('signed', '%d', 'int'), ('unsigned', '%u', 'unsigned'),
           ('long', '%ld', 'long'), ('MCNUM', '%.17g', 'double'), ('volatile int', '%d', 'int'), ('library_t', '%.17g', 'double')]
SCALAR_INITS = ['', '=1', ' = 2.75', '= -3', "='a'", "= ','", "= ';'", '= 2*(3+4)', '= (1, 5)', '= sizeof(double)', '= SIZE', '= GREEN', '= 1 ? 3 : 4', '= 0x1F', '= 1e1', '={6}', '= (int) 3.9', '= 7/2', '= !0', '= 010', '= ~0 & 7', '= 1 == 1',
                '= -(2)', '= sizeof(struct tagged)', '= 3u']
# (declarator, number of elements as a flat array)
ARRAYS = [('v[4]', 4), ('v[SIZE]', 3), ('v[2*2]', 4), ('v[SIZE+1]', 4), ('v[2][3]', 6), ('v[SIZE][2]', 6), ('v [ 4 ]', 4), ('v[sizeof(int)]', 4), ('v[2][1][2]', 4), ('(v)[4]', 4), ('v[(SIZE)]', 3)]
ARRAY_INITS = {
    1: ['', '={1,2,3}', '= {1}', '= {0}', '= {1,2,}', '= { 1 , 2 , 3 }', '= {[1]=5}', '= {[2]=5, 6}' , '={1+1, 2*(3+1), sizeof(char)}', '={SIZE, GREEN}', "={',', '}', '{'}", '= {\n1,\n2}', '= { /* one, */ 1, 2}', '= {(1, 2), 3}'],
    2: ['', '={{1,2},{3,4}}', '={1,2,3,4}', '= {{1}}', '= {{1},{2}}', '= {{0}}', '= {{1,2},}', '= {[1]={5,6}}', '= {[1][1]=5}', '= {1, 2}'],
    3: ['', '={{{1,2}},{{3,4}}}', '={1,2,3,4}', '= {{{1}}}'],
}
OPEN = [('v[]', '={1,2,3}', 1), ('v[]', '= {1,2,3,4,}', 1), ('v[]', '= {[4]=1}', 1), ('v[]', '= {5}', 1), ('v[][2]', '= {{1,2},{3,4},{5,6}}', 2), ('v[][2]', '= {1,2,3,4}', 2), ('v[][2]', '={{1},{2}}', 2), ('v[][2]', '={1,2,3}', 2),
        ('v[]', '= {2*(1+1), 7, (3)}', 1), ('v[]', '= {(1, 2), 3}', 1), ('v[][2][2]', '={{{1,2},{3,4}},{{5,6},{7,8}},{{9,1},{2,3}}}', 3), ('v[]', "= {'a', ',', '}'}", 1)]
# others: (declarations, statements printing them)
OTHERS = [
    ('char v[]="text";', 'printf("%s %zu", v, sizeof(v));'),
    ('char v[10] = "text";', 'printf("%s %zu", v, sizeof(v));'),
    ('char v[10] = "a,b}";', 'printf("%s %zu", v, sizeof(v));'),
    ('char v[SIZE*4] = "a" "b;c";', 'printf("%s %zu", v, sizeof(v));'),
    ('char v[] = {"braced"};', 'printf("%s %zu", v, sizeof(v));'),
    ('char v[2][8] = {"a,b","c}"};', 'printf("%s %s %zu", v[0], v[1], sizeof(v));'),
    ('char v[][6] = {"one","two","three"};', 'printf("%s %s %s %zu", v[0], v[1], v[2], sizeof(v));'),
    ('char *v = "pointer";', 'printf("%s", v);'),
    ('const char *v = "a \\"quoted\\" one; // no comment";', 'printf("%s", v);'),
    ('char const * v = "x" ;', 'printf("%s", v);'),
    ('const char *v;', 'printf("%d", v == NULL);'),
    ('char *v[]={"x,y", "z", "/* no */"};', 'printf("%s %s %s %zu", v[0], v[1], v[2], sizeof(v));'),
    ('char *v[3]={"x"};', 'printf("%s %d %d", v[0], v[1] == 0, v[2] == 0);'),
    ('const char *v[] = {"a", "b"};', 'printf("%s %s %zu", v[0], v[1], sizeof(v));'),
    ('char *v[2][2]={{"x", "y"}, {"z,", "w"}};', 'printf("%s %s %s %s", v[0][0], v[0][1], v[1][0], v[1][1]);'),
    ('double *v;', 'printf("%d %zu", v == NULL, sizeof(v));'),
    ('double *v = NULL;', 'printf("%d", v == NULL);'),
    ('double **v = 0;', 'printf("%d %zu", v == NULL, sizeof(**v));'),
    ('double * *v;', 'printf("%d %zu", v == NULL, sizeof(**v));'),
    ('double *v[3];', 'printf("%d %zu", v[0] == NULL && v[2] == NULL, sizeof(v));'),
    ('void *v;', 'printf("%d", v == NULL);'),
    ('FILE *v = NULL;', 'printf("%d", v == NULL);'),
    ('double (*v)[3];', 'printf("%d %zu", v == NULL, sizeof(*v));'),
    ('double (*v)(double);', 'printf("%d", v == NULL);'),
    ('double (*v)(double) = half;', 'printf("%g", v(5));'),
    ('double (*v)(double) = &half;', 'printf("%g", (*v)(5));'),
    ('double (* v)(double x) = NULL;', 'printf("%d", v == NULL);'),
    ('int (*v[2])(int) = {add1, dbl};', 'printf("%d %d", v[0](5), v[1](5));'),
    ('int (*v[])(int) = {add1, dbl, add1};', 'printf("%d %d %zu", v[0](5), v[1](5), sizeof(v)/sizeof(v[0]));'),
    ('int (*v[3])(int);', 'printf("%d %zu", v[1] == NULL, sizeof(v)/sizeof(v[0]));'),
    ('int (*v)(void);', 'printf("%d", v == NULL);'),
    ('int (*v)();', 'printf("%d", v == NULL);'),
    ('int (*v)(int (*)(int), int);', 'printf("%d", v == NULL);'),
    ('int *(*v)(int);', 'printf("%d", v == NULL);'),
    ('void (*v)(pair_t *, char *v);', 'printf("%d", v == NULL);'),
    ('func_t v = add1;', 'printf("%d", v(4));'),
    ('func_t v[2] = {add1, dbl};', 'printf("%d %d", v[0](4), v[1](4));'),
    ('func_t v;', 'printf("%d", v == NULL);'),
    ('pair_t v;', 'printf("%d %g %s", v.a, v.b, v.name);'),
    ('pair_t v = {1, 2.5, "abc"};', 'printf("%d %g %s", v.a, v.b, v.name);'),
    ('pair_t v = {.b = 2.5};', 'printf("%d %g %s", v.a, v.b, v.name);'),
    ('pair_t v = {0};', 'printf("%d %g %s", v.a, v.b, v.name);'),
    ('pair_t v[2];', 'printf("%d %g %zu", v[1].a, v[1].b, sizeof(v));'),
    ('pair_t v[2]={{1, 2, "x,"}, {3, 4.5, "}"}};', 'printf("%d %g %s %d %g %s", v[0].a, v[0].b, v[0].name, v[1].a, v[1].b, v[1].name);'),
    ('pair_t v[]={{1, 2, "x"}, {.b = 4.5}};', 'printf("%d %g %s %d %g %zu", v[0].a, v[0].b, v[0].name, v[1].a, v[1].b, sizeof(v));'),
    ('pair_t *v;', 'printf("%d %zu", v == NULL, sizeof(*v));'),
    ('pair_t *v = &shared_pair;', 'printf("%d %s", v->a, v->name);'),
    ('struct tagged v;', 'printf("%g %d", v.first_, v.next == NULL);'),
    ('struct tagged v = {1, 2};', 'printf("%g %g %d", v.first_, v.second_, v.next == NULL);'),
    ('struct tagged *v = NULL;', 'printf("%d", v == NULL);'),
    ('struct tagged v[2] = {{1, 2}, {3}};', 'printf("%g %g", v[0].second_, v[1].first_);'),
    ('struct { int a; double b; } v;', 'printf("%d %g %zu", v.a, v.b, sizeof(v));'),
    ('struct { int a, c[3]; struct {double d;} e; } v;', 'printf("%d %g %zu", v.c[2], v.e.d, sizeof(v));'),
    ('struct { int a; double b; } v[4];', 'printf("%d %g %zu", v[3].a, v[3].b, sizeof(v));'),
    ('union { int a; double b; } v;', 'printf("%d %zu", v.a, sizeof(v));'),
    ('union both v;', 'printf("%d %zu", v.i, sizeof(v));'),
    ('union both v = {.i = 5};', 'printf("%d", v.i);'),
    ('union both v[2] = {{1}, {2}};', 'printf("%d %d", v[0].i, v[1].i);'),
    ('enum {LOW, HIGH} v;', 'printf("%d", v);'),
    ('enum {FIRST, SECOND} v = 1;', 'printf("%d", v);'),
    ('triple_t v;', 'printf("%g %zu", v[2], sizeof(v));'),
    ('Coords v;', 'printf("%g %zu", ((double *) &v)[1], sizeof(v));'),
    ('Coords v = {1, 2, 3};', 'dump(&v, sizeof(v));'),
    ('Coords v[2] = {{1,2,3},{4,5,6}};', 'dump(v, sizeof(v));'),
    ('Rotation v;', 'printf("%g %zu", v[2][2], sizeof(v));'),
    ('_Bool v = 5;', 'printf("%d", v);'),
    ('unsigned int v:3;', None),
    ('double c[sizeof(char)*4];', 'printf("%zu", sizeof(c));'),
    ('int n[SIZE]; int nn;', 'printf("%zu %d", sizeof(n), nn);'),
    ('double S[SIZE];', 'printf("%zu", sizeof(S));'),
    ('double SIZ[SIZE] = {1};', 'printf("%zu %g", sizeof(SIZ), SIZ[0]);'),
    ('int (*i)(int i, int ii) = 0; int ii = 3;', 'printf("%d %d", i == NULL, ii);'),
    ('int n = 1, N = 2; double nn = 3, Nn = 4;', 'printf("%d %d %g %g", n, N, nn, Nn);'),
    ('char a[3][sizeof("a")];', 'printf("%zu", sizeof(a));'),
    ('double v __attribute__((aligned(16)));', 'printf("%g", v);'),
    ('double v __attribute__((aligned(16))) = 5;', 'printf("%g", v);'),
    ('_Static_assert(1, "yes"); double v = 2;', 'printf("%g", v);'),
]
SPACING = ['{0}\n{1}', '{0} {1}', '{0}\n\n\n   {1}\n', '/* int v = 9; */ {0} // double w;\n{1}', '{0}/* one\ntwo */{1}', '\t{0}\r\n\t{1}', '{0};{1}', '// {{ ( "\n{0}\n/* }} */{1}']
LIST = [('a', ''), ('b', '= 1'), ('*c', ''), ('d[3]', ''), ('e[2]', '={1, 2}'), ('*f', '= 0'), ('g[]', '={1,2,3}'), ('(*h)(int)', ''), ('k[2][2]', '={{1},{2}}'), ('*l[2]', '')]


def show(name, kind):
    if kind == '' or kind == '= 1':
        return f'printf("{name} %g %zu ", (double) {name}, sizeof({name}));'
    return f'printf("{name} %zu ", sizeof({name})); dump(&{name}, sizeof({name}));'


def scalar(t, init):
    typ, fmt, cast = t
    return f'{typ} v{init};', f'printf("{fmt} %zu", ({cast}) v, sizeof(v));'


def array(t, dec, n, init):
    typ, fmt, cast = t
    return f'{typ} {dec}{init};', f'{{ int k; printf("%zu", sizeof(v)); for (k = 0; k < (int) (sizeof(v)/sizeof({typ})); k++) printf(" {fmt}", ({cast}) (({typ} *) v)[k]); }}'


def singles():
    for t in SCALARS:
        for i in SCALAR_INITS:
            yield scalar(t, i)
    for t in SCALARS:
        for k, (d, n) in enumerate(ARRAYS):
            dims = d.count('[')
            for i in ARRAY_INITS[dims]:
                if t[0] in ('double', 'int', 'real_t', 'char') or k in (0, 4):
                    yield array(t, d, n, i)
        for d, i, _ in OPEN:
            yield array(t, d, 0, i)
    for d, p in OTHERS:
        if p:
            yield d, p


def pairs(tier):
    """Several declarations together, named apart"""
    some = [x for k, x in enumerate(singles()) if k % 29 == 3] + [(d, p) for k, (d, p) in enumerate(OTHERS) if p and k % 3 == 0 and re.search(r'\bv\b', d)]
    n = len(some)

    def named(x, name):
        return tuple(re.sub(r'\bv\b', name, y) for y in x)
    k = 0
    for a, b in itertools.product(range(n), repeat=2):
        (d1, p1), (d2, p2) = named(some[a], 'first'), named(some[b], 'second')
        if 'enum {' in d1 and 'enum {' in d2:
            continue
        k += 1
        yield SPACING[k % len(SPACING)].format(d1, d2), p1 + p2
    # one statement declaring several
    for m in (2, 3) if tier == 'quick' else (2, 3, 4):
        for c in itertools.permutations(LIST, m) if m < 4 else itertools.combinations(LIST, 4):
            for t in ('int',) if m > 2 else ('int', 'double', 'unsigned long', 'real_t'):
                names = [re.search(r'[a-l]', d[0]).group() for d in c]
                yield f'{t} ' + (', ', ',', ',\n  ')[m % 3].join(d + i for d, i in c) + ';', ''.join(show(x, '' if d[0] == x else 'raw') for x, d in zip(names, c))
    if tier != 'quick':
        for a, b, c in itertools.product(range(0, n, 3), repeat=3):
            x = [named(some[k], nm) for k, nm in ((a, 'first'), (b, 'second'), (c, 'third'))]
            if sum('enum {' in d for d, _ in x) < 2:
                yield '\n'.join(d for d, _ in x), ''.join(p for _, p in x)


_ALL = {}


def items(tier):
    if tier not in _ALL:
        _ALL[tier] = list(singles()) + list(pairs(tier))
    return _ALL[tier]


SIZE = 24


def cases(tier):
    n = len(items(tier))
    for k in range(0, n, SIZE):
        yield ['declare', tier, k]
    for where in range(4):
        yield ['types', where]
    yield ['several']
    yield ['extract']


def run_case(case):
    r = Result(states=0, transitions=0)
    globals()['_' + case[0]](case[1:], r)
    return r


DUMP = 'static void dump(void *p, size_t n) { size_t k; for (k = 0; k < n; k++) printf("%02x", ((unsigned char *) p)[k]); printf(" "); }\n'
COORDS = 'typedef double MCNUM; typedef struct {MCNUM x, y, z;} Coords; typedef MCNUM Rotation[3][3]; typedef double library_t;\n'


def gcc(code):
    exe = env.SCRATCH / 'work' / f'd{os.getpid()}'
    p = subprocess.run(['gcc', '-O0', '-w', '-std=gnu11', '-x', 'c', '-', '-o', str(exe)], input=code, text=True, capture_output=True)
    if p.returncode:
        return None, p.stderr[:500]
    q = subprocess.run([str(exe)], capture_output=True, text=True, errors='replace')
    return q.returncode, q.stdout


def reference(batch, share=SHARE):
    """What C makes of each: every set of declarations in a file of its own would be slow, so they are renamed apart by being static in functions"""
    # file scope objects and static objects in a block are initialised alike
    body = ''.join(f'static void f{k}(void) {{\n{static(d)}\n{p}\n}}\n' for k, (d, p) in enumerate(batch))
    main = 'int main(void) {' + ''.join(f'printf("<{k}>"); f{k}(); printf("\\n");' for k in range(len(batch))) + 'return 0; }'
    return gcc('#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n' + COORDS + share + DUMP + body + main)


def static(text):
    """The same declarations as static ones: `static` before each statement"""
    out, depth, start, k, last = [], 0, True, 0, ''
    while k < len(text):
        m = re.match(r'/\*.*?\*/|//[^\n]*|"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'|\w+|.', text[k:], re.S)
        tok = m.group()
        k += len(tok)
        if start and depth == 0 and re.match(r'\w', tok):
            if tok != '_Static_assert':
                out.append('static ')
            start = False
        if tok in '{([' and len(tok) == 1:
            depth += 1
        elif tok in '})]' and len(tok) == 1:
            depth -= 1
        elif tok == ';' and depth == 0:
            start = True
        out.append(tok)
    return ''.join(out)


def build(batch, share=SHARE, files=None):
    """One component type per set of declarations, two instances of each in different order"""
    comps = {'Base.comp': 'DEFINE COMPONENT Base\nSHARE %{\n%include "typelib"\n' + share + DUMP + '%}\nTRACE %{ %}\nEND\n'}
    text = 'DEFINE INSTRUMENT decl()\nTRACE\nCOMPONENT base = Base() AT (0,0,0) ABSOLUTE\n'
    for k, (d, p) in enumerate(batch):
        comps[f'Decl{k}.comp'] = f'DEFINE COMPONENT Decl{k}\nSETTING PARAMETERS (int which=0)\nDECLARE %{{\n{d}\n%}}\nTRACE %{{ printf("<{k}.%d>", which); {p} printf("\\n"); %}}\nEND\n'
        text += f'COMPONENT d{k} = Decl{k}() AT (0,0,0) ABSOLUTE\n'
    for k in reversed(range(len(batch))):
        text += f'COMPONENT e{k} = Decl{k}(which=1) AT (0,0,0) ABSOLUTE\n'
    text += 'END\n'
    comps.update({'typelib.h': 'typedef double library_t;\n', 'typelib.c': '\n'})
    reg = cgen.local(f'c16-{os.getpid()}', comps)
    return cgen.build(cgen.translate(cgen.parse(text, [reg])))


def observed(batch, **kw):
    exe = build(batch, **kw)
    code, out = cgen.execute(exe, 1)
    got = {}
    for line in out.split('\n'):
        m = re.match(r'<(\d+)\.(\d)>(.*)', line)
        if m:
            got[int(m.group(1)), int(m.group(2))] = m.group(3)
    return code, got


def _declare(args, r):
    tier, first = args
    batch = items(tier)[first:first + SIZE]
    code, out = reference(batch)
    if code is None:
        # leave out what is no C
        keep = [x for x in batch if reference([x])[0] is not None]
        batch = keep
        if not batch:
            return
        code, out = reference(batch)
    want = {int(m.group(1)): m.group(2) for m in re.finditer(r'<(\d+)>([^\n]*)', out)}
    compare(batch, want, r)


def compare(batch, want, r, **kw):
    r.states += len(batch)
    try:
        code, got = observed(batch, **kw)
    except Exception as e:
        if len(batch) > 1:
            for k, x in enumerate(batch):
                compare([x], {0: want[k]}, r, **kw)
            return
        r.problems.append(('refused', f'DECLARE {batch[0][0]!r}: {type(e).__name__}: {str(e)[:300]}'))
        return
    if code != 0 and len(batch) > 1:
        for k, x in enumerate(batch):
            compare([x], {0: want[k]}, r, **kw)
        return
    for k, (d, p) in enumerate(batch):
        for w in (0, 1):
            r.traces += 1
            r.transitions += 1
            if got.get((k, w)) != want[k]:
                r.problems.append(('value', f'DECLARE {d!r} instance {w}: {got.get((k, w))!r} but C says {want[k]!r} ({p})'))


def _several(args, r):
    """Two instances with their own variables: a change to one does not show in the other"""
    r.states += 1
    comp = 'DEFINE COMPONENT Own\nSETTING PARAMETERS (int by=1)\nDECLARE %{ int count = 5; double list[3] = {1, 2, 3}; char *text = "start"; %}\n' \
           'INITIALIZE %{ count += by; list[1] *= by; if (by > 2) text = "changed"; %}\nTRACE %{ count++; printf("<%s %d %g %g %s>\\n", NAME_CURRENT_COMP, count, list[1], list[2], text); %}\n' \
           'SAVE %{ printf("<save %d>\\n", count); %}\nEND\n'
    comp = comp.replace('NAME_CURRENT_COMP', '_comp->_name')
    text = 'DEFINE INSTRUMENT own()\nTRACE\nCOMPONENT a = Own() AT (0,0,0) ABSOLUTE\nCOMPONENT b = Own(by=2) AT (0,0,0) ABSOLUTE\nCOMPONENT c = Own(by=3) AT (0,0,0) ABSOLUTE\nEND\n'
    reg = cgen.local(f'c16s-{os.getpid()}', {'Own.comp': comp})
    try:
        code, out = cgen.execute(cgen.build(cgen.translate(cgen.parse(text, [reg]))), 2)
    except Exception as e:
        r.problems.append(('several', f'{type(e).__name__}: {e}'))
        return
    want = ['<a 7 2 3 start>', '<b 8 4 3 start>', '<c 9 6 3 changed>', '<a 8 2 3 start>', '<b 9 4 3 start>', '<c 10 6 3 changed>']
    got = [x for x in out.split('\n') if x.startswith('<') and 'save' not in x]
    r.transitions += 3
    if got != want:
        r.problems.append(('several', f'{got} but expected {want}'))


def _types(args, r):
    """Where a type comes from: the same component, another one, a library, a library of a library"""
    where = args[0]
    r.states += 1
    decl = 'special_t v = {4, 2.5}; special_t *w; special_t list[2] = {{1, 2}, {3, 4}}; other_t more = 3;'
    typedef = 'typedef struct { int i; double d; } special_t; typedef unsigned short other_t;\n'
    share = ['%{\n' + typedef + '%}', '%{ %}', '%{\n%include "spec"\n%}', '%{\n%include "outer"\n%}'][where]
    files = {'spec.h': typedef, 'spec.c': '', 'outer.h': '%include "spec"\n', 'outer.c': '',
             'First.comp': 'DEFINE COMPONENT First\nSHARE %{\n' + (typedef if where == 1 else '') + '%}\nTRACE %{ %}\nEND\n',
             'Second.comp': f'DEFINE COMPONENT Second\nSHARE {share}\nDECLARE %{{ {decl} %}}\nTRACE %{{ printf("<%d %g %d %d %d %d>\\n", v.i, v.d, w == NULL, list[0].i, list[1].i, more); %}}\nEND\n'}
    text = 'DEFINE INSTRUMENT types()\nTRACE\nCOMPONENT f = First() AT (0,0,0) ABSOLUTE\nCOMPONENT s = Second() AT (0,0,0) ABSOLUTE\nEND\n'
    reg = cgen.local(f'c16t-{os.getpid()}-{where}', files)
    try:
        code, out = cgen.execute(cgen.build(cgen.translate(cgen.parse(text, [reg]))), 1)
    except Exception as e:
        r.problems.append(('types', f'from {where}: {type(e).__name__}: {str(e)[:300]}'))
        return
    r.transitions += 1
    if '<4 2.5 1 1 3 3>' not in out:
        r.problems.append(('types', f'from {where}: {out}'))


def _extract(args, r):
    """The declared names and defined types are found"""
    from mccode_antlr.translators.c_listener import extract_c_declared_variables_and_defined_types as extract
    menu = [('double a;', ['a'], []), ('double a, b;', ['a', 'b'], []), ('typedef int t;', [], ['t']), ('typedef struct {int q;} t;', [], ['t']), ('typedef struct s {int q;} s_t;', [], ['s_t']),
            ('typedef enum {A, B} e;', [], ['e']), ('typedef unsigned long ul;', [], ['ul']), ('int *p;', ['p'], []), ('char s[10];', ['s'], []), ('int (*f)(int);', ['f'], []), ('t x;', ['x'], []),
            ('struct q {int z;};', [], []), ('struct q y;', ['y'], []), ('t *z[3];', ['z'], []), ('unsigned long long ull = 3;', ['ull'], []), ('/* int k; */', [], []), ('// int k;\n', [], [])]
    for n in (1, 2, 3):
        for c in itertools.product(menu, repeat=n) if n < 3 else itertools.combinations(menu, 3):
            if len(set(id(x) for x in c)) < n:
                continue
            for sep in (' ', '\n') if n < 3 else ('\n',):
                text = sep.join(x[0] for x in c)
                names, types = [y for x in c for y in x[1]], [y for x in c for y in x[2]]
                r.transitions += 1
                with cgen.quiet():
                    decs, typ = extract(text, ['t'] if 't' not in types else [])
                got = [d.name for d in decs]
                typ = [t for t in typ if t != 't' or 't' in types]
                if got != names or sorted(set(typ)) != sorted(set(types)):
                    r.problems.append(('extract', f'{text!r}: variables {got}, types {typ}; expected {names} and {types}'))
    r.states += 1
