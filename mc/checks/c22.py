"""C22: an instrument gives the same C program whenever, and after whatever, it is translated; translating does not change it.

The programs of a menu of instruments are translated once each in a fresh process.  Then every bounded history of operations on shared objects
(and shared readers, registries and configuration) has to end with the same program, and fresh processes with other string hashes, too.
"""
import itertools, json, os, re, subprocess, sys
from ..base import Result
from .. import cgen, env

PID = 'C22'
LEVEL = 'model_checking'
ASSUMPTIONS = ['the date in the header, and the name of the source file of printed instruments are not judged', 'string hashes are varied by PYTHONHASHSEED']
BOUND = ('all histories of 2 (thorough 3) of 8 operations on each of 6 instruments, and of 3 (thorough 8) operations on any other instrument before and after one on it, translated in 3 ways; all sequences of up to 3 (thorough 4) additions of 8 kinds '
         'with each of 8 operations in between; all sequences of 2 or 3 uses of one translator; fresh processes with 6 (thorough 24) different string hashes; macros of the runtime header for all orders of two libraries and flavors')
CHUNK = 8

COMPS = {
 'T.comp': 'DEFINE COMPONENT T\nSETTING PARAMETERS (double a=1, string s="none", int n=3, vector v={1,2,3})\nDECLARE\n%{\n  double d_one; int d_two[4];\n%}\nINITIALIZE\n%{\n  d_one = a;\n%}\nTRACE\n%{\n  x += d_one;\n%}\nSAVE\n%{\n  printf("%g", d_one);\n%}\nEND\n',
 'S.comp': 'DEFINE COMPONENT S\nSETTING PARAMETERS (double a=1)\nDEPENDENCY "-lofS -lm"\nSHARE\n%{\n  %include "onelib"\n  typedef struct { double u; int w; } s_type;\n  typedef int s_other;\n  s_type s_fun(void);\n%}\nUSERVARS\n%{\n  double s_var; int s_flag;\n%}\nDECLARE\n%{\n  s_type s_one; one_type s_two; s_other s_three;\n%}\nTRACE\n%{\n  s_one.u = a;\n%}\nMCDISPLAY\n%{\n  line(0,0,0,1,1,1);\n%}\nEND\n',
 'N.comp': 'DEFINE COMPONENT N\nDEPENDENCY "-lofN"\nNOACC\nTRACE\n%{\n  y = 1;\n%}\nFINALLY\n%{\n  printf("N");\n%}\nEND\n',
 'M.comp': 'DEFINE COMPONENT M\nMETADATA text about %{of M%}\nDEPENDENCY "-lofM @GSLFLAGS@"\nSHARE\n%{\n%include "twolib"\n%}\nUSERVARS\n%{\n  two_type *m_ptr; double m_arr[3];\n%}\nTRACE\n%{\n  if (z > 0) SCATTER;\n%}\nEND\n',
 'onelib.h': '%include "sublib"\ntypedef struct one_s { double o; } one_type;\n', 'onelib.c': 'int one_fun(void) { return 1; }\n',
 'twolib.h': 'typedef struct two_s { sub_type t; } two_type;\n%include "sublib"\n', 'twolib.c': '/* two */\n', 'sublib.h': 'typedef long sub_type; typedef char sub_char; typedef short sub_short;\n', 'sublib.c': '/* sub */\n',
 'part.instr': 'DEFINE INSTRUMENT part(double k = 2)\nDEPENDENCY "-lpart"\nDECLARE\n%{\nint of_part;\n%}\nTRACE\nREMOVABLE COMPONENT gone = T() AT (0,0,0) ABSOLUTE\nCOMPONENT p_one = S(a = k) AT (0,0,1) RELATIVE PREVIOUS\nEND\n'}
OTHERS = {'T.comp': 'DEFINE COMPONENT T\nSETTING PARAMETERS (int a=7)\nSHARE\n%{\n  %include "onelib"\n%}\nTRACE\n%{\n  z = a;\n%}\nEND\n', 'S.comp': 'DEFINE COMPONENT S\nSETTING PARAMETERS (string a="s")\nTRACE\n%{\n%}\nEND\n',
          'onelib.h': '/* another one */\n', 'onelib.c': '/* another one, too */\n'}
BODY = {
 'plain': ('(p = 1, string q = "w")\nDECLARE\n%{\n  int i_one;\n%}\nINITIALIZE\n%{\n  i_one = 2;\n%}\n', 'COMPONENT a = T(a = p, s = q) AT (0,0,p) ABSOLUTE\nCOMPONENT b = S(a = 2*p) AT (0,0,1) RELATIVE a ROTATED (0,p,0) RELATIVE PREVIOUS\nCOMPONENT c = T(v = {4,5}) AT (0,0,1) RELATIVE PREVIOUS\n'),
 'logic': ('(int n = 2)\nDEPENDENCY "-lone -ltwo -lthree"\nUSERVARS\n%{\n  int flag; double more; sub_type other;\n%}\n', 'COMPONENT a = S() WHEN (n > 1) AT (0,0,0) ABSOLUTE EXTEND %{\n  flag = 1;\n%}\nSPLIT 3 COMPONENT b = M() AT (0,0,1) RELATIVE a GROUP g\nCOMPONENT c = M() AT (0,0,1) RELATIVE a GROUP g\n'
           'COMPONENT d = T() AT (0,0,1) RELATIVE PREVIOUS JUMP a WHEN (flag == 2) JUMP NEXT ITERATE 2\nCOMPONENT e = N() AT (0,0,1) RELATIVE PREVIOUS GROUP h\n'),
 'acpu': ('()\nMETADATA "text/plain" one %{ words %}\n', 'COMPONENT a = N() AT (0,0,0) ABSOLUTE\nCPU COMPONENT b = T() AT (0,0,1) RELATIVE a METADATA text two %{other%}\nCOMPONENT c = M() AT (1,0,0) ABSOLUTE JUMP b ITERATE 3\n'),
 'parts': ('(p = 3)\nINITIALIZE\n%{\n%include "onelib"\n%}\n', 'COMPONENT a = M() AT (0,0,0) ABSOLUTE\n%include "part.instr"\nCOMPONENT COPY(p_one) = COPY(p_one)(a = 5) AT (0,0,1) RELATIVE PREVIOUS\nCOMPONENT z = N() AT (0,0,p) RELATIVE PREVIOUS(2)\n'),
 'other': ('(int p = 3)\nUSERVARS\n%{\n  int flag;\n%}\n', 'COMPONENT a = T(a = p) AT (0,0,0) ABSOLUTE\nCOMPONENT b = S() AT (0,p,1) RELATIVE a\n'),
 'empty': ('()\n', 'COMPONENT a = N() AT (0,0,0) ABSOLUTE\n'),
}
NAMES = list(BODY)
WAYS = {'s': dict(mcstas=True), 'x': dict(mcstas=False), 'e': dict(mcstas=True, enable_trace=True, portable=False, include_runtime=True)}
OPS = ['s', 'x', 'e', 'print', 'copy', 'flags', 'split', 'save']
ADDS = ['T', 'S', 'N', 'G', 'M', 'J', 'E', 'make']
BETWEEN = ['s', 'x', 'print', 'copy', 'flags', 'split', 'save', 'groups']
USES = ['again', 'keep', 'contents', 'save', 'close']
BASE = {}


def text(name):
    head, body = BODY[name]
    return f'DEFINE INSTRUMENT {name}{head}TRACE\n{body}END\n'


def registries(name):
    return [cgen.local('c22-others', OTHERS)] if name == 'other' else [cgen.local('c22', COMPS)]


def fresh(name):
    return cgen.parse(text(name), registries(name))


def code(instr, way):
    return masked(cgen.translate(instr, **WAYS[way]))


def masked(t):
    """Without the date, and without the names of scratch folders"""
    t = re.sub(r'(Date: ).*', r'\1', t)
    return t.replace(str(env.SCRATCH), 'SCRATCH')


def view(instr):
    from io import StringIO
    with cgen.quiet():
        return dict(text=str(instr).partition('*/')[2], flags=list(instr.flags), source=instr.source, groups=sorted((k, [c.name for c in g.members] if hasattr(g, 'members') else str(g)) for k, g in instr.groups.items()),
                    parameters=[str(p) for p in instr.parameters], types=[(c.name, c.type.name, repr(c.type.setting)) for c in instr.components])


ONE = '''
import sys, json
sys.path.insert(0, %r)
from mc import env
env.bootstrap()
from mc.checks import c22
name, way = sys.argv[1:3]
todo = [(name, way)] if name != '*' else [(n, w) for n in c22.NAMES for w in (c22.WAYS if way == '*' else [way])]
sys.stdout.write('\\n' + json.dumps([[n, w, c22.code(c22.fresh(n), w)] for n, w in todo]))
'''


def process(name, way, seed):
    r = subprocess.run([sys.executable, '-c', ONE % str(env.VERIF), name, way], env=dict(os.environ, PYTHONHASHSEED=str(seed), MC_REPO=str(env.REPO)), capture_output=True, text=True, timeout=200)
    if r.returncode:
        raise RuntimeError(f'a fresh process failed: {r.stderr[-600:]}')
    return {(n, w): c for n, w, c in json.loads(r.stdout.split('\n')[-1])}


def baseline(name, way):
    """What a process gives which does nothing else; one for each instrument and way"""
    if not BASE:
        done = env.SCRATCH / 'c22-baseline.json'
        BASE.update({tuple(k): v for k, v in json.loads(done.read_text())})
    return BASE[(name, way)]


def setup(tier):
    import concurrent.futures as cf
    pairs = [(n, w) for n in NAMES for w in WAYS]
    with cf.ThreadPoolExecutor(8) as ex:
        got = list(ex.map(lambda nw: process(*nw, 0), pairs))
    (env.SCRATCH / 'c22-baseline.json').write_text(json.dumps([[list(k), v] for g in got for k, v in g.items()]))


def cases(tier):
    q = tier == 'quick'
    for seed in range(1, 7 if q else 25):
        yield ['hash', seed]
    for n in NAMES:
        for w in WAYS:
            yield ['history', n, [], w]
            for o in OPS:
                yield ['history', n, [[n, o]], w]
            for other in NAMES if w == 's' or not q else []:
                for o in ('s', 'copy', 'save') if q else OPS:
                    for o2 in OPS if not q else OPS[:1]:
                        yield ['history', n, [[other, o], [n, o2]], w]
                    yield ['history', n, [[n, 's'], [other, o]], w]
            for ops in itertools.product(OPS, repeat=2 if q else 3):
                if w == 's' or not q:
                    yield ['history', n, [[n, o] for o in ops], w]
    for n in range(1, 3 if q else 4):
        for adds in itertools.product(ADDS, repeat=n + 1):
            yield ['grow', list(adds), [list(obs) for obs in itertools.product(BETWEEN if n == 1 else BETWEEN[:1] if q or n > 2 else BETWEEN[:4], repeat=n)]]
    for n in NAMES:
        for us in itertools.product(USES, repeat=3 if n in ('logic', 'parts') or not q else 2):
            yield ['uses', n, list(us)]
    for order in itertools.product(range(4), repeat=2 if q else 3):
        yield ['macros', list(order)]


def run_case(case):
    r = Result(states=1, transitions=0)
    globals()['_' + case[0]](case[1:], r)
    return r


def same(r, key, got, want, label):
    r.transitions += 1
    if got != want:
        a, b = got.split('\n'), want.split('\n')
        k = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
        r.problems.append((key, f'the program has {a[k:k + 3]} instead of {b[k:k + 3]} (line {k}) for {label}'))


def _hash(args, r):
    for (n, w), c in process('*', '*', args[0]).items():
        same(r, 'hash', c, baseline(n, w), f'{n} {w} with string hashes {args[0]}')
    r.states = len(NAMES) * len(WAYS)
    r.outcome = 'hash'


def perform(instr, op, i=0):
    """An operation which looks at the instrument or makes something of it"""
    with cgen.quiet():
        if op in WAYS:
            code(instr, op)
        elif op == 'print':
            str(instr)
        elif op == 'copy':
            other = instr.copy()
            code(other, 'x')
            if other.components:
                other.components[0].name = 'changed'
        elif op == 'flags':
            instr.decoded_flags()
        elif op == 'split':
            if len(instr.components) > 1:
                a, b = instr.split(instr.components[1])
                if any(c.jump for c in b.components):  # to a component which is not in the part
                    str(b)
                else:
                    code(b, 's')
        elif op == 'save':
            from mccode_antlr.io import save_hdf5, load_hdf5
            f = env.SCRATCH / 'work' / f'c22-{os.getpid()}.h5'
            f.unlink(missing_ok=True)
            save_hdf5(instr, str(f))
            code(load_hdf5(str(f)), 's')
        elif op == 'groups':
            instr.determine_groups()


def _history(args, r):
    name, ops, way = args
    objects = {}
    for n, op in ops:
        if n not in objects:
            objects[n] = fresh(n)
        before = view(objects[n])
        perform(objects[n], op)
        after = view(objects[n])
        r.transitions += 1
        if before != after:
            bad = [k for k in before if before[k] != after[k]]
            r.problems.append((f'changed {op}:{bad[0]}', f'{op} changed {bad[0]} of {n} from {before[bad[0]]} to {after[bad[0]]}'))
    instr = objects[name] if name in objects else fresh(name)
    same(r, f'history {ops[-1][1] if ops else "none"}', code(instr, way), baseline(name, way), args)
    same(r, f'history {ops[-1][1] if ops else "none"} new', code(fresh(name), way), baseline(name, way), args)
    r.states = len(ops) + 1
    r.outcome = [name, way]
    r.nontrivial = bool(ops)


def add(a, kind, k):
    A = a
    if kind in 'TSNM':
        A.component(f'c{k}', kind, at=[0, 0, k])
    elif kind == 'G':
        A.component(f'c{k}', 'M', at=[0, k, 0], group='g')
    elif kind == 'J':
        from mccode_antlr.instr.jump import Jump
        from mccode_antlr.common import Expr
        c = A.component(f'c{k}', 'T', at=[0, 0, k])
        c.JUMP(Jump('c0' if k else 'MYSELF', 0, False, Expr.parse('x > 1'))) if k else None
    elif kind == 'E':
        A.component(f'c{k}', 'S', at=[0, 0, k], extend='\n%include "twolib"\ns_var = 1;\n')
    elif kind == 'make':
        A.instrument.make_instance(f'c{k}', 'T', at_relative=place(k), rotate_relative=place(0))


def place(k):
    from mccode_antlr.instr.orientation import Vector, Angles
    from mccode_antlr.common import Expr
    return (Vector if k else Angles)(Expr.float(0), Expr.float(0), Expr.float(k)), None


def grown(adds, between):
    from mccode_antlr.assembler import Assembler
    with cgen.quiet():
        a = Assembler('inst', registries=[cgen.local('c22', COMPS), cgen.libc()])
        for k, kind in enumerate(adds):
            add(a, kind, k)
            if k < len(between):
                perform(a.instrument, between[k])
    return a.instrument


def _grow(args, r):
    adds, each = args
    two = grown(adds, [])
    program, b = code(two, 's'), view(two)
    for obs in each:
        one = grown(adds, obs)
        label = [adds, obs]
        same(r, f'grow {obs[-1]}', code(one, 's'), program, label)
        a = view(one)
        for k in a:
            if a[k] != b[k]:
                r.problems.append((f'grow view:{k}', f'{k} is {a[k]} instead of {b[k]} for {label}'))
    r.states = len(adds) * len(each)
    r.outcome = adds


def _uses(args, r):
    from mccode_antlr.translators.c import CTargetVisitor
    name, uses = args
    with cgen.quiet():
        visitor = CTargetVisitor(fresh(name), generate=cgen.generator(), config=dict(cgen.CONFIG))
        f = env.SCRATCH / 'work' / f'c22-{os.getpid()}.c'
        for u in uses:
            f.unlink(missing_ok=True)
            got = None
            if u == 'again':
                got = visitor.translate().getvalue()
            elif u == 'keep':
                got = visitor.translate(reprocess=False).getvalue()
            elif u == 'contents':
                got = visitor.contents()
            elif u == 'save':
                visitor.save(filename=str(f), close=False)
                got = f.read_text()
            elif u == 'close':
                visitor.save(filename=str(f), close=True)
                got = f.read_text()
            same(r, f'uses {u}', masked(got).rstrip('\n'), baseline(name, 's').rstrip('\n'), args)
    r.outcome = name


MACROS = '''
const char *m_name = "@MCCODE_NAME@", *m_particle = "@MCCODE_PARTICLE@", *m_version = "@MCCODE_VERSION@", *m_unknown = "@MCCODE_NOT_KNOWN@", *m_libenv = "@MCCODE_LIBENV@";
int m_code = @MCCODE_PARTICLE_CODE@; /* m_macro=@MCCODE_VERSION_MACRO@; m_date=@MCCODE_DATE@; */
'''


def libc_of(version):
    from mccode_antlr.reader.registry import LocalRegistry
    folder = env.SCRATCH / 'c22-libc'
    if not (folder / 'mccode_main.c').exists():
        cgen.write_runtime(folder)
        (folder / 'mccode-r.h.in').write_text(cgen.H + MACROS)
    reg = LocalRegistry('libc', str(folder))
    reg.version = version
    return reg


def _macros(args, r):
    from mccode_antlr.loader.loader import parse_mccode_instr
    import datetime
    for k in args[0]:
        flavor, version = ('mcstas', 'mcxtrace')[k % 2], ('3.5.21', '3.12.4')[k // 2]
        with cgen.quiet():
            instr = parse_mccode_instr(text('empty'), registries('empty') + [libc_of(version)])
        today = [datetime.datetime.now(datetime.timezone.utc).strftime('%Y-%m-%d')]
        c = cgen.translate(instr, mcstas=flavor == 'mcstas')
        today.append(datetime.datetime.now(datetime.timezone.utc).strftime('%Y-%m-%d'))
        got = dict(re.findall(r'(m_\w+) ?= ?"?([^",;]*)"?[,;]', c))
        major, minor, micro = (int(x) for x in version.split('.'))
        want = dict(m_name=flavor, m_particle='neutron' if flavor == 'mcstas' else 'xray', m_version=version, m_unknown='{UNKNOWN}', m_libenv=flavor.upper(), m_code='2112' if flavor == 'mcstas' else '22',
                    m_macro=str((major * 100 + minor) * 1000 + micro), m_date=got.get('m_date'))
        r.transitions += 1
        if any(got.get(x) != v for x, v in want.items()) or got['m_date'] not in today:
            bad = [x for x in want if got.get(x) != want[x]] or ['m_date']
            r.problems.append((f'macros:{bad[0]}', f'{bad[0]} is {got.get(bad[0])} instead of {want[bad[0]]} for {flavor} and version {version} in {args}'))
    r.outcome = args[0]
