"""C13: runs and scans start the program once per point, with the values of this point and the options which were asked for."""
import itertools, os, sys, subprocess, shutil, stat, io, contextlib
from pathlib import Path
from fractions import Fraction
from ..base import Result
from .. import env, cgen
from . import c12

PID = 'C13'
LEVEL = 'model_checking'
ASSUMPTIONS = ['the started program is a stand-in, which records its arguments and, like McCode programs, makes its own output directory and fails if that exists',
               'the order of the arguments is not judged; MPI programs are started by a stand-in for mpirun']
BOUND = ('every scan of up to 2 (thorough: 3) parameters over a menu as line and grid, with every subset of runtime options (one scan) or a menu of them, into new, existing, nested and oddly named folders; '
         'every command line of a program with up to 2 (thorough: 3) options at any place among its parameters; instruments compiled and run by every entry point, again after they changed')

PROGRAM = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
static int record(int argc, char **argv, const char *table) {
  const char *dir = NULL; int k; char path[4096]; FILE *f; double v = 0;
  for (k = 1; k < argc; k++) {
    if (!strcmp(argv[k], "--dir") || !strcmp(argv[k], "-d")) dir = argv[k + 1];
    else if (!strncmp(argv[k], "--dir=", 6)) dir = argv[k] + 6;
    if (!strncmp(argv[k], "a=", 2)) v = atof(argv[k] + 2);
    if (!strcmp(argv[k], "fail=1")) { fprintf(stderr, "told to fail\n"); return 7; }
  }
  if (!dir) { fprintf(stderr, "no directory\n"); return 3; }
  if (mkdir(dir, 0777)) { fprintf(stderr, "can not make %s\n", dir); return 4; }
  snprintf(path, sizeof path, "%s/arguments", dir);
  if (!(f = fopen(path, "w"))) return 5;
  for (k = 1; k < argc; k++) { fputs(argv[k], f); fputc(0, f); }
  if (getenv("MC_LAUNCHED")) { fputs("LAUNCHED ", f); fputs(getenv("MC_LAUNCHED"), f); fputc(0, f); }
  if (*table) { fputs("TABLE ", f); fputs(table, f); fputc(0, f); }
  fclose(f);
  snprintf(path, sizeof path, "%s/det.dat", dir);
  if (!(f = fopen(path, "w"))) return 5;
  fprintf(f, "# type: array_1d(2)\n# variables: x I I_err N\n# Param: a=%g\n1 %g 0.1 1\n2 0 0 0\n", v, v);
  fclose(f);
  printf("ran with a=%g\n", v);
  return 0;
}
'''
PLAIN = PROGRAM + 'int main(int argc, char **argv) { return record(argc, argv, ""); }\n'
MAIN = PROGRAM + r'''
int mccode_main(int argc, char *argv[]) {
  char table[4096] = ""; int i;
  strcat(table, instrument_name);
  for (i = 0; i < numipar; i++) { strcat(table, " "); strcat(table, mcinputtable[i].name); }
  return record(argc, argv, table);
}
'''
ARM = 'DEFINE COMPONENT Arm\nTRACE\n%{\n%}\nEND\n'
MPIRUN = '#!/bin/sh\nwhile [ $# -gt 0 ]; do case "$1" in -np|-machinefile) n="$n $1 $2"; shift 2;; *) break;; esac; done\nMC_LAUNCHED="mpirun$n" exec "$@"\n'
SETS = [None, ('a', '5'), ('a', '1:3'), ('B', '0:0.1:0.2'), ('cC', 'word'), ('d', '3:-1:1'), ('e', '-2'), ('f', '1:2'), ('g', '1:1.5:2'), ('h', 'two words'), ('i', '0:0.5:3')]
OPTIONS = [('seed', 7, '--seed=7'), ('ncount', 100, '--ncount=100'), ('trace', True, '--trace'), ('gravitation', True, '--gravitation'), ('bufsiz', 50, '--bufsiz=50'), ('format', 'McStas', '--format=McStas')]
SOME = [{}, {'seed': 0, 'ncount': 0}, {'s': 3, 'n': 4, 't': True, 'g': True}, {'seed': None, 'ncount': None, 'trace': False, 'gravitation': False, 'bufsiz': None, 'format': None},
        {'trace': True, 'seed': 11}, {'n': 10, 'gravitation': True, 'trace': False}]
WHERE = ['new', 'text', 'nested', 'exists', 'space', 'none']
ARGS = [(['-n', '100'], '--ncount=100'), (['--ncount', '100'], '--ncount=100'), (['--ncount=100'], '--ncount=100'), (['-s', '7'], '--seed=7'), (['--seed=7'], '--seed=7'), (['-t'], '--trace'), (['--trace'], '--trace'),
        (['-g'], '--gravitation'), (['--bufsiz', '50'], '--bufsiz=50'), (['--format', 'NeXus'], '--format=NeXus'), (['-m'], 'MESH'), (['--mesh'], 'MESH'), (['-d', 'out'], 'DIR out'), (['--directory=deep/er'], 'DIR deep/er'),
        (['--verbose'], None), (['--dryrun'], 'DRY'), (['--parallel', '--process-count', '3'], 'MPI 3'), (['--parallel'], 'MPI 0')]
PARS = [[('a', '1:3')], [('a', '5')], [('a', '1:2'), ('b', '-1')], [('a', '1:2'), ('B', '3:4')], [('x', 'text'), ('a', '2:-1:1')]]
CASE_SECONDS = 120


def setup(tier):
    base = env.SCRATCH / 'c13'
    base.mkdir()
    exe = base / 'program'
    subprocess.run(['gcc', '-O0', '-w', '-x', 'c', '-', '-o', str(exe)], input=PLAIN, text=True, check=True)
    launcher = base / 'mpirun'
    launcher.write_text(MPIRUN)
    launcher.chmod(0o755)
    os.environ['MCCODEANTLR_MPI__RUN'] = str(launcher)
    os.environ.pop('MC_LAUNCHED', None)
    # the distributed libraries are served from the cache
    import hashlib
    cgen.write_runtime(base / 'runtime')
    (base / 'runtime' / 'mccode_main.c').write_text(MAIN)
    (base / 'comps').mkdir()
    (base / 'comps' / 'Arm.comp').write_text(ARM)
    for name, folder in (('libc', base / 'runtime'), ('mcstas', base / 'comps'), ('mcxtrace', base / 'comps')):
        cache = env.SCRATCH / 'cache' / 'mccode_antlr' / name / 'v0.0.0'
        lines = []
        for f in sorted(folder.iterdir()):
            shutil.copy(f, cache / f.name)
            lines.append(f'{f.name} sha256:{hashlib.sha256(f.read_bytes()).hexdigest()}')
        (cache / f'{name}-registry.txt').write_text('\n'.join(lines) + '\n')


def cases(tier):
    q = tier == 'quick'
    most = 2 if q else 3
    combos = [c for n in range(most + 1) for c in itertools.combinations(range(1, len(SETS)), n) if not {1, 2} <= set(c)]
    for c in combos:
        for grid in range(2):
            for w in (range(len(WHERE)) if len(c) < 2 or not q else [(sum(c) + grid) % len(WHERE)]):
                for o in (range(len(SOME)) if len(c) < 2 else [(sum(c) + w) % len(SOME)]):
                    yield ['scan', list(c), grid, w, o]
    for bits in range(1 << len(OPTIONS)):
        yield ['options', bits]
    for p in range(len(PARS)):
        for n in range(0, 3 if q else 4):
            for opts in itertools.permutations(range(len(ARGS)), n):
                if n == 3 and len(PARS[p]) == 1 or n == 3 and sum(opts) % 3:
                    continue
                yield ['command', p, list(opts)]
    for k in range(len(SOURCES)):
        for flavor in range(2):
            yield ['source', k, flavor]
    for grid in range(2):
        for at in range(3):
            yield ['fails', grid, at]


def run_case(case):
    r = Result(states=1, transitions=0)
    here = env.SCRATCH / 'c13' / f'at{os.getpid()}'
    shutil.rmtree(here, ignore_errors=True)
    here.mkdir()
    back = os.getcwd()
    os.chdir(here)
    try:
        globals()['_' + case[0]](here, case[1:], r)
    finally:
        os.chdir(back)
        shutil.rmtree(here, ignore_errors=True)
    return r


def program():
    return env.SCRATCH / 'c13' / 'program'


def recorded(folder):
    """{relative folder: list of arguments} of every start of the program"""
    return {f.parent.relative_to(folder).as_posix(): f.read_text().split('\0')[:-1] for f in sorted(folder.rglob('arguments'))}


def split(args):
    """(directory, options, parameters, extra)"""
    args = list(args)
    dirs, options, pars, extra = [], [], {}, []
    while args:
        a = args.pop(0)
        if a in ('--dir', '-d'):
            dirs.append(args.pop(0))
        elif a.startswith('--dir='):
            dirs.append(a[6:])
        elif a in ('-n', '--ncount', '-s', '--seed', '--bufsiz', '--format') and args:
            options.append({'-n': '--ncount', '-s': '--seed'}.get(a, a) + '=' + args.pop(0))
        elif a in ('-t', '-g'):
            options.append({'-t': '--trace', '-g': '--gravitation'}[a])
        elif a.startswith('LAUNCHED ') or a.startswith('TABLE '):
            extra.append(a)
        elif a.startswith('-'):
            options.append(a)
        else:
            k, eq, v = a.partition('=')
            pars[k] = v if eq and k not in pars else None
    return dirs, sorted(options), pars, extra


def close(text, want):
    if text is None:
        return False
    if isinstance(want, str):
        return text == want
    try:
        return c12.same(Fraction(text), want, Fraction(1, 100))
    except ValueError:
        return False


def judge(r, what, base, runs, names, points, options, folder, extra=None):
    """Every point was run once, in its folder, with its values"""
    r.transitions += len(runs)
    many = len(points) > 1
    folders = [f'{folder}/{i}' if many else folder for i in range(len(points))]
    if sorted(runs) != sorted(folders):
        r.problems.append(('folders', f'{what}: the program ran in {sorted(runs)}, should be {folders}'))
        return
    for f, point in zip(folders, points):
        dirs, opts, pars, more = split(runs[f])
        if len(dirs) != 1 or (base / dirs[0]).resolve() != (base / f).resolve():
            r.problems.append(('directory', f'{what}: --dir is {dirs} in {f}'))
        if opts != sorted(options):
            r.problems.append(('options', f'{what}: options in {f} are {opts}, should be {sorted(options)}'))
        if sorted(pars) != sorted(names) or not all(close(pars[n], v) for n, v in zip(names, point)):
            r.problems.append(('parameters', f'{what}: parameters in {f} are {pars}, should be {dict(zip(names, map(str, point)))}'))
        if extra is not None and more != extra:
            r.problems.append(('started', f'{what}: {more}, should be {extra}'))


def standard(options):
    out = []
    for names, form in ((('seed', 's'), '--seed={}'), (('ncount', 'n'), '--ncount={}'), (('bufsiz',), '--bufsiz={}'), (('format',), '--format={}')):
        for n in names:
            if options.get(n) is not None:
                out.append(form.format(options[n]))
    for names, form in ((('trace', 't'), '--trace'), (('gravitation', 'g'), '--gravitation')):
        if any(options.get(n) for n in names):
            out.append(form)
    return out


def _scan(here, args, r, options=None):
    from mccode_antlr.run.runner import mccode_run_scan
    from mccode_antlr.run.range import parse_scan_parameters
    from mccode_antlr.compiler.c import CBinaryTarget
    combo, grid, w, o = args
    options = SOME[o] if options is None else options
    names = [SETS[i][0] for i in combo]
    values = [c12.value(SETS[i][1])[0] for i in combo]
    parameters = parse_scan_parameters([f'{SETS[i][0]}={SETS[i][1]}' for i in combo])
    points = c12.expected(values, bool(grid))
    where = WHERE[w]
    folder = {'new': 'out', 'text': 'out', 'nested': 'some/where/out', 'exists': 'out', 'space': 'out put', 'none': None}[where]
    if where == 'exists':
        if points is None or len(points) < 2:
            return            # the output folder of one run is made by the program
        (here / folder).mkdir()
    what = f'{[SETS[i] for i in combo]} {"grid" if grid else "line"} {where} {options}'
    directory = None if folder is None else (folder if where == 'text' else here / folder)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            result = mccode_run_scan('inst', program(), CBinaryTarget(mpi=False, acc=False, count=1, nexus=False), parameters, directory, bool(grid), capture=True, **options)
    except ValueError as e:
        if points is not None:
            raise
        if recorded(here):
            r.problems.append(('partial', f'{what}: refused after running'))
        return
    if points is None:
        r.problems.append(('accepted', what))
        return
    runs = recorded(here)
    if folder is None:
        tops = {k.split('/')[0] for k in runs}
        if len(tops) != 1 or not next(iter(tops)).startswith('inst'):
            r.problems.append(('folders', f'{what}: {sorted(runs)}'))
            return
        folder = tops.pop()
    judge(r, what, here, runs, names, points or [()], standard(options), folder)
    results = result if isinstance(result, list) else [result]
    if len(results) != max(1, len(points)):
        r.problems.append(('results', f'{what}: {len(results)} results'))
    elif not r.problems:
        for point, (output, dats) in zip(points or [()], results):
            a = next((v for n, v in zip(names, point) if n == 'a'), Fraction(0))
            if list(dats) != ['det'] or abs(dats['det']['I'][0] - float(a)) > 1e-6 or abs(float(dats['det']['a']) - float(a)) > 1e-6:
                r.problems.append(('results', f'{what}: point {point} has the data {dats}'))
            if f'ran with a={float(a):g}' not in str(output):
                r.problems.append(('results', f'{what}: point {point} has the output {output}'))
    r.outcome = [len(points), len(combo)]


def _options(here, args, r):
    opts = {k: v for i, (k, v, _) in enumerate(OPTIONS) if args[0] >> i & 1}
    for combo in ([1], [2]):
        _scan(here, [combo, 0, 0, 0], r, options=opts)
        shutil.rmtree(here / 'out')


def _command(here, args, r):
    from mccode_antlr.run.runner import mccode_run_cmd
    p, opts = args
    pars = PARS[p]
    units = [[f'{k}={v}'] if (i + len(opts)) % 2 == 0 else [k, v] for i, (k, v) in enumerate(pars)]
    positional = [[str(here / 'inst')]] + units
    for k, places in enumerate(itertools.product(range(len(positional) + 1), repeat=len(opts))):
        shutil.rmtree(here)
        here.mkdir()
        os.chdir(here)
        shutil.copy(program(), here / 'inst')
        argv, base = [], list(positional)
        slots = [[] for _ in range(len(positional) + 1)]
        for o, at in zip(opts, places):
            slots[at] += ARGS[o][0]
        for i in range(len(positional) + 1):
            argv += slots[i] + (positional[i] if i < len(positional) else [])
        effects = [ARGS[o][1] for o in opts if ARGS[o][1]]
        # contradicting options are not judged
        kinds = [e.split('=')[0].split()[0] for e in effects]
        if len(set(kinds)) != len(kinds):
            return
        grid = 'MESH' in effects
        directory = next((e[4:] for e in effects if e.startswith('DIR ')), None)
        mpi = next((e[4:] for e in effects if e.startswith('MPI ')), None)
        values = [c12.value(v)[0] for _, v in pars]
        points = c12.expected(values, grid)
        old, sys.argv = sys.argv, ['mcrun', *argv]
        out = io.StringIO()
        what = f'command {argv}'
        try:
            # whatever the program prints goes nowhere
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out), silent():
                mccode_run_cmd('mcstas', None, cgen.generator())
        except SystemExit as e:
            r.problems.append(('refused', f'{what}: ends with {e.code} {out.getvalue()[-200:]}'))
            continue
        finally:
            sys.argv = old
        runs = recorded(here)
        if 'DRY' in effects:
            r.transitions += 1
            if runs:
                r.problems.append(('dry', f'{what}: ran {sorted(runs)}'))
            continue
        if directory is None:
            tops = {x.split('/')[0] for x in runs}
            if len(tops) != 1 or not next(iter(tops)).startswith('inst'):
                r.problems.append(('folders', f'{what}: {sorted(runs)}'))
                continue
            directory = tops.pop()
        launched = [] if mpi is None else ['LAUNCHED mpirun' + (f' -np {mpi}' if mpi != '0' else '')]
        judge(r, what, here, runs, [k for k, _ in pars], points, [e for e in effects if e.startswith('--')], directory, launched)
    r.outcome = [len(opts), len(pars)]


@contextlib.contextmanager
def silent():
    """Also for started programs"""
    null = os.open(os.devnull, os.O_WRONLY)
    saved = os.dup(1), os.dup(2)
    os.dup2(null, 1)
    os.dup2(null, 2)
    try:
        yield
    finally:
        os.dup2(saved[0], 1)
        os.dup2(saved[1], 2)
        for f in (null, *saved):
            os.close(f)


SOURCES = ['plain', 'output', 'search', 'changed', 'h5', 'api', 'api again', 'api text', 'component changed', 'cwd', 'not there', 'uses binary']


def instr(name, pars, comp='Arm'):
    return f'DEFINE INSTRUMENT {name}({pars})\nTRACE\nCOMPONENT x = {comp}() AT (0,0,0) ABSOLUTE\nEND\n'


def cmd(flavor, argv):
    from mccode_antlr.run import runner
    old, sys.argv = sys.argv, ['run', *argv]
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), silent():
            (runner.mcxtrace_cmd if flavor else runner.mcstas_cmd)()
    finally:
        sys.argv = old


def _source(here, args, r):
    from mccode_antlr.run import runner
    from mccode_antlr.reader import LocalRegistry, MCSTAS_REGISTRY
    from mccode_antlr.loader.loader import parse_mccode_instr
    kind, flavor = SOURCES[args[0]], args[1]
    file = here / 'in.instr'
    file.write_text(instr('named', 'a=1, int n=2'))

    def expect(what, folder, names, points, table, options=()):
        runs = {k: v for k, v in recorded(here).items() if k == folder or k.startswith(folder + '/')}
        judge(r, f'{kind} {what}', here, runs, names, points, list(options), folder, [f'TABLE {table}'])
    F = Fraction
    if kind == 'plain':
        cmd(flavor, [str(file), 'a=1:2', '-d', 'out', '-n', '5'])
        expect('scan', 'out', ['a'], [(F(1),), (F(2),)], 'named a n', ['--ncount=5'])
    elif kind == 'output':
        cmd(flavor, ['in.instr', 'a=3', '-o', 'binary', '-d', 'out', '-t'])
        expect('one', 'out', ['a'], [(F(3),)], 'named a n', ['--trace'])
        if not (here / 'binary').exists():
            r.problems.append(('output', f'{kind}: no binary, but {[x.name for x in here.iterdir()]}'))
    elif kind == 'search':
        (here / 'more').mkdir()
        (here / 'more' / 'Special.comp').write_text(ARM.replace('Arm', 'Special'))
        file.write_text(instr('named', 'a=1', 'Special'))
        cmd(flavor, ['-I', 'more', 'in.instr', 'a=3', '-d', 'out'])
        expect('one', 'out', ['a'], [(F(3),)], 'named a')
    elif kind == 'cwd':
        (here / 'Special.comp').write_text(ARM.replace('Arm', 'Special'))
        file.write_text(instr('named', 'a=1', 'Special'))
        cmd(flavor, ['in.instr', 'a=3', '-d', 'out'])
        expect('one', 'out', ['a'], [(F(3),)], 'named a')
    elif kind == 'changed':
        cmd(flavor, ['in.instr', 'a=3', '-d', 'out'])
        expect('before', 'out', ['a'], [(F(3),)], 'named a n')
        file.write_text(instr('named', 'a=1, int n=2, other=3'))
        cmd(flavor, ['in.instr', 'a=3', '-d', 'out2'])
        expect('after a change', 'out2', ['a'], [(F(3),)], 'named a n other')
    elif kind == 'component changed':
        (here / 'Special.comp').write_text(ARM.replace('Arm', 'Special'))
        file.write_text(instr('named', 'a=1', 'Special'))
        cmd(flavor, ['in.instr', 'a=3', '-d', 'out'])
        (here / 'Special.comp').write_text(ARM.replace('Arm', 'Special').replace('TRACE', 'SHARE %{\n#error changed\n%}\nTRACE'))
        try:
            cmd(flavor, ['in.instr', 'a=3', '-d', 'out2'])
        except RuntimeError:
            pass
        if 'out2' in recorded(here):
            r.problems.append(('stale', 'a changed component is not used'))
    elif kind == 'h5':
        from mccode_antlr.io import save_hdf5
        with cgen.quiet():
            i = parse_mccode_instr(file.read_text(), [MCSTAS_REGISTRY])
        save_hdf5(i, here / 'in.h5')
        cmd(flavor, ['in.h5', 'a=3', '-d', 'out'])
        expect('one', 'out', ['a'], [(F(3),)], 'named a n')
    elif kind == 'not there':
        try:
            cmd(flavor, ['other.instr', 'a=3', '-d', 'out'])
            r.problems.append(('accepted', 'an instrument which is not there'))
        except RuntimeError:
            pass
    elif kind == 'uses binary':
        cmd(flavor, ['in.instr', 'a=3', '-d', 'out', '-o', 'binary'])
        file.unlink()
        cmd(flavor, ['binary', 'a=4:5', '-d', 'out2'])
        expect('binary', 'out2', ['a'], [(F(4),), (F(5),)], 'named a n')
    else:
        with cgen.quiet():
            i = parse_mccode_instr(file.read_text(), [MCSTAS_REGISTRY])
        folder = here / 'made' / 'here'
        from mccode_antlr.run.range import MRange, Singular

        def run(parameters, **kw):
            with contextlib.redirect_stdout(io.StringIO()), silent():
                return runner.mccode_run(i, cgen.generator(not flavor), parameters, str(folder) if kind == 'api text' else folder, **kw)
        if kind == 'api':
            folder.mkdir(parents=True)
        run({'a': MRange(1, 2, 1)}, ncount=3, seed=4, verbose=None)
        runs = recorded(folder)
        tops = sorted({x.split('/')[0] for x in runs})
        if len(tops) != 1 or not tops[0].startswith('named'):
            r.problems.append(('folders', f'{kind}: {sorted(runs)}'))
            return
        judge(r, kind, folder, runs, ['a'], [(F(1),), (F(2),)], ['--ncount=3', '--seed=4'], tops[0], ['TABLE named a n'])
        if kind == 'api again':
            # the program is there by now
            shutil.rmtree(folder / tops[0])
            run({'a': [1, 2], 'n': Singular(3)}, mesh=True, trace=True)
            runs = recorded(folder)
            tops = sorted({x.split('/')[0] for x in runs})
            judge(r, kind, folder, runs, ['a', 'n'], [(F(1), F(3)), (F(2), F(3))], ['--trace'], tops[0] if tops else 'none', ['TABLE named a n'])
    r.outcome = kind


def _fails(here, args, r):
    from mccode_antlr.run.runner import mccode_run_scan
    from mccode_antlr.compiler.c import CBinaryTarget
    grid, at = args
    values = [0, 0, 0]
    values[at] = 1
    for capture in (True, False):
        try:
            with silent():
                got = mccode_run_scan('inst', program(), CBinaryTarget(mpi=False, acc=False, count=1, nexus=False), {'fail': values}, here / f'out{capture}', bool(grid), capture=capture)
            r.problems.append(('failure', f'a program which fails at point {at} is not reported: {got}'))
        except RuntimeError:
            pass
        r.transitions += 1
