"""C24: the command-line translators write the program of exactly the given file, with the given options, where they were asked to.

All combinations of options, of places where files are and of bounded ways to name them are performed by the real command functions in a folder of files which are recorded;
the programs are compared with those of the library functions, built and run.
"""
import contextlib, io, itertools, os, re, shutil, subprocess, sys
from pathlib import Path
from ..base import Result
from .. import cgen, env
from . import c13, c22

PID = 'C24'
LEVEL = 'model_checking'
ASSUMPTIONS = ['the library functions give the right program of an instrument (see the other properties); the distributed libraries are a small stand-in, served from the cache',
               'files which are only in the folder of the instrument (neither given by -I nor in the working directory) are not judged']
BOUND = ('all 2^6 sets of options for 6 instruments, both flavors, as text and HDF5; all subsets of 4 places for four kinds of files and all orders of two -I folders; all ways to name input and output for 6 file names with and without a file there before; '
         'all 2^4 options with the built program; a menu of texts (thorough: all pairs) embedded; 12 errors with and without a file there before')
CHUNK = 4
CASE_SECONDS = 200

OPTIONS = ['-t', '-p', '--source', '--no-main', '--no-runtime', '--verbose']
LONG = ['--trace', '--portable', '--source', '--no-main', '--no-runtime', '--verbose']
MAIN = r'''
#ifdef MC_USE_DEFAULT_MAIN
#define MCX_DEFAULT 1
#else
#define MCX_DEFAULT 0
#endif
#ifdef MC_PORTABLE
#define MCX_PORTABLE 1
#else
#define MCX_PORTABLE 0
#endif
#ifdef MC_TRACE_ENABLED
#define MCX_TRACE 1
#else
#define MCX_TRACE 0
#endif
int mccode_main(int argc, char *argv[]) {
  printf("%s %s %d %d %d %d %d\n", instrument_name, FLAVOR, traceenabled, MCX_TRACE, defaultmain, MCX_DEFAULT, MCX_PORTABLE);
  fputs(instrument_source, stdout); fputc(1, stdout); fputs(instrument_code, stdout); fputc(1, stdout);
  init();
  return 0; }
'''
MARK = {'comp': ('Mark.comp', 'DEFINE COMPONENT Mark\nINITIALIZE\n%{{\n  printf("FROM {0}\\n");\n%}}\nTRACE\n%{{\n%}}\nEND\n'),
        'instr': ('part.instr', 'DEFINE INSTRUMENT part()\nINITIALIZE\n%{{\n  printf("FROM {0}\\n");\n%}}\nTRACE\nCOMPONENT in_part = Arm() AT (0,0,0) ABSOLUTE\nEND\n'),
        'lib': ('mark-lib.h', '#define MARKED printf("FROM {0}\\n");\n'), 'file': ('mark.txt', 'printf("FROM {0}\\n");\n')}
USER = {'comp': 'COMPONENT m = Mark() AT (0,0,0) ABSOLUTE\n', 'instr': '%include "part.instr"\n', 'lib': 'COMPONENT m = Arm() AT (0,0,0) ABSOLUTE\n', 'file': 'COMPONENT m = Arm() AT (0,0,0) ABSOLUTE\n'}
INIT = {'comp': '', 'instr': '', 'lib': 'DECLARE\n%{\n%include "mark-lib"\n%}\nINITIALIZE\n%{\nMARKED\n%}\n', 'file': 'INITIALIZE\n%{\n%include "mark.txt"\n%}\n'}
PLACES = ['A', 'B', 'cwd', 'far']
WHERE = {'A': 'A', 'B': 'more/A', 'cwd': 'cwd'}  # two of them with the same last name
ORDERS = [[], ['A'], ['B'], ['A', 'B'], ['B', 'A']]
FORMS = ['-I {0}', '-I{0}', '--search-dir={0}', '--search-dir {0}']
INPUTS = ['one.instr', 'sub/one.instr', 'two.parts.instr', 'with space.instr', '../cwd/one.instr', 'one']
OUTPUTS = [None, 'out.c', 'deep/out.c', 'other.txt', '{cwd}/absolute.c', 'one.instr.c', 'with space.c']
TEXTS = ['', '// a "quoted" word\n', '// back\\slash \\n \\" \\\\ end\\\n', '// 100 % %s %d %%\n', "// it's ??/ ??= tri\n", '// \u00e4 \u2192 \U0001f600 \u00e4bc1 \u00ff0\n', '\t// tab\n', '// no end of line', '/* two\n lines */\n', '\n\n\n', '// \\0 \\x41 \\101 0x12\n', '// ' + 'long ' * 2000 + '\n']
ERRORS = ['no file', 'folder', 'component', 'parameter', 'uservars', 'include', 'jump', 'source h5', 'no input', 'library', 'half a library', 'late']


def fill(root):
    """The distributed files"""
    root.mkdir(parents=True, exist_ok=True)
    for n, c in c22.COMPS.items():
        if n.endswith('.comp'):
            (root / n).write_text(c)


def setup(tier):
    import hashlib
    c13.setup(tier)
    (env.SCRATCH / 'work').mkdir(exist_ok=True)
    for name in ('libc', 'mcstas', 'mcxtrace'):
        cache = env.SCRATCH / 'cache' / 'mccode_antlr' / name / 'v0.0.0'
        if name == 'libc':
            (cache / 'mccode_main.c').write_text(MAIN)
            (cache / 'mccode-r.h').write_text(cgen.H)
        else:
            fill(cache)
            for n, c in MARK.values():
                (cache / ('far-' + n if n != 'Mark.comp' else 'Far.comp')).write_text(c.format('far'))
            for kind, (n, c) in MARK.items():
                (cache / n).write_text(c.format('far'))
            (cache / 'mark-lib.c').write_text('/* */\n')
            for n, c in c22.COMPS.items():
                if n.endswith(('.h', '.c')):
                    (cache / n).write_text(c)
        files = [f for f in sorted(cache.iterdir()) if not f.name.endswith('-registry.txt')]
        (cache / f'{name}-registry.txt').write_text('\n'.join(f'{f.name} sha256:{hashlib.sha256(f.read_bytes()).hexdigest()}' for f in files) + '\n')


def cases(tier):
    q = tier == 'quick'
    for name in c22.NAMES:
        if name == 'other':
            continue
        for flavor in range(2):
            for way in ('instr', 'h5'):
                for bits in range(64):
                    if not q or name in ('logic', 'parts') and flavor == 0 or bin(bits).count('1') < 2:
                        yield ['program', name, flavor, way, bits]
    for kind in MARK:
        for n in range(16):
            for o in range(len(ORDERS)):
                for form in range(len(FORMS)):
                    if not q or form == (n + o) % len(FORMS):
                        yield ['files', kind, n, o, form]
    for i in range(len(INPUTS)):
        for o in range(len(OUTPUTS)):
            for before in range(3):
                for way in ('instr', 'h5'):
                    if way == 'instr' or INPUTS[i].endswith('.instr'):
                        yield ['output', i, o, before, way]
    for bits in range(16):
        for flavor in range(2):
            yield ['main', bits, flavor]
    for n in (1,) if q else (1, 2):
        for ts in itertools.product(range(len(TEXTS)), repeat=n):
            for place in range(2):
                yield ['source', list(ts), place]
    for e in range(len(ERRORS)):
        for before in range(2):
            for real in range(2):
                yield ['error', e, before, real]


def run_case(case):
    r = Result(states=1, transitions=0)
    root = env.SCRATCH / 'work' / f'c24-{os.getpid()}'
    shutil.rmtree(root, ignore_errors=True)
    for d in ('cwd/sub', 'A', 'more/A', 'cwd/deep', 'elsewhere'):
        (root / d).mkdir(parents=True)
    back = os.getcwd()
    os.chdir(root / 'cwd')
    try:
        globals()['_' + case[0]](root, case[1:], r)
    finally:
        os.chdir(back)
        shutil.rmtree(root, ignore_errors=True)
    r.outcome = [case[0], len(r.problems)]
    return r


# ---- helpers

def command(argv, flavor=0, real=False):
    """Give what the command prints and its exit code or exception"""
    if real:
        e = dict(os.environ, PYTHONPATH=str(env.REPO / 'src'))
        c = f'import sys; sys.argv[0] = "x"; from mccode_antlr.cli.commands import {("mcstas", "mcxtrace")[flavor]} as f; sys.exit(f())'
        p = subprocess.run([sys.executable, '-B', '-c', c, *argv], capture_output=True, text=True, env=e, timeout=100)
        return p.stdout, p.returncode
    from mccode_antlr.cli import commands
    old, sys.argv = sys.argv, ['x', *argv]
    out = io.StringIO()
    code = 0
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            (commands.mcxtrace if flavor else commands.mcstas)()
    except SystemExit as e:
        code = e.code or 0
    except Exception as e:
        code = f'{type(e).__name__}: {e}'
    finally:
        sys.argv = old
    return out.getvalue(), code


def snapshot(root):
    return {str(f.relative_to(root)): f.read_bytes() if f.is_file() else None for f in sorted(root.rglob('*'))}


def load(file, flavor=0, registries=()):
    from mccode_antlr.loader import loader
    with cgen.quiet():
        return (loader.load_mcxtrace_instr if flavor else loader.load_mcstas_instr)(file, list(registries))


def save_h5(file, instr):
    from mccode_antlr.io import save_hdf5
    with cgen.quiet():
        save_hdf5(instr, file)


def masked(text):
    return re.sub(r'^( \* |\s+\* )(Date|File): .*$', '', text, flags=re.M)


def difference(a, b):
    la, lb = a.split('\n'), b.split('\n')
    k = next((k for k, (x, y) in enumerate(zip(la, lb)) if x != y), min(len(la), len(lb)))
    return f'line {k + 1}: {la[k:k + 2]} instead of {lb[k:k + 2]}'


def run(file, r, key, flags=()):
    try:
        return cgen.execute(cgen.build(file.read_text(), flags))[1]
    except cgen.CompileError as e:
        r.problems.append((f'{key}:build', str(e)))


# ---- cases

def _program(root, args, r):
    name, flavor, way, bits = args
    from mccode_antlr.compiler.c import instrument_source
    file = root / 'cwd' / f'{name}.instr'
    file.write_text(c22.text(name))
    (root / 'cwd' / 'part.instr').write_text(c22.COMPS['part.instr'])
    given = file
    from mccode_antlr.reader import LocalRegistry
    instr = load(file, flavor, [LocalRegistry('working_directory', str(root / 'cwd'))])
    if way == 'h5':
        given = root / 'cwd' / 'saved.h5'
        save_h5(given, instr)
        instr = load(file, flavor, [LocalRegistry('working_directory', str(root / 'cwd'))])
    options = [(LONG if bits % 3 == k % 3 else OPTIONS)[k] for k in range(6) if bits >> k & 1]
    before = snapshot(root)
    printed, code = command([*options, given.name] if bits % 2 else [given.name, *options], flavor)
    out = given.with_suffix('.c')
    label = f'{given.name} with {options}'
    r.transitions = 1
    if code or not out.exists():
        return r.problems.append((f'{way}:failed', f'{code} for {label}'))
    with cgen.quiet():
        config = dict(enable_trace=bool(bits & 1), portable=bool(bits & 2), embed_instrument_file=bool(bits & 4), default_main=not bits & 8, include_runtime=not bits & 16, verbose=bool(bits & 32), output=str(out))
        want = instrument_source(instr, cgen.generator(not flavor), config)
    got, want = masked(out.read_text()).rstrip('\n'), masked(want).rstrip('\n')
    if got != want:
        r.problems.append((f'{way}:program', f'{difference(got, want)} for {label}'))
    after = snapshot(root)
    after.pop(str(out.relative_to(root)))
    if after != before:
        r.problems.append(('files', f'other files are {set(k for k in {**before, **after} if before.get(k, 0) != after.get(k, 0))} changed for {label}'))
    if bits & 16:
        runtime = re.findall(r'^#include "(.*)"$', got, re.M)
        names = sorted(Path(x).name for x in runtime)
        if names[:2] != [('mcstas-r.h', 'mcxtrace-r.h')[flavor], 'mccode-r.h'][::1 if flavor == 2 else -1] and set(names) != {'mccode-r.h', ('mcstas-r.h', 'mcxtrace-r.h')[flavor]}:
            r.problems.append(('runtime', f'{names} are included for {label}'))
        if any(not Path(x).is_file() for x in runtime):
            r.problems.append(('runtime', f'{runtime} has something which is not there for {label}'))
        needed = re.findall(r'^Dependency: (.*)$', printed, re.M)
        libs = {'logic': ['sublib', 'twolib', 'onelib'], 'plain': ['onelib', 'sublib'], 'acpu': ['sublib', 'twolib'], 'parts': ['sublib', 'twolib', 'onelib'], 'empty': []}[name]
        if sorted(needed) != sorted([f'{x}.o' for x in libs] + ['mccode-r.o', ('mcstas-r.o', 'mcxtrace-r.o')[flavor]]):
            r.problems.append(('dependency', f'{needed} are the printed dependencies for {label}'))
    elif 'Dependency:' in printed:
        r.problems.append(('dependency', f'dependencies of a complete program are printed for {label}'))


def _files(root, args, r):
    kind, places, order, form = args[0], [p for k, p in enumerate(PLACES) if args[1] >> k & 1], ORDERS[args[2]], FORMS[args[3]]
    name, content = MARK[kind]
    local = name
    init, user = INIT[kind], USER[kind]
    if 'far' not in places:
        # another name, which is not distributed
        local = name.replace('Mark', 'Nowhere').replace('mark', 'nowhere').replace('part', 'nopart')
        swap = lambda s: s.replace('Mark', 'Nowhere').replace('mark-lib', 'nowhere-lib').replace('mark.txt', 'nowhere.txt').replace('part.instr', 'nopart.instr').replace('INSTRUMENT part', 'INSTRUMENT nopart')
        init, user, content = swap(init), swap(user), swap(content)
    for p in places:
        if p != 'far':
            (root / WHERE[p] / local).write_text(content.format(p))
            if kind == 'lib':
                (root / WHERE[p] / local.replace('.h', '.c')).write_text('/* */\n')
    file = root / 'elsewhere' / 'one.instr'
    file.write_text(f'DEFINE INSTRUMENT one()\n{init}TRACE\n{user}END\n')
    out = root / 'cwd' / 'out.c'
    spelled = [str(root / WHERE[p]) if form.startswith('-I{') else f'../{WHERE[p]}' for p in order]
    argv = [a for p in spelled for a in form.format(p).split(' ')]
    printed, code = command([*argv, str(file), '-o', 'out.c'] if args[2] % 2 else ['-o', str(out), str(file), *argv])
    label = f'{kind} in {places} with {argv}'
    want = next((p for p in (['cwd', *order, 'far'] if kind == 'instr' else [*order, 'cwd', 'far']) if p in places), None)
    r.transitions = 1
    if want is None:
        if not code or out.exists():
            r.problems.append((f'{kind}:none', f'the file is nowhere, but there is {"an output" if out.exists() else "no error"} for {label}'))
        return
    if code or not out.exists():
        return r.problems.append((f'{kind}:failed', f'{code} for {label}'))
    text = run(out, r, kind)
    if text is not None and re.findall('FROM (.*)', text) != [want]:
        r.problems.append((f'{kind}:place', f'{re.findall("FROM (.*)", text)} is used instead of {want} for {label}'))


def _output(root, args, r):
    i, o, before, way = args
    given = Path(INPUTS[i])
    cwd = root / 'cwd'
    file = cwd / given
    if given.suffix != '.instr':
        file = cwd / (given.name + '.instr')
    file.write_text('DEFINE INSTRUMENT inside()\nTRACE\nCOMPONENT a = Arm() AT (0,0,0) ABSOLUTE\nEND\n')
    if way == 'h5':
        instr = load(file)
        file.unlink()
        given = given.with_suffix('.h5')
        save_h5(cwd / given, instr)
    option = OUTPUTS[o] and OUTPUTS[o].format(cwd=cwd)
    out = (cwd / given).resolve().with_suffix('.c') if option is None else cwd / option
    if before:
        out.write_text('something\n' * (1 if before == 1 else 20000))
    start = snapshot(root)
    argv = [str(given)] if option is None else [str(given), '-o', option] if o % 2 else [f'--output-file={option}', str(given)]
    printed, code = command(argv)
    end = snapshot(root)
    rel = str(out.resolve().relative_to(root.resolve()))
    r.transitions = 1
    label = f'{argv} with {["no", "a short", "a long"][before]} file there before'
    if code or rel not in end:
        return r.problems.append(('output:none', f'{code} and no file {rel} but {sorted(set(end) - set(start))} for {label}'))
    text = end.pop(rel)
    start.pop(rel, None)
    if end != start:
        r.problems.append(('output:others', f'other files {sorted(k for k in {**start, **end} if start.get(k, 0) != end.get(k, 0))} are changed for {label}'))
    got = run(out, r, 'output')
    if got is not None and not got.startswith('inside mcstas '):
        r.problems.append(('output:text', f'the program prints {got[:100]!r} for {label}'))
    if re.search(rb'something', text):
        r.problems.append(('output:left', f'there is a part of the old file for {label}'))


def _main(root, args, r):
    bits, flavor = args
    options = [OPTIONS[k] for k in range(4) if bits >> k & 1]
    file = root / 'cwd' / 'one.instr'
    text = 'DEFINE INSTRUMENT its_name()\nTRACE\nCOMPONENT a = Arm() AT (0,0,0) ABSOLUTE\nEND\n'
    file.write_text(text)
    printed, code = command([*options, 'one.instr'], flavor)
    label = f'{options}'
    out = root / 'cwd' / 'one.c'
    r.transitions = 1
    if code or not out.exists():
        return r.problems.append(('main:failed', f'{code} for {label}'))
    trace, portable, source, no_main = (bool(bits >> k & 1) for k in range(4))
    if no_main:
        out.write_text(out.read_text() + '\nint main(int argc, char *argv[]) { printf("OWN "); return mccode_main(argc, argv); }\n')
    got = run(out, r, 'main')
    if got is None:
        return
    want = f'{"OWN " if no_main else ""}its_name {("mcstas", "mcxtrace")[flavor]} {trace:d} {trace:d} {not no_main:d} {not no_main:d} {portable:d}'
    if got.split('\n')[0] != want:
        r.problems.append(('main:options', f'the program tells {got.split(chr(10))[0]!r} instead of {want!r} for {label}'))
    where, code = got.split('\n', 1)[1].split('\x01')[:2]
    if where != str(file.resolve()):
        r.problems.append(('main:path', f'the source file is {where} for {label}'))
    if (code == text) != source or not source and 'DEFINE INSTRUMENT' in code:
        r.problems.append(('main:code', f'the embedded source is {code[:200]!r} for {label}'))


def _source(root, args, r):
    ts, place = args
    extra = ''.join(TEXTS[k] for k in ts)
    body = 'DEFINE INSTRUMENT one()\n{0}TRACE\nCOMPONENT a = Arm() AT (0,0,0) ABSOLUTE\nEND\n{1}'
    start = extra if extra.endswith('\n') or not extra else extra + '\n'
    text = body.format(start, '') if place == 0 else body.format('', extra)
    folder = root / 'cwd'
    file = folder / 'one.instr'
    file.write_text(text)
    printed, code = command(['--source', 'one.instr'])
    r.transitions = 1
    out = folder / 'one.c'
    if code or not out.exists():
        return r.problems.append(('source:failed', f'{code} for {text!r}'))
    got = run(out, r, 'source', ('-trigraphs',))
    if got is not None and got.split('\x01')[1] != text:
        r.problems.append(('source:text', f'the program has {got.split(chr(1))[1][:300]!r} instead of {text[:300]!r}'))


def _error(root, args, r):
    kind, before, real = ERRORS[args[0]], args[1], args[2]
    cwd = root / 'cwd'
    head, body, argv = '', 'COMPONENT a = Arm() AT (0,0,0) ABSOLUTE\n', ['one.instr']
    if kind == 'component':
        body = 'COMPONENT a = NotThere() AT (0,0,0) ABSOLUTE\n'
    elif kind == 'parameter':
        body = 'COMPONENT a = T(none = 1) AT (0,0,0) ABSOLUTE\n'
    elif kind == 'uservars':
        head = 'USERVARS\n%{\nint one;\ndouble one;\n%}\n'
    elif kind == 'include':
        body += '%include "not-there.instr"\n'
    elif kind == 'library':
        head = 'DECLARE\n%{\n%include "not-there"\n%}\n'
    elif kind == 'half a library':
        head = 'DECLARE\n%{\n%include "half"\n%}\n'
        (cwd / 'half.h').write_text('/* there is no half.c */\n')
    elif kind == 'late':
        head = 'DECLARE\n%{\n%include "whole"\n%}\n'
        (cwd / 'whole.h').write_text('/* */\n')
        (cwd / 'whole.c').write_text('%include "nothing.c"\n')
    elif kind == 'jump':
        body = 'COMPONENT a = Arm() AT (0,0,0) ABSOLUTE JUMP nowhere\n'
    (cwd / 'one.instr').write_text(f'DEFINE INSTRUMENT one()\n{head}TRACE\n{body}END\n')
    if kind == 'no file':
        argv = ['zero.instr']
    elif kind == 'folder':
        argv = ['sub']
    elif kind == 'no input':
        argv = ['-o', 'one.c']
    elif kind == 'source h5':
        instr = load(cwd / 'one.instr')
        instr.source = None
        save_h5(cwd / 'one.h5', instr)
        argv = ['one.h5', '--source']
    if before:
        for n in ('one.c', 'zero.c', 'sub.c'):
            (cwd / n).write_text('what was there\n')
    start = snapshot(root)
    printed, code = command(argv, real=bool(real))
    r.transitions = 1
    if not code:
        r.problems.append(('error:none', f'there is no error for {kind}'))
    if snapshot(root) != start:
        r.problems.append(('error:files', f'files are changed in spite of an error ({code}) for {kind}'))
