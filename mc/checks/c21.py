"""C21: the compiler is called with the flags of the target, of the instrument and of its components.

A stand-in compiler records how it is called and what it is given to compile.  The model splits every DEPENDENCY text into words, replaces the
keywords, and says which words the compiler has to be given in which order.
"""
import itertools, os, shutil, subprocess
from pathlib import Path
from ..base import Result
from .. import cgen, env
from . import c13

PID = 'C21'
LEVEL = 'model_checking'
ASSUMPTIONS = ['a flag is written for a shell: \\" and quotes have their usual meaning', 'the order of the flags of the target and of -o is not judged, nor a flag given twice by the target',
               'GETPATH of a file in no registry, commands with parentheses, and keywords standing alone without parentheses are not judged']
BOUND = ('every sequence of 1 and 2 (thorough 3) of 30 words as the DEPENDENCY of an instrument and of a component; all distributions of up to 4 flags of a menu over an instrument and three components, in four ways of building; '
         'all compile targets with CPU components; all malformed keywords')
CHUNK = 8

WORDS = ['-lm', '-lfoo', '-lfoobar', '-lfo', '-DX=1', '-I.', '@NEXUSFLAGS@', '@GSLFLAGS@', '@gslflags@', '@ODDFLAGS@', '@OTHERFLAGS@', '@WORD@', 'ENV(MC_V)', '-LENV(MC_V)/lib', '-DENV(MC_V)=ENV(MC_W)',
         'ENV(MC_NOTHING)', '-IGETPATH(data.h)', 'GETPATH(lib/other.h)', 'CMD(echo -lcmd)', '-LCMD(echo one)/CMD(echo two)', 'CMD(echo ENV(MC_V))', 'CMD(echo -I GETPATH(data.h))', 'CMD(true)',
         '-DENVIRONMENT=1', '-DMY_CMD', '-DNGETPATHS=2', r'-DT=\"a\"', "-DU='a b'", 'CMD(echo @GSLFLAGS@)', '-Wl,-rpath,ENV(MC_W)']
SIMPLE = ['-lm', '-lfoo', '-lfoobar', '-lfo -lm', '-lm  -lfo', '@GSLFLAGS@', '-IENV(MC_V)', '-lfoo -lm']
BAD = ['CMD(false)', "CMD(printf 'a\\nb\\n')", 'ENV(MC_V', '-IGETPATH(data.h', 'CMD(echo a', '-lm ENV(ENV(MC_V))', 'CMD(no-such-command-at-all)', '-DX=ENV(MC_V) -LCMD(echo', 'CMD(exit 3)']
VALUES = dict(MC_V='valueV', MC_W='/w/ENVELOPE')
CONFIG = dict(NEXUS='-DUSE_NEXUS -lNeXus', GSL='-lgsl -lgslcblas', ODD=r'-L/back\slash\1 -lodd')
ROUTES = ['text', 'printed', 'assembler', 'copy']
COMPILER = r'''#!/bin/sh
printf '%s\n' "$0" "$@" > "$MC_RECORD.args"
cat > "$MC_RECORD.src"
if [ "$MC_FAIL" = exit ]; then echo broken-by-the-compiler >&2; exit 3; fi
if [ "$MC_FAIL" = nothing ]; then exit 0; fi
while [ $# -gt 1 ]; do if [ "$1" = -o ]; then : > "$2"; chmod +x "$2"; fi; shift; done
'''


def setup(tier):
    for k, v in VALUES.items():
        os.environ[k] = v
    os.environ.pop('MC_NOTHING', None)
    for k, v in CONFIG.items():
        os.environ[f'MCCODEANTLR_FLAGS__{k}'] = v
    c13.setup(tier)
    for n in ('cc', 'mpicc', 'nvc'):
        f = env.SCRATCH / 'c13' / n
        f.write_text(COMPILER)
        f.chmod(0o755)
    os.environ.pop('CC', None)
    os.environ['MCCODEANTLR_CC'] = str(env.SCRATCH / 'c13' / 'cc')
    os.environ['MCCODEANTLR_MPI__CC'] = str(env.SCRATCH / 'c13' / 'mpicc')
    os.environ['MCCODEANTLR_ACC'] = str(env.SCRATCH / 'c13' / 'nvc')
    (env.SCRATCH / 'work' / 'headers' / 'lib').mkdir(parents=True, exist_ok=True)
    for f in ('data.h', 'lib/other.h', 'metadata.h', 'lib/data.h.old'):
        (env.SCRATCH / 'work' / 'headers' / f).write_text('/* */\n')
    (env.SCRATCH / 'work' / 'early').mkdir(exist_ok=True)
    (env.SCRATCH / 'work' / 'early' / 'data.h').write_text('/* another one */\n')


def cases(tier):
    q = tier == 'quick'
    for n in (1, 2) if q else (1, 2, 3):
        for ws in itertools.product(range(len(WORDS)), repeat=n):
            for where in ('instr', 'comp') if n < 3 else (('instr', 'comp')[sum(ws) % 2],):
                yield ['words', list(ws), where]
    for n in range(5):
        for fs in itertools.product(range(len(SIMPLE)), repeat=n):
            if q and n == 4 and (max(fs) > 3 or len(set(fs)) < 3):
                continue
            for cut in (0, 1) if n else (0,):
                for route in ROUTES if n < 4 and not (q and n == 3) else (ROUTES[sum(fs) % 4],):
                    if route == 'assembler' and cut:
                        continue
                    yield ['spread', list(fs), cut, route]
    for mpi, acc, nexus, cpu, update in itertools.product((0, 1), (0, 1), (0, 1), (0, 1, 2), (0, 1, 2)):
        for fs in ((), (0,), (5, 0)):
            for route in ROUTES if not q or cpu else (ROUTES[mpi + 2 * acc], ):
                yield ['target', mpi, acc, nexus, cpu, update, list(fs), route]
    for k in range(len(BAD)):
        for where in ('instr', 'comp'):
            yield ['bad', k, where]
    for out in ('folder', 'file', 'none', 'text', 'exists', 'replace', 'dump', 'exit', 'nothing', 'exit again'):
        for mpi in (0, 1):
            yield ['output', out, mpi]


# ---- the model

def shell_words(t):
    """The words a shell would make of a text without substitutions"""
    out, word, quote, i = [], None, None, 0
    while i < len(t):
        c = t[i]
        if c == '\\' and quote != "'":
            i += 1
            word = (word or '') + t[i]
        elif quote:
            if c == quote:
                quote = None
            else:
                word += c
        elif c in '"\'':
            quote, word = c, word or ''
        elif c in ' \t':
            if word is not None:
                out.append(word)
            word = None
        else:
            word = (word or '') + c
        i += 1
    return out + ([word] if word is not None else [])


def headers():
    return env.SCRATCH / 'work' / 'headers'


MEANING = {'@NEXUSFLAGS@': CONFIG['NEXUS'], '@GSLFLAGS@': CONFIG['GSL'], '@gslflags@': CONFIG['GSL'], '@ODDFLAGS@': CONFIG['ODD'], '@OTHERFLAGS@': '-lother', 'ENV(MC_V)': 'valueV', '-LENV(MC_V)/lib': '-LvalueV/lib',
           '-IENV(MC_V)': '-IvalueV', '-DENV(MC_V)=ENV(MC_W)': '-DvalueV=/w/ENVELOPE', 'ENV(MC_NOTHING)': '', '-IGETPATH(data.h)': '-I{H}/data.h', 'GETPATH(lib/other.h)': '{H}/lib/other.h', 'CMD(echo -lcmd)': '-lcmd',
           '-LCMD(echo one)/CMD(echo two)': '-Lone/two', 'CMD(echo ENV(MC_V))': 'valueV', 'CMD(echo -I GETPATH(data.h))': '-I {H}/data.h', 'CMD(true)': '', 'CMD(echo @GSLFLAGS@)': CONFIG['GSL'], '-Wl,-rpath,ENV(MC_W)': '-Wl,-rpath,/w/ENVELOPE'}


def meaning(flag):
    """The words of one flag, made of words separated by blanks"""
    out = []
    for w in flag:
        out += shell_words(MEANING.get(w, w).replace('{H}', str(headers())))
    return out


# ---- driving the implementation

COMP = 'DEFINE COMPONENT {0}\n{1}{2}TRACE\n%{{\n%}}\nEND\n'


def files(flags, cpu=()):
    return {f'{n}.comp': COMP.format(n, '' if f is None else f'DEPENDENCY "{f}"\n', 'NOACC\n' if n in cpu else '') for n, f in flags.items()}


def build(own, comps, route, cpu=(), twice=True):
    """An instrument with its own flag (or None) and components, of which the first is used twice, which bring theirs"""
    from mccode_antlr.reader import LocalRegistry
    from mccode_antlr.loader.loader import parse_mccode_instr
    regs = [cgen.local(f'c21-{os.getpid()}', files(comps, cpu)), LocalRegistry('headers', str(headers())), LocalRegistry('early', str(env.SCRATCH / 'work' / 'early'))]
    names = list(comps) + list(comps)[:int(twice)]
    with cgen.quiet():
        if route == 'assembler':
            from mccode_antlr.assembler import Assembler
            a = Assembler('inst', registries=regs)
            for k, n in enumerate(names):
                a.component(f'c{k}', n, at=[0, 0, k])
            return a.instrument
        text = ('DEFINE INSTRUMENT inst()\n' + ('' if own is None else f'DEPENDENCY "{own}"\n') + 'TRACE\n'
                + ''.join(f'COMPONENT c{k} = {n}() AT (0,0,{k}) ABSOLUTE\n' for k, n in enumerate(names)) + 'END\n')
        i = parse_mccode_instr(text, regs)
        if route == 'printed':
            i = parse_mccode_instr(str(i), regs)
        if route == 'copy':
            i = i.copy()
        return i


def compile_it(instr, output, target=None, fail='', **kwargs):
    """How the compiler was called (None: not at all), what it was given, and what was returned or raised"""
    from mccode_antlr.compiler.c import compile_instrument, CBinaryTarget
    record = env.SCRATCH / 'work' / f'record{os.getpid()}'
    os.environ['MC_RECORD'] = str(record)
    target = target or CBinaryTarget()
    config = dict(cgen.CONFIG)
    # a first program is compiled to see that the compiler works
    with cgen.quiet():
        from mccode_antlr.compiler.check import simple_instr_compiles
        for k in ('cc', 'mpi/cc', 'acc'):
            assert simple_instr_compiles(k), f'{k} is not seen to compile'
        os.environ['MC_FAIL'] = fail
        for s in ('.args', '.src'):
            Path(f'{record}{s}').unlink(missing_ok=True)
        try:
            result = compile_instrument(instr, target, output, generator=cgen.generator(), config=config, **kwargs)
        except Exception as e:
            result = e
        os.environ['MC_FAIL'] = ''
    if not Path(f'{record}.args').exists():
        return None, None, result
    return Path(f'{record}.args').read_text().split('\n')[:-1], Path(f'{record}.src').read_text(), result


FLAGS = dict(cc='-g -O2 -std=c99 -x c -D_POSIX_C_SOURCE=2', ld='-lm', acc='-lm -fast -Minfo=accel -acc=gpu -gpu=mem:managed -DOPENACC -x c -D_POSIX_C_SOURCE=2', mpi='-DUSE_MPI -lmpi')


def check_call(r, key, args, words, output, label, mpi=0, acc=0, nexus=0):
    compiler = str(env.SCRATCH / 'c13' / ('nvc' if acc else 'mpicc' if mpi else 'cc'))
    r.transitions += 1
    if args is None:
        r.problems.append((f'{key}:call', f'the compiler was not called for {label}'))
        return
    if args[0] != compiler:
        r.problems.append((f'{key}:compiler', f'{args[0]} was called instead of {compiler} for {label}'))
    rest = args[1:]
    if rest.count('-o') != 1 or rest[rest.index('-o') + 1] != str(output):
        r.problems.append((f'{key}:output', f'the output is not {output} in {args} for {label}'))
        return
    k = rest.index('-o')
    rest = rest[:k] + rest[k + 2:]
    if rest.count('-') != 1:
        r.problems.append((f'{key}:source', f'the standard input is not compiled once by {args} for {label}'))
        return
    k = rest.index('-')
    before, after = rest[:k], rest[k + 1:]
    # the flags of the target
    need = FLAGS['acc' if acc else 'cc'].split() + (FLAGS['mpi'].split() if mpi else []) + (CONFIG['NEXUS'].split() if nexus else [])
    if acc and nexus:
        need.append('-D__GNUC__')
    if sorted(need) != sorted(before):
        r.problems.append((f'{key}:target', f'flags of the target are {before}, should be {need} for {label}'))
    want = FLAGS['ld'].split() + words
    if after != want:
        r.problems.append((f'{key}:words', f'after the source come {after}, should be {want} for {label}'))


def run_case(case):
    r = Result(states=1, transitions=0)
    here = env.SCRATCH / 'work' / f'c21-{os.getpid()}'
    shutil.rmtree(here, ignore_errors=True)
    here.mkdir()
    back = os.getcwd()
    os.chdir(here)
    try:
        globals()['_' + case[0]](here, case[1:], r)
    finally:
        os.chdir(back)
        shutil.rmtree(here, ignore_errors=True)
    return r


def _words(here, args, r):
    ws, where = args
    flag = [WORDS[k] for k in ws]
    own, comps = (' '.join(flag), {'A': None}) if where == 'instr' else (None, {'A': ' '.join(flag)})
    instr = build(own, comps, 'text')
    before = tuple(instr.flags)
    call, source, result = compile_it(instr, here / 'out')
    check_call(r, where, call, meaning(flag), here / 'out', f'DEPENDENCY {" ".join(flag)}')
    if tuple(instr.flags) != before:
        r.problems.append((f'{where}:changed', f'the flags {before} of the instrument became {instr.flags}'))
    r.outcome = str(call)[-300:]


def _spread(here, args, r):
    fs, cut, route = args
    flags = [SIMPLE[k] for k in fs]
    own = flags[0] if cut else None
    comps = dict(zip('ABCD', flags[cut:])) or {'A': None}
    instr = build(own, comps, route)
    call, source, result = compile_it(instr, here / 'out')
    check_spread(r, call, [own] + list(comps.values()), here / 'out', route)
    r.outcome = str(call)[-200:]


def check_spread(r, call, flags, output, route):
    """Every flag is there, none which nobody asked for, and in the order of their first use"""
    if call is None or '-' not in call:
        check_call(r, route, call, [], output, flags)
        return
    got = call[call.index('-') + 1:]
    known = FLAGS['ld'].split()
    r.transitions += 1
    want = [meaning(f.split()) for f in flags if f is not None]
    tail = got[len(known):]
    if got[:len(known)] != known or any(w not in sum(want, []) for w in tail):
        r.problems.append((f'{route}:words', f'{tail} is given for {flags}'))
        return
    # a flag which is part of what is there already can be given again or not
    ends = {0}
    for f in want:
        again = {e for e in ends if any(tail[k:k + len(f)] == f for k in range(e - len(f) + 1))}
        ends = again | {e + len(f) for e in ends if tail[e:e + len(f)] == f}
        if not ends:
            r.problems.append((f'{route}:order', f'{tail} for {flags}: {f} is not where it belongs'))
            return
    if len(tail) not in ends:
        r.problems.append((f'{route}:more', f'{tail} is more than {flags}'))


def _target(here, args, r):
    from mccode_antlr.compiler.c import CBinaryTarget
    mpi, acc, nexus, cpu, update, fs, route = args
    comps = dict(zip('AB', [SIMPLE[k] for k in fs])) or {'A': None}
    cpus = ((), ('A',), tuple(comps)[-1:])[cpu]
    instr = build(None, comps, route, cpu=cpus, twice=cpu < 2)
    if update == 0:
        target = CBinaryTarget(mpi=bool(mpi), acc=bool(acc), count=2, nexus=bool(nexus))
    elif update == 1:
        target = CBinaryTarget(mpi=not mpi, acc=not acc, count=1, nexus=not nexus)
        target.update(dict(mpi=bool(mpi), acc=bool(acc), nexus=bool(nexus)))
    else:
        target = CBinaryTarget(mpi=bool(mpi), acc=bool(acc), count=2, nexus=bool(nexus))
        target.update(dict(count=5))
        if target.count != 5:
            r.problems.append(('target:count', f'the count is {target.count} after it was updated to 5'))
    call, source, result = compile_it(instr, here / 'out', target)
    words = []
    for f in comps.values():
        words += meaning(f.split()) if f else []
    check_call(r, 'target', call, words + (['-DFUNNEL'] if cpu else []), here / 'out', args, mpi, acc, nexus)
    want = cgen.translate(build(None, comps, route, cpu=cpus, twice=cpu < 2))

    def lines(t):
        return [l for l in (t or '').split('\n') if 'Date:' not in l]
    if lines(source) != lines(want):
        r.problems.append(('target:source', f'the compiler was given something else than the translated instrument for {args}'))
    r.outcome = str(call)[-300:]


def _bad(here, args, r):
    k, where = args
    own, comps = (BAD[k], {'A': None}) if where == 'instr' else (None, {'A': BAD[k]})
    call, source, result = compile_it(build(own, comps, 'text'), here / 'out')
    r.transitions += 1
    if call is not None or not isinstance(result, Exception):
        r.problems.append(('bad:taken', f'{BAD[k]} gave {result} and {call}'))
    r.outcome = repr(result)[:80]


def _output(here, args, r):
    from mccode_antlr.compiler.c import CBinaryTarget
    how, mpi = args
    instr = build(None, {'A': '-lfoo'}, 'text')
    out = {'folder': here / 'sub', 'none': None, 'text': str(here / 'prog')}.get(how, here / 'prog')
    (here / 'sub').mkdir()
    want = {'folder': here / 'sub' / 'inst.out', 'none': Path('inst.out')}.get(how, here / 'prog')
    kwargs = {}
    if how in ('exists', 'replace', 'exit again'):
        want.write_text('old')
        kwargs['replace'] = how != 'exists'
    if how == 'dump':
        kwargs['dump_source'] = True
    fail = how.split()[0] if how in ('exit', 'nothing', 'exit again') else ''
    call, source, result = compile_it(instr, out, CBinaryTarget(mpi=bool(mpi)), fail=fail, **kwargs)
    if fail:
        check_call(r, f'output {how}', call, ['-lfoo'], want, how, mpi)
        if not isinstance(result, RuntimeError) or (how == 'exit' and 'broken-by-the-compiler' not in str(result)) or (how != 'exit again' and want.exists()):
            r.problems.append(('output:fail', f'{result!r} when the compiler ends with {how}'))
        return
    if how == 'exists':
        r.transitions += 1
        if call is not None or result != want or want.read_text() != 'old':
            r.problems.append(('output:exists', f'an existing file was compiled again: {call} {result}'))
        return
    check_call(r, f'output {how}', call, ['-lfoo'], want, how, mpi)
    if isinstance(result, Exception) or Path(result).resolve() != want.resolve() or not want.exists() or want.read_text() == 'old':
        r.problems.append(('output:result', f'{result!r} instead of {want} for {how}'))
    if how == 'dump' and (not (here / 'prog.c').exists() or (here / 'prog.c').read_text() != source):
        r.problems.append(('output:source', 'the source was not written as compiled'))
    left = sorted(str(p.relative_to(here)) for p in here.rglob('*') if p.is_file())
    if left != sorted([str(want.resolve().relative_to(here.resolve()))] + (['prog.c'] if how == 'dump' else [])):
        r.problems.append(('output:files', f'files are {left} for {how}'))
    r.outcome = how
