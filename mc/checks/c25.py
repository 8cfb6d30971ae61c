"""C25: the configuration and cache commands change, keep and show exactly what they name, and nothing else.

Every bounded sequence of commands is performed, each command in a new process (which has no privileges), and compared with a model of the layers of the configuration
and of the folders of the cache.  All files below a folder holding the cache, its surroundings and other folders are compared before and afterwards.
"""
import copy, itertools, json, os, re, shutil, sys
from pathlib import Path
from ..base import Result
from .. import env, crashlab

PID = 'C25'
LEVEL = 'model_checking'
ASSUMPTIONS = ['commands are performed by users without access to files of others; their environment is given to every command of a sequence',
               'error messages, and commands for keys below a single value, are not judged; a link from the cache to another folder can be removed or kept, but not the folder it leads to',
               'values are texts, as given on the command line']
BOUND = ('all sequences of up to 2 (thorough 3) of 15 set, unset and save commands from 3 user files and 3 environments, with all keys, groups and 7 expressions shown after each; '
         'all pairs of 18 names and 10 versions given to cache remove with 9 answers and by force, from 2 working directories, and all sequences of 2 (thorough 3) of 7 removals, with all lists afterwards')
CHUNK = 8
CASE_SECONDS = 300

KEYS = ['cc', 'mpi.cc', 'flags.new', 'own', 'own.deep.er', 'mine.deep.er', 'words', 'flags', 'nothing', 'mpi.nothing', 'mcstas.particle', 'mpi', 'mine.other']
CHANGES = [['set', 'cc', 'a-compiler'], ['set', 'mpi.cc', '-O2: "x" #5'], ['set', 'flags.new', '5'], ['set', 'mine.deep.er', 'yes'], ['set', 'own', ''], ['set', 'mine.other', '\u00e4 \u2192\nline'],
           ['set', 'fresh.a.b', 'null'], ['set', 'cc', '0x10'], ['unset', 'cc'], ['unset', 'mpi.cc'], ['unset', 'mine.deep.er'], ['unset', 'nothing'], ['unset', 'mine'], ['save'], ['save', 'ELSEWHERE']]
STARTS = [None, {'cc': 'of-file', 'mine': {'deep': {'er': 'text', 'est': 3}, 'other': [1, 2]}, 'words': ['a', 'b']}, {'mpi': {'run': 'of-file'}, 'flags': {'new': 'first'}, 'z': 1.5, 'none': None, 'yes': True}]
ENVIRONS = [{}, {'MCCODEANTLR_CC': 'of-environ', 'MCCODEANTLR_MPI__CC': 'mpi-of-environ'}, {'CC': 'of-system', 'MCCODEANTLR_MINE__OTHER': 'of-environ'}]
REGEXES = ['^cc$', 'cc', '^mpi', r'^flags\.', 'nothing like this', r'deep\.er$', '.']

TREE = ['cache/mccode_antlr/mcstas/v1/a.comp', 'cache/mccode_antlr/mcstas/v1/sub/b.comp', 'cache/mccode_antlr/mcstas/v2/a.comp', 'cache/mccode_antlr/libc/v1/r.h', 'cache/mccode_antlr/with space/v1/x',
        'cache/mccode_antlr/mcstas-2/v1/x', 'cache/mccode_antlr/.hidden/v1/x', 'cache/mccode_antlr/a file', 'cache/mccode_antlr_other/mcstas/v1/x', 'cache/other/v1/x', 'cache/mcstas/v1/x', 'victim/mcstas/v1/x', 'victim/v1/x',
        'cwd/mcstas/v1/x', 'cwd/v1/x', 'cwd/libc/v1/x', 'mcstas/v1/x', 'v1/x', 'home/mcstas/x']
NAMES = [None, 'mcstas', 'libc', 'with space', 'link', 'nowhere', '', '.', '..', '../other', 'mcstas/..', 'mcstas/../../other', '/VICTIM', './mcstas', 'mcstas/v1', 'a file', '~', '../mccode_antlr_other']
VERSIONS = [None, 'v1', 'v2', 'v9', '', '.', '..', '../libc', '/VICTIM', '../../../victim']
ANSWERS = ['y', 'Y', 'yes', 'YES', 'n', '', 'no', 'yesterday', None]
REMOVALS = [['mcstas', 'v1'], ['mcstas', 'v2'], ['mcstas', None], ['libc', 'v1'], ['libc', None], [None, None], ['with space', None]]


def cli(argv, answer, environ):
    """In a process of the lab: one command of a user"""
    import contextlib, io
    for k in [k for k in os.environ if k == 'CC' or k.startswith('MCCODEANTLR') and k not in environ]:
        if k not in environ:
            del os.environ[k]
    for m in [m for m in sys.modules if m == 'mccode_antlr.config' or m.startswith('mccode_antlr.config.')]:
        del sys.modules[m]
    if os.getuid() == 0:
        os.setgroups([])
        os.setgid(NOBODY)
        os.setuid(NOBODY)
    if os.getuid() == 0:
        raise RuntimeError('still has all privileges')
    from mccode_antlr.cli import management
    sys.argv = ['mccode-antlr', *argv]
    sys.stdin = io.StringIO('' if answer is None else answer + '\n')
    out = io.StringIO()
    error = None
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
        try:
            management.mccode_management()
        except SystemExit as e:
            error = e.code and f'SystemExit: {e.code}'
        except Exception as e:
            error = f'{type(e).__name__}: {e}'
    return dict(out=out.getvalue(), error=error)


def prepare():
    import mccode_antlr.cli.management, mccode_antlr.config, mccode_antlr.reader.registry, yaml, confuse, pooch, argparse, importlib.resources, platform, shutil, uuid  # noqa
    from mccode_antlr.config import config
    list(config)


NOBODY = 65534
PERFORM = dict(cli=cli, prepare=[prepare])
_lab = None


def setup(tier):
    crashlab.library()


def lab():
    global _lab
    if _lab is None or _lab[0] != os.getpid():
        _lab = os.getpid(), crashlab.Lab('mc.checks.c25')
    return _lab[1]


def cases(tier):
    q = tier == 'quick'
    for s in range(len(STARTS)):
        for e in range(len(ENVIRONS)):
            yield ['config', s, e, []]
            for n in (1, 2) if q else (1, 2, 3):
                for c in itertools.product(range(len(CHANGES)), repeat=n):
                    if n == 1 or n == 2 and (not q or (sum(c) + s) % 3 == e) or n == 3 and sum(c) % 3 == e and (c[0] + c[2]) % 3 == s:
                        yield ['config', s, e, list(c)]
    for n in range(len(NAMES)):
        for v in range(len(VERSIONS)):
            if NAMES[n] is None and VERSIONS[v] is not None:
                continue
            yield ['remove', n, v, 'force', (n + v) % 2]
            for a in range(len(ANSWERS)):
                if not q or v < 2 and n < 6 or (n + v) % len(ANSWERS) == a:
                    yield ['remove', n, v, a, (n + v + a) % 2]
    for n in (2,) if q else (2, 3):
        for rs in itertools.product(range(len(REMOVALS)), repeat=n):
            yield ['removals', list(rs)]
    for n in (None, 'mcstas', 'libc', 'with space', 'nowhere'):
        for long in range(2):
            yield ['list', n, long]


def run_case(case):
    r = Result(states=1, transitions=0)
    root = env.SCRATCH / 'work' / f'c25-{os.getpid()}'
    shutil.rmtree(root, ignore_errors=True)
    root.mkdir(parents=True)
    for p in (env.SCRATCH, env.SCRATCH / 'work'):
        p.chmod(p.stat().st_mode | 0o011)
    try:
        globals()['_' + case[0]](root, case[1:], r)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    r.outcome = [case[0], len(r.problems)]
    return r


def user(root, argv, answer=None, cwd='cwd', environ=()):
    e = dict(XDG_CACHE_HOME=str(root / 'cache'), XDG_CONFIG_HOME=str(root / 'config'), HOME=str(root / 'home'), MCCODEANTLRDIR=str(root / 'conf'), **dict(environ))
    a, = lab().ask(dict(folder=str(root), environ=e, cwd=str(root / cwd), perform='cli', arguments=dict(argv=argv, answer=answer, environ=e)))
    if a['code'] or a['error'] or a['result'] is None:
        raise RuntimeError(f'the command {argv} was not performed: {a}')
    return a['result']


def give(root):
    """To the user of the commands"""
    for d, ds, fs in os.walk(root):
        for n in [d] + [os.path.join(d, f) for f in fs + ds]:
            os.chown(n, NOBODY, NOBODY, follow_symlinks=False)


def snapshot(root):
    return {str(f.relative_to(root)): f.read_text() if f.is_file() and not f.is_symlink() else os.readlink(f) if f.is_symlink() else None for f in sorted(root.rglob('*'))}


# ---- configuration

def merged(*layers):
    out = {}
    for d in layers:  # from the lowest
        for k, v in d.items():
            out[k] = merged(out[k], v) if isinstance(v, dict) and isinstance(out.get(k), dict) else copy.deepcopy(v)
    return out


def layers(file, environ):
    import yaml
    base = env.REPO / 'src' / 'mccode_antlr' / 'config'
    e = {}
    for k, v in environ.items():
        d = e
        *levels, last = k.removeprefix('MCCODEANTLR_').lower().split('__')
        for l in levels:
            d = d.setdefault(l, {})
        d[last] = v
    defaults = yaml.safe_load((base / 'config_default.yaml').read_text())
    return merged(defaults, yaml.safe_load((base / 'platforms.yaml').read_text())['Linux'], file or {}, e)


def look(d, key):
    for level in key.split('.'):
        if not isinstance(d, dict) or level not in d:
            return None, False
        d = d[level]
    return d, True


def selected(d, regex, prefix=''):
    out = {}
    for k, v in d.items():
        if re.search(regex, prefix + k):
            out[k] = v
        elif isinstance(v, dict) and (part := selected(v, regex, prefix + k + '.')):
            out[k] = part
    return out


def _config(root, args, r):
    import yaml
    file, environ, commands = copy.deepcopy(STARTS[args[0]]), ENVIRONS[args[1]], [CHANGES[c] for c in args[2]]
    e = {k: v for k, v in environ.items()}
    (root / 'conf').mkdir()
    (root / 'cwd').mkdir()
    (root / 'else' / 'where').mkdir(parents=True)
    there = root / 'conf' / 'config.yaml'
    if file is not None:
        there.write_text(yaml.safe_dump(file))
    give(root)

    def problem(key, text):
        r.problems.append((f'{key}', f'{text} after {commands} from file {args[0]} with {environ}'))

    saved = None
    for c in commands:
        r.transitions += 1
        old = there.read_text() if there.exists() else None
        a = user(root, ['config', *[str(root / 'else' / 'where') if x == 'ELSEWHERE' else x for x in c]], environ=e)
        if c[0] == 'set':
            file = copy.deepcopy(file or {})
            *levels, last = c[1].split('.')
            d = file
            for l in levels:
                d = d.setdefault(l, {})
            d[last] = c[2]
        elif c[0] == 'unset':
            *levels, last = c[1].split('.')
            d, there_is = look(file or {}, '.'.join(levels)) if levels else (file or {}, True)
            if there_is and last in d:
                del d[last]
            elif (there.read_text() if there.exists() else None) != old:
                now = yaml.safe_load(there.read_text())
                if (now or {}) != (file or {}):
                    problem('unset:other', f'{c} changed the file to {now}')
        elif len(c) == 1:
            file = layers(file, environ)
        else:
            saved = layers(file, environ)
        if a['error'] and not (c[0] == 'unset'):
            problem(f'{c[0]}:error', f'{a["error"]} for {c}')
    now = yaml.safe_load(there.read_text()) if there.exists() else None
    if (now or {}) != (file or {}):
        problem('file', f'the user file has {differences(now or {}, file or {})}')
    other = root / 'else' / 'where' / 'config.yaml'
    if saved is not None:
        if not other.exists() or yaml.safe_load(other.read_text()) != saved:
            problem('saved', f'the saved file has {differences(yaml.safe_load(other.read_text()) if other.exists() else {}, saved)}')
    left = set(snapshot(root)) - {'conf', 'cwd', 'else', 'else/where', 'conf/config.yaml'} - ({'else/where/config.yaml'} if saved is not None else set())
    if left:
        problem('others', f'there are other files {sorted(left)}')
    start = snapshot(root)
    want = layers(file, environ)
    for argv in (['config', 'list'], ['config', 'get']):
        a = user(root, argv, environ=e)
        r.transitions += 1
        if a['error'] or yaml.safe_load(a['out']) != want:
            problem(f'{argv[1]}:all', f'{argv} gives {a["error"] or differences(yaml.safe_load(a["out"]), want)}')
    for n, x in enumerate(REGEXES):
        if len(commands) > 1 and n != sum(args[2]) % len(REGEXES):
            continue
        a = user(root, ['config', 'list', x], environ=e)
        r.transitions += 1
        if a['error'] or (yaml.safe_load(a['out']) or {}) != selected(want, x):
            problem('list:regex', f'list {x!r} gives {a["error"] or differences(yaml.safe_load(a["out"]) or {}, selected(want, x))}')
    for n, k in enumerate(KEYS):
        if len(commands) > 1 and (n + sum(args[2])) % 4 and k not in {c[1] for c in commands if len(c) > 1}:
            continue
        above, _ = look(want, k.rpartition('.')[0]) if '.' in k else (want, True)
        if above is not None and not isinstance(above, dict):
            continue
        a = user(root, ['config', 'get', k], environ=e)
        r.transitions += 1
        value, there_is = look(want, k)
        got = yaml.safe_load(a['out']) if a['out'].strip() else None
        if there_is and (a['error'] or got != {k: value}):
            problem('get:key', f'get {k} gives {a["error"] or got} instead of {value!r}')
        if not there_is and got:
            problem('get:none', f'get {k} gives {got}, but there is none')
    if snapshot(root) != start:
        problem('show:changes', 'showing values changed the files')


def differences(a, b):
    if not isinstance(a, dict):
        return repr(a)[:300]
    keys = [k for k in {**a, **b} if a.get(k, 'nothing') != b.get(k, 'nothing')]
    return {k: a.get(k, 'nothing') for k in keys}, 'instead of', {k: b.get(k, 'nothing') for k in keys}


# ---- cache

def world(root):
    for f in TREE:
        f = root / f
        f.parent.mkdir(parents=True, exist_ok=True)
        f.write_text(f'content of {f.name}')
    for d in ('~', 'conf'):
        (root / 'cwd' / d).mkdir()
    (root / 'cache' / 'mccode_antlr' / 'link').symlink_to(root / 'victim')
    give(root)
    return snapshot(root)


def named(root, name, version):
    """The folder which is named, relative to root, or None if that is not something within the cache"""
    base = 'cache/mccode_antlr'
    at = base
    for part in (name, version):
        if part is not None:
            if part.startswith('/'):
                return None
            at, within = os.path.normpath(f'{at}/{part}'), at
            if not at.startswith(within + '/'):
                return None
    return at


def spelled(root, name):
    return name.replace('/VICTIM', str(root / 'victim')) if name is not None else None


def _remove(root, args, r):
    name, version, force, cwd = NAMES[args[0]], VERSIONS[args[1]], args[2], ['cwd', 'cache/mccode_antlr'][args[3]]
    before = world(root)
    argv = ['cache', 'remove', *[spelled(root, x) for x in (name, version) if x is not None]]
    answer = None if force == 'force' else ANSWERS[force]
    if force == 'force':
        argv.insert(2 + len(argv) % 2, ['-f', '--force'][args[1] % 2])
    a = user(root, argv, answer, cwd)
    after = snapshot(root)
    r.transitions = 1
    at = named(root, name, version)
    gone = {k for k in before if k not in after}
    label = f'{argv} answered {answer!r} in {cwd} ({a["error"]})'
    if {k: v for k, v in after.items() if before.get(k, 0) != v}:
        r.problems.append(('remove:changed', f'files are changed by {label}'))
    confirmed = force == 'force' or answer in ('y', 'Y', 'yes', 'YES')
    allowed = {k for k in before if at is not None and (k == at or k.startswith(at + '/'))} if confirmed else set()
    if name == 'link' and version is not None and confirmed and at is not None:
        # a folder of the cache can be somewhere else
        allowed |= {k for k in before if f'{k}/'.startswith(at.replace('cache/mccode_antlr/link', 'victim', 1) + '/')}
        gone -= allowed
    if gone - allowed:
        r.problems.append(('remove:others' if confirmed else 'remove:unconfirmed', f'{sorted(gone - allowed)} are removed by {label}'))
    plain = name != 'link' and all(x is None or re.fullmatch(r'[\w -]+', x) for x in (name, version))
    if plain and confirmed and at in before and before[at] is None and gone != allowed:
        r.problems.append(('remove:kept', f'{sorted(allowed - gone)} are not removed by {label}'))
    if plain and confirmed and at not in before and not a['error']:
        r.problems.append(('remove:nothing', f'there is nothing to remove and no error for {label}'))
    if plain and at in before and force != 'force' and str(root / at) not in a['out']:
        r.problems.append(('remove:question', f'the question {a["out"]!r} does not name {at} for {label}'))


def lists(root, r, label):
    now = snapshot(root)
    base = 'cache/mccode_antlr'
    for name in (None, 'mcstas', 'libc'):
        at = base if name is None else f'{base}/{name}'
        if at in now:
            shown(root, r, name, 0, sorted(k.rpartition('/')[2] for k, v in now.items() if k.rpartition('/')[0] == at and (root / k).is_dir()), label)


def shown(root, r, name, long, want, label):
    a = user(root, ['cache', 'list', *(['-l'] if long == 1 else []), *([name] if name else [])])
    r.transitions += 1
    head, *got = a['out'].strip('\n').split('\n') if a['out'] else ['']
    got = [x.strip() for x in got if x.strip()]
    if long:
        want = [str(root / 'cache' / 'mccode_antlr' / (name or '') / x) for x in want]
    if a['error'] or got != want or not re.match(rf'{len(want)}\b', head):
        r.problems.append(('list', f'list {name} gives {a["error"]} {head!r} {got} instead of {want} {label}'))


def _removals(root, args, r):
    world(root)
    for k in args[0]:
        name, version = REMOVALS[k]
        before = snapshot(root)
        at = named(root, name, version)
        a = user(root, ['cache', 'remove', *[x for x in (name, version) if x], '-f'])
        after = snapshot(root)
        r.transitions += 1
        want = {k: v for k, v in before.items() if k != at and not k.startswith(at + '/')}
        if after != want:
            r.problems.append(('removals', f'{sorted(k for k in {**after, **want} if after.get(k, 0) != want.get(k, 0))} are different after {[REMOVALS[k] for k in args[0]]}'))
        lists(root, r, f'after {[REMOVALS[k] for k in args[0]]}')


def _list(root, args, r):
    before = world(root)
    name, long = args
    at = 'cache/mccode_antlr' + (f'/{name}' if name else '')
    if at not in before:
        a = user(root, ['cache', 'list', name])
        r.transitions += 1
        if not a['error'] and not re.match(r'0\b', a['out']):
            r.problems.append(('list:none', f'list {name} gives {a["out"]!r} for what is not there'))
    else:
        shown(root, r, name, long, sorted(k.rpartition('/')[2] for k, v in before.items() if k.rpartition('/')[0] == at and (root / k).is_dir()), '')
    if snapshot(root) != before:
        r.problems.append(('list:changes', f'list {name} changes files'))
