"""C23: what is kept on disk is complete or not there, wherever a process ends and whatever another one does meanwhile.

The real code runs in processes which are ended (or told that the disk is full, or paused for another process) at every single change of a file;
torn writes stop after every number of bytes.  Afterwards new processes, with and without a network, have to get what the server has.
"""
import hashlib, itertools, json, os, shutil
from pathlib import Path
from ..base import Result
from .. import env, crashlab

PID = 'C23'
LEVEL = 'model_checking'
ASSUMPTIONS = ['a process ends between two changes of files, or within a write after any number of bytes; what was written stays (no loss of power)',
               'a server on the loopback network; a process without network may fail, but not go on with something else', 'files left over under other names are not judged']
BOUND = ('first uses of a registry for a menu of file lists, versions, ways to name it and states of the cache, reading a file of it, and saving, setting and unsetting configuration over none, a shorter and a longer file: an end, a full disk, an input/output error '
         'and a denied access at every change of a file, torn writes after every byte (thorough; quick: the first, middle and last bytes); seven error codes of the server with three texts, and its answers cut off after every byte (quick: a few); two processes with all places where one is paused while the other goes on to any place or its end (thorough: twice)')
CHUNK = 1
CASE_SECONDS = 850

T = 'DEFINE COMPONENT T\nTRACE\n%{\n%}\nEND\n'
FILES = {'T.comp': T, 'sub/U.comp': T.replace(' T\n', ' U\n'), 'share/a-lib.h': '/* a */\n', 'share/a-lib.c': '/* b */\n'}
LISTS = {'one': ['T.comp'], 'four': list(FILES), 'big': list(FILES) + [f'many/N{k}.comp' for k in range(160)], 'none': []}
FORMATS = ['plain', 'ended', 'blank', 'spaced', 'crlf', 'tabs']
SCENARIOS = [('registry', l, f, v, how, have) for l, f, v, how, have in (
    [(l, 'plain', 'v1.2.3', 'url', 'empty') for l in LISTS] + [('four', f, 'v1.2.3', 'url', 'empty') for f in FORMATS[1:]]
    + [('four', 'plain', 'main', 'url', 'empty'), ('four', 'plain', 'v1.2.3', 'registry', 'empty'), ('four', 'plain', 'v1.2.3', 'dict', 'empty'),
       ('four', 'plain', 'v1.2.3', 'url', 'other'), ('four', 'plain', 'main', 'url', 'other'), ('four', 'plain', 'v1.2.3', 'named', 'other'), ('four', 'plain', 'v1.2.3', 'url', 'done'), ('four', 'plain', 'v1.2.3', 'named', 'empty'), ('four', 'plain', 'v1.2.3', 'url', 'folder')])]
SCENARIOS += [('config', h, w) for h in ('none', 'short', 'long', 'folder') for w in ('given', 'default', 'set')] + [('config', h, 'unset') for h in ('short', 'long')]
PARTS = 8
OTHERS = ['v9', 'v1.2.4', 'v1.3.3', 'mains']  # versions which have other files


def content(name):
    return FILES.get(name) or T.replace(' T\n', f' {Path(name).stem}\n')


def digest(name):
    return 'sha256:' + hashlib.sha256(content(name).encode()).hexdigest()


def listing(names, fmt):
    lines = [f'{n} {digest(n)}' for n in names]
    if fmt == 'blank':
        lines = ['', *[x for l in lines for x in (l, '')], '']
    elif fmt == 'spaced':
        lines = [f'  {l.replace(" ", "   ")}  ' for l in lines] + ['   ']
    elif fmt == 'tabs':
        lines = [l.replace(' ', '\t') for l in lines]
    return ('\r\n' if fmt == 'crlf' else '\n').join(lines) + ('\n' if fmt != 'plain' else '')


# ---- performed in a process of the lab

def use_registry(base, version, how, read, names=()):
    from mccode_antlr.reader.registry import GitHubRegistry
    kw = dict(registry={n: digest(n) for n in names} if how == 'dict' else f'{base}/lists' if how == 'registry' else None)
    if how == 'named':
        kw['filename'] = 'special-list.txt'
    r = GitHubRegistry('lab', f'{base}/repo', version, **kw)
    got = dict(files=sorted(r.filenames()), known=[n for n in FILES if r.known(n, strict=True)], hashes={k: r.pooch.registry[k] for k in r.filenames()})
    if read:
        got['contents'] = {n: r.contents(n) for n in read}
    return got


def save_config(path, values):
    from mccode_antlr.cli.management import config_save
    from mccode_antlr.config import config
    for k, v in values.items():
        config[k].set(v)
    config_save(path, False)


def change_config(what, values):
    from mccode_antlr.cli.management import config_set, config_unset
    for k, v in values.items():
        config_set(k, v) if what == 'set' else config_unset(k)


def read_config(keys):
    """What a process which starts now would see"""
    import confuse
    from mccode_antlr.config import config
    c = confuse.LazyConfig(config.appname, config.modname)
    return {k: c[k].get(str) if c[k].exists() else None for k in keys}


def prepare():
    import mccode_antlr.reader.registry, mccode_antlr.cli.management, requests, confuse  # noqa


PERFORM = dict(use_registry=use_registry, save_config=save_config, change_config=change_config, read_config=read_config, prepare=[prepare])

# ---- the exploration

_lab, _web = None, None


def setup(tier):
    global _web
    crashlab.library()
    _web = crashlab.Web(env.SCRATCH / 'c23-www')
    www = env.SCRATCH / 'c23-www'
    for l, names in LISTS.items():
        for f in FORMATS:
            for v in ('v1.2.3', 'main', *OTHERS):
                root = www / l / f / 'repo' / 'raw' / v
                names = LISTS[l] if v not in OTHERS else [x for x in LISTS[l][:1]] + [f'of-{v}.comp']
                for n in names[:4]:
                    (root / n).parent.mkdir(parents=True, exist_ok=True)
                    (root / n).write_text(content(n))
                root.mkdir(parents=True, exist_ok=True)
                other = www / l / f / 'lists' / 'raw' / v
                other.mkdir(parents=True)
                for d, n in ((root, 'lab-registry.txt'), (root, 'special-list.txt'), (other, 'lab-registry.txt')):
                    (d / n).write_bytes(listing(names[:-1] if n == 'special-list.txt' else names, f).encode())


def finish(*a):
    if _web is not None:
        _web.close()
    return []


def lab():
    global _lab
    if _lab is None or _lab[0] != os.getpid():
        _lab = os.getpid(), crashlab.Lab('mc.checks.c23')
    return _lab[1]


def cases(tier):
    for k, s in enumerate(SCENARIOS):
        for part in range(PARTS if tier != 'quick' or s[1] in ('four', 'big', 'long', 'short') else 1):
            yield ['ends', k, part, PARTS if tier != 'quick' or s[1] in ('four', 'big', 'long', 'short') else 1, tier == 'quick']
        yield ['errors', k]
        if s[0] == 'registry':
            yield ['server', k, tier == 'quick']
        for part in range(PARTS):
            yield ['two', k, part, tier == 'quick']


class World:
    """A cache or configuration folder, and what is done in it"""
    def __init__(self, scenario):
        self.s = scenario
        self.root = env.SCRATCH / 'work' / f'c23-{os.getpid()}'
        shutil.rmtree(self.root, ignore_errors=True)
        self.root.mkdir(parents=True)
        self.n = 0
        if scenario[0] == 'registry':
            _, self.list, self.fmt, self.version, self.how, self.have = scenario
            self.names = LISTS[self.list] if self.how != 'named' else LISTS[self.list][:-1]
            self.read = self.names[:1]
            self.want = dict(files=sorted(self.names), known=[n for n in FILES if n in self.names], hashes={n: digest(n) for n in self.names})
        else:
            _, self.have, self.way = scenario
            self.values = dict(cc='a-compiler', other='some thing') if self.way in ('given', 'default') else dict(cc='a-compiler')
        self.start = self.new('start')
        if scenario[0] == 'registry':
            if self.have == 'other':
                for v in OTHERS:
                    self.must(self.job(self.start, version=v))
            elif self.have == 'done':
                self.must(self.job(self.start))
            elif self.have == 'folder':
                (self.start / 'cache' / 'mccode_antlr' / 'lab').mkdir(parents=True)
        else:
            f = self.file(self.start)
            f.parent.mkdir(parents=True, exist_ok=True)
            if self.have == 'folder':
                f.parent.rmdir()
            if self.have == 'short':
                f.write_text('cc: the-old-one\n')
            if self.have == 'long':
                f.write_text('cc: the-old-one\nwords:\n' + ''.join(f'- word number {k}\n' for k in range(100)))
            self.old = f.read_bytes() if f.exists() else None

    def close(self):
        shutil.rmtree(self.root, ignore_errors=True)

    def new(self, name, source=None):
        d = self.root / name
        shutil.rmtree(d, ignore_errors=True)
        if source is None:
            d.mkdir()
        else:
            shutil.copytree(source, d, symlinks=True)
        return d

    def copy(self):
        self.n += 1
        return self.new(f'w{self.n % 4}', self.start)

    def environ(self, d):
        return dict(XDG_CACHE_HOME=str(d / 'cache'), XDG_CONFIG_HOME=str(d / 'config'), HOME=str(d), MCCODEANTLRDIR=str(d / 'conf'))

    def file(self, d):
        return d / ('else where' if self.way == 'given' else 'conf') / 'config.yaml'

    def job(self, d, online=True, version=None, fault='', **kw):
        j = dict(folder=str(d), environ=self.environ(d), cwd=str(d), **kw)
        if self.s[0] == 'registry':
            base = f'http://127.0.0.1:{_web.port if online else 9}{fault}/{self.list}/{self.fmt}'
            return dict(j, perform='use_registry', arguments=dict(base=base, version=version or self.version, how=self.how, read=self.read if online else [], names=self.names))
        if self.way in ('set', 'unset'):
            return dict(j, perform='change_config', arguments=dict(what=self.way, values=self.values))
        return dict(j, perform='save_config', arguments=dict(path=None if self.way == 'default' else str(self.file(d).parent), values=self.values))

    def must(self, job):
        a, = lab().ask(job)
        if a['code'] or a['error']:
            raise RuntimeError(f'{self.s} does not work at all: {a}')
        return a

    # -- verdicts

    def right(self, r, key, got, label):
        """The result of a process which says that it was successful"""
        r.transitions += 1
        if self.s[0] != 'registry':
            return
        bad = [k for k, v in self.want.items() if (got or {}).get(k) != v]
        if bad:
            r.problems.append((f'{key}:{bad[0]}', f'{bad[0]} is {str((got or {}).get(bad[0]))[:300]} instead of {str(self.want[bad[0]])[:300]} after {label}'))
        for n, c in ((got or {}).get('contents') or {}).items():
            if c != content(n):
                r.problems.append((f'{key}:contents', f'{n} has {c!r} instead of {content(n)!r} after {label}'))

    def afterwards(self, r, key, d, label):
        """What later processes get from what is left in a folder"""
        r.states += 1
        if self.s[0] == 'registry':
            offline, = lab().ask(self.job(self.new('offline', d), online=False))
            if offline['error'] is None:
                self.right(r, key + ' offline', offline['result'], label)
            online, again = lab().ask(self.job(d)) + lab().ask(self.job(d, online=False))
            if online['error'] or online['code']:
                r.problems.append((f'{key} then', f'a later process gets {online["error"] or online["code"]} after {label}'))
            else:
                self.right(r, key + ' then', online['result'], label)
                if again['error']:
                    r.problems.append((f'{key} cached', f'the list is not kept: {again["error"]} after {label}'))
                else:
                    self.right(r, key + ' cached', again['result'], label)
            return
        f = self.file(d)
        now = f.read_bytes() if f.exists() else None
        if now not in (self.old, self.new_bytes()):
            r.problems.append((f'{key} file', f'the configuration file has {len(now or b"")} bytes, neither what was there before nor what was to be written, after {label}'))
        elif self.way != 'given':
            got, = lab().ask(dict(folder=str(d), environ=self.environ(d), perform='read_config', arguments=dict(keys=['cc'])))
            want = {None: None, self.old: 'the-old-one', self.new_bytes(): None if self.way == 'unset' else 'a-compiler'}[now]
            if now is not None and (got['error'] or got['result']['cc'] != want):
                r.problems.append((f'{key} config', f'a later process has cc={got} instead of {want} after {label}'))

    def new_bytes(self):
        if not hasattr(self, '_new'):
            d = self.new('complete', self.start)
            self.must(self.job(d))
            self._new = self.file(d).read_bytes()
        return self._new


def run_case(case):
    r = Result(states=1, transitions=0)
    w = World(SCENARIOS[case[1]])
    try:
        globals()['_' + case[0]](w, case[2:], r)
    finally:
        w.close()
    r.outcome = [case[0], case[1], len(r.problems)]
    return r


def operations(w):
    a = w.must(w.job(w.copy()))
    return [x.rsplit(' ', 1) for x in a['log'].split('\n') if x]


def _ends(w, args, r):
    part, parts, quick = args
    ops = operations(w)
    points = []
    for k, (what, size) in enumerate(ops):
        n = int(size) if what.startswith('write') else 0
        wanted = range(n) if not quick or n < 60 else sorted({b for m in range(0, 12) for b in (m, n - 1 - m, n // 2 - m) if 0 <= b < n})
        points += [(k, 0)] + [(k, b) for b in wanted if b]
    points = points[part::parts]
    if part == 0:
        a = w.must(w.job(d := w.copy()))
        w.right(r, 'first', a['result'], w.s)
        w.afterwards(r, 'first', d, w.s)
    for k, b in points:
        d = w.copy()
        a, = lab().ask(w.job(d, mode=crashlab.CRASH, at=[k], part=b))
        label = f'{w.s} ended at {ops[k][0]} ({k} of {len(ops)}) with {b} bytes'
        if a['code'] != 99:
            r.problems.append(('uninterpretable', f'the process was not ended: {a} {label}'))
            continue
        w.afterwards(r, 'end', d, label)
    r.traces = len(points)


def _errors(w, args, r):
    ops = operations(w)
    for k, (what, size) in enumerate(ops):
        for error in (28, 5, 13):
            modes = [(crashlab.FAIL, 0)] + ([(crashlab.HALF, b) for b in (0, 1, int(size) // 2, int(size))] if what.startswith('write') and error == 28 else [])
            for mode, b in modes:
                d = w.copy()
                a, = lab().ask(w.job(d, mode=mode, at=[k], part=b, error=error))
                label = f'{w.s} with error {error} at {what} ({k} of {len(ops)})' + (f' after {b} bytes' if mode == crashlab.HALF else '')
                if a['code']:
                    r.problems.append(('uninterpretable', f'{a} {label}'))
                    continue
                if a['error'] is None:
                    w.right(r, 'error', a['result'], label)
                w.afterwards(r, 'error', d, label)
                r.traces += 1


def _server(w, args, r):
    quick, = args
    n = len(listing(w.names, w.fmt).encode())
    faults = [f'status/{c}{k}' for c in (400, 403, 404, 429, 500, 502, 503) for k in range(3)]
    faults += [f'cut/{b}' for b in (range(n) if not quick or n < 60 else sorted({b for m in range(4) for b in (m, n - 1 - m, n // 2 - m)} | {len(w.names[0]) if w.names else 0})) if b < n]
    for fault in faults:
        d = w.copy()
        a, = lab().ask(w.job(d, fault=f'/fault/{fault}'))
        label = f'{w.s} with the answers {fault} of the server'
        if a['error'] is None:
            w.right(r, 'server', a['result'], label)
        w.afterwards(r, 'server', d, label)
        r.traces += 1


def _two(w, args, r):
    part, quick = args
    n = len(operations(w))
    schedules = [(i, None) for i in range(n)] + [(i, j) for i in range(n) for j in range(n)]
    if not quick:
        schedules += [((i, i2), j) for i in range(n) for i2 in range(i + 1, n) for j in range(n)]
    for i, j in schedules[part::PARTS]:
        d = w.copy()
        at = [i] if isinstance(i, int) else list(i)
        jobs = [w.job(d, mode=crashlab.PAUSE, at=at), w.job(d, mode=crashlab.PAUSE, at=[] if j is None else [j])]
        # the first to its pause, the second to its pause or end, the first on, the second on
        results = lab().ask(*jobs, order=[0, 1, 0, 1, 0])
        label = f'{w.s} twice at once, paused at {i} and {j}'
        for a in results:
            if a['code']:
                r.problems.append(('uninterpretable', f'{a} {label}'))
            elif a['error'] and w.s[-1] == 'unset':
                pass  # there is nothing left to unset
            elif a['error']:
                r.problems.append(('two:error', f'{a["error"]} for {label}'))
            else:
                w.right(r, 'two', a['result'], label)
        w.afterwards(r, 'two', d, label)
        r.traces += 1
