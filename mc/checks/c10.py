"""C10: a name is found in the first registry which has a file of that name, and nothing else is ever used in its place."""
import itertools, hashlib, os, re
from pathlib import Path
from ..base import Result
from .. import cgen, env

PID = 'C10'
LEVEL = 'model_checking'
ASSUMPTIONS = ['remote registries have all of their files in the local cache, with the right checksum (no network)',
               'several files of the same name in different folders of the chosen registry: one of them, or an error, is accepted']
BOUND = ('one registry, asked itself and by a reader, with each set of up to 3 (thorough: 4) of 12 files, and two registries with each pair of sets of up to 2 of 7 files, of each kind (folder, in memory, remote), '
         'priority and order; every way of asking; every history of up to 3 (thorough: 4) steps of asking, adding registries and files; SEARCH at every place of an instrument; 27 registry specifications, once and twice, with four sets of registries known before')
FILES = ['Arm.comp', 'optics/Arm.comp', 'SuperArm.comp', 'optics/SuperArm.comp', 'Arm/Arm.comp', 'Arm.comp.old', 'Arm/notes.txt', 'Arm.instr', 'Armature.comp', 'lib/Arm.h', 'lib/xArm.h', 'arm.comp']
FEW = ['Arm.comp', 'optics/Arm.comp', 'SuperArm.comp', 'optics/SuperArm.comp', 'Arm/Arm.comp', 'Arm.instr', 'Arm.comp.old']
KINDS = ['local', 'memory', 'remote']
ASK = [('Arm', '.comp'), ('SuperArm', '.comp'), ('Arm.comp', None), ('Arm.comp', '.comp'), ('optics/Arm', '.comp'), ('Arm.h', None), ('Arm.instr', None), ('rm', '.comp'), ('Armature', '.comp'), ('arm', '.comp'), ('Arm.comp', '.old')]
SPECS = ['{f}', '"{f}"', ' {f} ', 'aName {f}', '"aName" "{f}"', '{f} x', '{m}', 'aName {m}', 'aName', 'aName nothere', '', ' ', 'aName http://127.0.0.1:9/u {t}', '"aName" "http://127.0.0.1:9/u" "{t}"',
         'aName http://127.0.0.1:9/u {m}', 'aName http://127.0.0.1:9/u v1.2.3 list.txt', 'aName nourl v1.2.3 list.txt', 'aName http:///u {t}', 'aName http://127.0.0.1:9/u', '{sp}', '"{sp}"', 'aName file://{f} {t}',
         'folder', 'aName folder', 'spaced folder', '"spaced folder"', 'aName http://127.0.0.1:9/u table.txt']
PRIORITY = [(10, 10), (20, 10), (10, 20)]
OPS = ['get Arm', 'get SuperArm', 'prepend SuperArm', 'prepend Arm', 'append Arm', 'search Arm', 'add Arm', 'add SuperArm']


def subsets(files, most):
    return [s for n in range(most + 1) for s in itertools.combinations(range(len(files)), n)]


def cases(tier):
    q = tier == 'quick'
    for kind in KINDS:
        for s in subsets(FILES, 3 if q else 4):
            yield ['one', kind, [FILES[i] for i in s]]
    two = subsets(FEW, 2)
    for a, b in itertools.product(two, two):
        for k1, k2 in itertools.product(KINDS, KINDS):
            yield ['two', k1, [FEW[i] for i in a], k2, [FEW[i] for i in b]]
    for n in range(1, 4 if q else 5):
        for ops in itertools.product(range(len(OPS)), repeat=n):
            yield ['hist', list(ops)]
    for where in range(4):
        for spec in range(9):
            for prio in range(3):
                yield ['search', where, spec, prio]
    for spec in range(len(SPECS)):
        for before in range(4):
            for again in range(2):
                yield ['spec', spec, before, again]


def run_case(case):
    r = Result(states=1, transitions=0)
    globals()['_' + case[0]](case[1:], r)
    return r


def content(path, slot):
    stem, dot, ext = path.rsplit('/', 1)[-1].partition('.')
    text = f'from {path} of {slot}'
    if ext.startswith('comp'):
        return f'DEFINE COMPONENT {stem}\nSETTING PARAMETERS (string origin="{text}")\nTRACE\n%{{\n%}}\nEND\n'
    if ext == 'instr':
        return f'DEFINE INSTRUMENT {stem}(string origin="{text}")\nTRACE\nEND\n'
    return text + '\n'


_cache = {}


def registry(kind, files, slot, priority=10):
    key = (kind, tuple(files), slot, priority, os.getpid() if kind == 'memory' else 0)
    if key not in _cache:
        _cache[key] = make(kind, files, slot, priority)
    return _cache[key]


def make(kind, files, slot, priority):
    from mccode_antlr.reader.registry import InMemoryRegistry, GitHubRegistry, LocalRegistry
    tag = hashlib.sha256(repr((files, slot, os.getpid())).encode()).hexdigest()[:12]
    name = f'{kind}{slot}'
    if kind == 'memory':
        reg = InMemoryRegistry(name, priority=priority)
        for f in files:
            reg.add(f, content(f, slot))
        return reg
    if kind == 'local':
        folder = env.SCRATCH / 'c10' / tag
        put(folder, files, slot)
        return LocalRegistry(name, str(folder), priority=priority)
    known = {f: 'sha256:' + hashlib.sha256(content(f, slot).encode()).hexdigest() for f in files}
    reg = GitHubRegistry(f'{name}{tag}', 'http://127.0.0.1:9/nowhere', 'v1.2.3', registry=known, priority=priority)
    put(Path(reg.pooch.abspath), files, slot)
    return reg


def put(folder, files, slot):
    folder.mkdir(parents=True, exist_ok=True)
    for f in files:
        p = folder / f
        p.parent.mkdir(parents=True, exist_ok=True)
        p.write_text(content(f, slot))


def candidates(kind, files, name, ext):
    """The files which a name stands for, the best ones"""
    full = name if ext is None or name.endswith(ext) else name + ext
    if kind == 'memory':
        return [f for f in files if f == full]
    return [f for f in files if f == full] or [f for f in files if f.endswith('/' + full)]


def origin(text):
    m = re.search(r'from (\S+) of (\w+)', text)
    return (m.group(1), m.group(2)) if m else text


def ask(regs, specs, r, label):
    """Ask a reader every question; specs: [(kind, files, slot)] in the order in which they count"""
    from mccode_antlr.reader import Reader
    from mccode_antlr.instr import Instr
    for name, ext in ASK:
        kinds = {k for k, _, _ in specs}
        if 'memory' in kinds and ('/' in name or (ext and name.endswith(ext))):
            continue
        want = None
        for kind, files, slot in specs:
            c = candidates(kind, files, name, ext)
            if c:
                want = (kind, c, slot)
                break
        reader = Reader(registries=list(regs))
        what = f'{label}: {name}{"" if ext is None else "," + ext}'
        r.transitions += 1

        def attempt(f):
            try:
                return f()
            except (RuntimeError, KeyError) as e:
                return e
        got = attempt(lambda: reader.contents(name, ext=ext, strict=True))
        judge(r, what + ' contents', want, got if isinstance(got, Exception) else origin(got))
        got = attempt(lambda: reader.locate(name, ext=ext, strict=True))
        if want is None or want[0] != 'memory':
            judge(r, what + ' locate', want, got if isinstance(got, Exception) else origin(Path(got).read_text()))
        got = attempt(lambda: reader.fullname(name, ext=ext, strict=True))
        if isinstance(got, Exception) or want is None:
            judge(r, what + ' fullname', want, got)
        elif not any(str(got).endswith(c) for c in want[1]):
            r.problems.append(('fullname', f'{what}: fullname {got} is not {want}'))
        if ext is None and '.' in name:
            got = reader.known(name, strict=True)
            if got != (want is not None):
                r.problems.append(('known', f'{what}: known is {got}, {want}'))
            got = reader.contain(name, strict=True)
            n = sum(bool(candidates(k, f, name, None)) for k, f, _ in specs)
            if len(got) != n:
                r.problems.append(('contain', f'{what}: registries {got}, should be {n}'))
            singly = [sum(f == name or (k != 'memory' and f.endswith('/' + name)) for f in files) == 1 for k, files, _ in specs]
            got = reader.unique(name)
            if got != (sum(singly) == 1):
                r.problems.append(('unique', f'{what}: unique is {got}'))
        if ext is None and want is not None:
            # the path of a file for the compiler is that of the first registry which has it, where files in memory have none
            real = next(((k, c, s) for k, c, s in ((k, candidates(k, f, name, None), s) for k, f, s in specs) if c and k != 'memory'), None)
            instr = Instr('i', registries=tuple(sorted(regs, key=lambda x: x.priority, reverse=True)), flags=(f'-DF=GETPATH({name})',))
            got = attempt(lambda: instr.decoded_flags())
            if real is not None:
                judge(r, what + ' flag', real, got if isinstance(got, Exception) else origin(Path(got[0][4:]).read_text()) if Path(got[0][4:]).is_file() else got)
        if ext == '.comp' and '/' not in name and not name.endswith(ext):
            got = attempt(lambda: reader.get_component(name))
            if isinstance(got, Exception):
                judge(r, what + ' component', want, got)
            else:
                judge(r, what + ' component', want, origin(str(got.get_parameter('origin').value)))
                if got.name != name:
                    r.problems.append(('component', f'{what}: is a {got.name}'))
                if reader.get_component(name) is not got:
                    r.problems.append(('component', f'{what}: read twice'))
        if ext is None and name.endswith('.instr'):
            with cgen.quiet():
                got = attempt(lambda: reader.get_instrument(name[:-6]))
            if want is None or want[0] != 'memory':
                judge(r, what + ' instrument', want, got if isinstance(got, Exception) else origin(str(got.parameters[0].value)))


def judge(r, what, want, got):
    if want is None:
        if not isinstance(got, Exception):
            r.problems.append(('invented', f'{what}: nothing has this name, but got {got}'))
    elif isinstance(got, Exception):
        if len(want[1]) == 1:
            r.problems.append(('lost', f'{what}: should be {want}, but {type(got).__name__}: {str(got)[:150]}'))
    elif (got[0] not in want[1]) or got[1] != want[2]:
        r.problems.append(('wrong', f'{what}: got {got}, should be {want}'))


def _one(args, r):
    kind, files = args
    reg = registry(kind, files, 'a')
    ask([reg], [(kind, files, 'a')], r, f'{kind} {files}')
    if kind == 'remote' and len(files) > 1:
        ask([registry(kind, files[::-1], 'a')], [(kind, files, 'a')], r, f'{kind} {files[::-1]}')
    for pattern in ('Arm', 'optics', r'.*\.comp$', 'rm', r'lib/.*h$'):
        for how in ('search', 'match'):
            got = sorted(getattr(reg, how)(pattern))
            want = sorted(f for f in files if getattr(re, how)(pattern, f))
            r.transitions += 1
            if got != want:
                r.problems.append(('listed', f'{kind} {files}: {how} {pattern} gave {got}'))
    direct(reg, kind, files, r)
    r.nontrivial = bool(files)
    r.outcome = [kind, len(files)]


def direct(reg, kind, files, r):
    """The registry itself, exact or not: what it gives for a name is a file of that name, if it has one"""
    for name, ext in ASK:
        if kind == 'memory' and ('/' in name or (ext and name.endswith(ext))):
            continue
        want = candidates(kind, files, name, ext)
        label = f'{kind} {files}: registry, {name},{ext}'
        r.transitions += 1
        if kind != 'memory':
            for exact in ((False,) if kind == 'local' else (True, False)):
                for f in (reg.fullname, reg.path):
                    try:
                        got = f(name, ext, exact=exact)
                    except RuntimeError as e:
                        got = e
                    if isinstance(got, Exception):
                        if len(want) == 1:
                            r.problems.append(('lost', f'{label}: {f.__name__} exact={exact} should be {want}, but {got}'))
                    elif want and not any(str(got) == w or str(got).endswith('/' + w) for w in want):
                        r.problems.append(('wrong', f'{label}: {f.__name__} exact={exact} is {got}, should be {want}'))
                    elif not Path(got).is_dir() and not any(str(got) == w or str(got).endswith('/' + w) for w in files):
                        r.problems.append(('invented', f'{label}: {f.__name__} exact={exact} is {got}, which the registry does not have'))
        known = reg.known(name, ext, strict=True)
        if known != bool(want):
            r.problems.append(('known', f'{label}: known is {known}, files {want}'))
        try:
            got = reg.is_available(name, ext)
        except RuntimeError as e:
            got = False
        except TypeError as e:
            r.problems.append(('available', f'{label}: is_available fails, {e}'))
            continue
        if got is not None and bool(got) != bool(want):
            r.problems.append(('available', f'{label}: is_available is {got}, files {want}'))
    # a name without an extension, where a file has that stem
    for name in ('Arm', 'SuperArm', 'Armature') if kind == 'remote' else ():
        stems = [f for f in files if f.rsplit('/', 1)[-1].rsplit('.', 1)[0] == name]
        if bool(stems) != bool(reg.known(name, strict=True)):
            r.problems.append(('known', f'{kind} {files}: {name} without an extension'))
        if stems and reg.fullname(name, exact=False) not in stems:
            r.problems.append(('wrong', f'{kind} {files}: {name} without an extension is {reg.fullname(name, exact=False)}, should be in {stems}'))


def _two(args, r):
    k1, f1, k2, f2 = args
    for p1, p2 in PRIORITY:
        regs = [registry(k1, f1, 'a', p1), registry(k2, f2, 'b', p2)]
        specs = [(k1, f1, 'a'), (k2, f2, 'b')]
        if p2 > p1:
            specs = specs[::-1]
        ask(regs, specs, r, f'{k1} {f1} priority {p1} + {k2} {f2} priority {p2}')
        r.states += 1
    r.nontrivial = bool(f1 or f2)
    r.outcome = [k1, k2, len(f1), len(f2)]


def _hist(args, r):
    from mccode_antlr.reader import Reader
    ops, = args
    memory = make('memory', ['SuperArm.comp'], 'm', 100)
    reader = Reader(registries=[memory, registry('local', ['optics/Arm.comp'], 'z')])
    order = [dict(slot='m', files=['SuperArm.comp'], kind='memory'), dict(slot='z', files=['optics/Arm.comp'], kind='local')]
    bound = {}
    for n, o in enumerate(ops):
        op, name = OPS[o].split()
        r.transitions += 1
        if op == 'get':
            want = bound.get(name)
            if want is None:
                for x in order:
                    c = candidates(x['kind'], x['files'], name, '.comp')
                    if c:
                        want = (x['kind'], c, x['slot'])
                        break
            try:
                got = origin(str(reader.get_component(name).get_parameter('origin').value))
            except RuntimeError as e:
                got = e
            judge(r, f'after {[OPS[z] for z in ops[:n + 1]]}', want, got)
            if want:
                bound[name] = want
        elif op == 'add':
            memory.add_comp(name, content(f'{name}.comp', f'm{n}'))
            x = [x for x in order if x['kind'] == 'memory'][0]
            # the newest definition in memory counts; others keep their origin
            order = [dict(slot=f'm{n}', files=[f'{name}.comp'], kind='memory') if z is x else z for z in order]
            rest = [f for f in x['files'] if f != f'{name}.comp']
            if rest:
                order.insert([z['slot'] for z in order].index(f'm{n}') + 1, dict(x, files=rest))
        else:
            slot, files = f'h{n}', [f'{name}.comp', f'{name}ature.comp']
            reg = registry('local', files, slot)
            if op == 'search':
                reader.handle_search_keyword(str(reg.root))
            else:
                getattr(reader, f'{op}_registry')(reg)
            order.insert(len(order) if op == 'append' else 0, dict(slot=slot, files=files, kind='local'))
    r.states = len(ops) + 1
    r.nontrivial = any(o < 2 for o in ops)
    r.outcome = sorted(map(str, bound.values()))


def _search(args, r):
    """SEARCH in an instrument makes a folder the first to be searched from there on, for components and for included files"""
    where, spec, prio = args
    given = registry('local', ['Arm.comp', 'SuperArm.comp'], 'given', [5, 10, 200][prio])
    folder = env.SCRATCH / 'c10' / f'x{os.getpid()}' / ['plain', 'with space', 'deep/er', 'dash-and.dot', "quote's", 'named', 'relative', 'shell', 'shell two'][spec].replace('shell ', 'shell')
    other = folder.parent / 'other'
    put(folder, ['Arm.comp', 'optics/SuperArm.comp', 'Armature.comp'], 'searched')
    put(other, ['Arm.comp'], 'other')
    (folder / 'found.h').write_text('int found_in_the_searched_folder;\n')
    search = f'SEARCH "{folder}"\n'
    if spec == 5:
        search = f'SEARCH "name {folder}"\n'
    elif spec == 6:
        search = f'SEARCH "{os.path.relpath(folder)}"\n'
    elif spec == 7:
        search = f'SEARCH SHELL "echo {folder}"\n'
    elif spec == 8:
        search = f'SEARCH SHELL "echo {other}; echo; echo {folder}"\n'
    comps = ['COMPONENT a = Arm() AT (0,0,0) ABSOLUTE\n', 'COMPONENT b = SuperArm() AT (0,0,0) ABSOLUTE\n', 'COMPONENT c = Arm() AT (0,0,0) ABSOLUTE\n']
    text = 'DEFINE INSTRUMENT i()\n' + (search if where == 0 else '') + 'DECLARE %{\n%include "found.h"\n%}\nTRACE\n'
    for n, c in enumerate(comps):
        text += (search if where == n + 1 else '') + c
    text += 'END\n'
    file = env.SCRATCH / 'c10' / f'i{os.getpid()}.instr'
    file.write_text(text)

    def by_reader():
        from mccode_antlr.reader import Reader
        return Reader(registries=[given, cgen.libc()]).get_instrument(file)

    def by_file():
        from mccode_antlr.loader.loader import load_mccode_instr
        return load_mccode_instr(file, [given, cgen.libc()])
    for how, f in (('text', lambda: cgen.parse(text, [given])), ('file', by_file), ('reader', by_reader)):
        with cgen.quiet():
            instr = f()
        r.transitions += 1
        want, read = [], {}
        for n, name in enumerate(('Arm', 'SuperArm', 'Arm')):
            # a component which was read before SEARCH stays what it was
            read.setdefault(name, 'searched' if where <= n + 1 else 'given')
            want.append(read[name])
        got = [origin(str(c.type.get_parameter('origin').value))[1] for c in instr.components]
        if got != want:
            r.problems.append(('search', f'{how}: SEARCH at {where} of {folder.name}: components from {got} should be {want}'))
        try:
            out = cgen.translate(instr)
        except RuntimeError as e:
            out = str(e)
        if 'found_in_the_searched_folder' not in out:
            r.problems.append(('include', f'{how}: SEARCH at {where} of {folder.name}: the file is not found by %include: {out[-200:]}'))
    r.outcome = [where, want]


def _spec(args, r):
    here = os.getcwd()
    base = env.SCRATCH / 'c10' / f's{os.getpid()}'
    base.mkdir(parents=True, exist_ok=True)
    os.chdir(base)
    try:
        _spec_in(base, args, r)
    finally:
        os.chdir(here)


def _spec_in(base, args, r):
    """A description of a registry gives that registry, first to be searched; one which gives nothing is refused and leaves the reader as it was"""
    from mccode_antlr.reader import Reader
    from mccode_antlr.reader.registry import LocalRegistry, ModuleRemoteRegistry, GitHubRegistry, registry_from_specification, registries_match
    import pooch
    which, before, again = args
    folder, spaced, table = base / 'folder', base / 'spaced folder', base / 'table.txt'
    put(folder, ['Arm.comp'], 'folder')
    put(spaced, ['Arm.comp'], 'spaced')
    table.write_text('optics/Arm.comp sha256:' + hashlib.sha256(content('optics/Arm.comp', 'remote').encode()).hexdigest() + '\n')
    stash = pooch.os_cache('mccode_antlr/aName') / 'v1.2.3' / 'list.txt'
    stash.parent.mkdir(parents=True, exist_ok=True)
    stash.write_text(table.read_text())
    spec = SPECS[which].format(f=folder, m=base / 'missing', t=table, sp=spaced)
    local = {0: folder, 1: folder, 2: folder, 3: folder, 4: folder, 19: spaced, 20: spaced, 22: folder, 23: folder, 24: spaced, 25: spaced}
    kind = LocalRegistry if which in local else ModuleRemoteRegistry if which in (12, 13, 21, 26) else GitHubRegistry if which == 15 else None
    regs = [[registry('local', ['Arm.comp'], 'given')], [registry('memory', ['Arm.comp'], 'm', 100), registry('local', ['Arm.comp'], 'given')],
            [LocalRegistry('there', str(folder)), registry('local', ['Arm.comp'], 'given')],
            [LocalRegistry('folder', str(base / 'elsewhere' / 'folder')), LocalRegistry('aName', str(base)), LocalRegistry('spaced folder', str(base / 'elsewhere' / 'spaced folder'))]][before]
    reader = Reader(registries=regs)
    start = list(reader.registries)
    label = f'specification {SPECS[which]!r} with {[x.name for x in start]}'
    with cgen.quiet():
        for n in range(1 + again):
            r.transitions += 1
            try:
                reader.handle_search_keyword(spec)
                failed = False
            except (RuntimeError, IndexError):
                failed = True
    if failed != (kind is None):
        r.problems.append(('spec', f'{label}: {"refused" if failed else "accepted"}'))
    if kind is None:
        if reader.registries != start:
            r.problems.append(('spec', f'{label}: changed the registries'))
    elif not failed:
        new = reader.registries[0]
        with cgen.quiet():
            text = registry_from_specification(spec)
        there = before == 2 and local.get(which) == folder
        if there and len(reader.registries) == len(start):
            new = start[0]
        elif reader.registries[-len(start):] != start or type(new) is not kind:
            r.problems.append(('spec', f'{label}: gives {[(type(x).__name__, x.name) for x in reader.registries]}'))
        if which in local:
            if Path(new.root).resolve() != local[which].resolve() or new.filenames() != ['Arm.comp']:
                r.problems.append(('spec', f'{label}: folder {new.root}'))
            if which in (3, 4, 23) and not there and new.name != 'aName':
                r.problems.append(('spec', f'{label}: name {new.name}'))
        else:
            if new.name != 'aName' or new.filenames() != ['optics/Arm.comp'] or not new.known('Arm', '.comp', strict=True):
                r.problems.append(('spec', f'{label}: {new.name} with {new.filenames()}'))
            if kind is GitHubRegistry and (new.version != 'v1.2.3' or new.filename != 'list.txt'):
                r.problems.append(('spec', f'{label}: version {new.version}, list {new.filename}'))
            if not str(new.pooch.base_url).startswith('http://127.0.0.1:9/u' if which != 21 else 'file://'):
                r.problems.append(('spec', f'{label}: at {new.pooch.base_url}'))
        if type(text) is not kind or (not there and not (text == new and new == text and registries_match(new, text))):
            r.problems.append(('equal', f'{label}: the same specification twice gives different registries'))
        others = [x for x in start if x is not new] + [registry('remote', ['Arm.comp'], 'other'), LocalRegistry(new.name, str(base / 'x')), LocalRegistry('zz', str(folder))]
        for other in others:
            if not there and (new == other or other == new):
                r.problems.append(('equal', f'{label}: equals {other.name}'))
    r.states = len(reader.registries)
    r.nontrivial = kind is not None
    r.outcome = [which, before, failed]
