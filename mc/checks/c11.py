"""C11: libraries requested by %include are embedded once each, before what uses them; other files replace the statement."""
import itertools, os, re, subprocess
from ..base import Result
from .. import cgen, env
from . import c10

PID = 'C11'
LEVEL = 'model_checking'
ASSUMPTIONS = ['libraries have a .h and a .c file each, without guards against repeated inclusion',
               'in a cycle of requests every library is still embedded once; which one comes first is not judged']
BOUND = ('each file of the runtime, and all, in a further registry of each kind before or after the main one, or instead of it; every graph of header requests between 3 libraries (with and without cycles) and every acyclic one between 4, with every sequence of requests from up to 3 '
         '(4 libraries: 2, thorough 4) C blocks in several places of the instrument; requests of source files; every pair of blocks; every nesting of plain files up to depth 3')
LIBS = 'abcd'
PLACES = [['share'], ['declare', 'share', 'share2'], ['extend', 'trace', 'declare'], ['init', 'user', 'save2'], ['share2', 'share', 'final']]
CHUNK = 20


def acyclic(edges, n):
    left = set(range(n))
    while left:
        free = [x for x in left if not any((x, y) in edges for y in left)]
        if not free:
            return False
        left -= set(free)
    return True


def graphs(n):
    pairs = [(i, j) for i in range(n) for j in range(n) if i != j]
    for bits in range(1 << len(pairs)):
        yield [p for k, p in enumerate(pairs) if bits >> k & 1]


def orders(n, most):
    return [list(p) for k in range(1, most + 1) for p in itertools.permutations(range(n), k)]


def cases(tier):
    q = tier == 'quick'
    for g in graphs(3):
        for o in orders(3, 3):
            for p in range(len(PLACES)) if not q else (sum(o) % 5, (len(g) + 2) % 5):
                yield ['graph', 3, g, [], o, p]
    # requests made by the source file of a library
    pairs = [(i, j) for i in range(3) for j in range(3) if i != j]
    for g in graphs(3):
        if acyclic(set(g), 3):
            for k in range(1, 2 if q else 4):
                for c in itertools.combinations(pairs, k):
                    for o in orders(3, 1 if q else 3):
                        yield ['graph', 3, g, list(c), o, 0]
    for c in itertools.combinations(pairs, 2):
        for o in orders(3, 3):
            yield ['graph', 3, [], list(c), o, 1]
    for g in graphs(4):
        if acyclic(set(g), 4):
            for o in orders(4, 1 if q else 3):
                yield ['graph', 4, g, [], o, (len(g) + o[0]) % 5]
    for kind in c10.KINDS:
        for other in c10.KINDS:
            for decoy in range(len(DECOYS)):
                for first in range(2):
                    yield ['kind', kind, other, decoy, first]
    for kind in c10.KINDS:
        for what in range(len(RUNTIME) + 2):
            for first in range(3):
                for flavor in range(2):
                    yield ['runtime', kind, what, first, flavor]
    for place in range(len(BLOCKS)):
        for form in range(len(FORMS)):
            for what in range(8):
                yield ['block', place, form, what]
    for p1, p2 in itertools.permutations(range(len(BLOCKS)), 2):
        yield ['pair', p1, p2]
    for depth in range(1, 4):
        for shape in range(6):
            for place in ('share', 'declare', 'trace', 'extend', 'init'):
                yield ['file', depth, shape, place]


def run_case(case):
    r = Result(states=1, transitions=0)
    globals()['_' + case[0]](case[1:], r)
    return r


def request(libs):
    return '\n'.join(f'%include "lib{LIBS[x]}"' for x in libs)


def instrument(blocks):
    """Two component types, the blocks given by place"""
    def b(k, what):
        return f'{what} %{{\n{blocks[k]}\n%}}\n' if k in blocks else ''
    one = 'DEFINE COMPONENT One\n' + b('share', 'SHARE') + b('cuser', 'USERVARS') + b('cdeclare', 'DECLARE') + b('cinit', 'INITIALIZE') \
        + 'TRACE\n%{\n' + blocks.get('trace', '') + '\n%}\n' + b('csave', 'SAVE') + b('cfinal', 'FINALLY') + b('display', 'MCDISPLAY') + 'END\n'
    two = 'DEFINE COMPONENT Two\n' + b('share2', 'SHARE') + 'TRACE\n%{\n%}\n' + b('save2', 'SAVE') + 'END\n'
    text = 'DEFINE INSTRUMENT i()\n' + b('declare', 'DECLARE') + b('user', 'USERVARS') + b('init', 'INITIALIZE') \
        + 'TRACE\nCOMPONENT x = One() AT (0,0,0) ABSOLUTE\n' \
        + b('extend', 'EXTEND') + 'COMPONENT y = Two() AT (0,0,0) ABSOLUTE\n' + b('save', 'SAVE') + b('final', 'FINALLY') + 'END\n'
    return text, {'One.comp': one, 'Two.comp': two}


BLOCKS = ['share', 'cuser', 'cdeclare', 'cinit', 'trace', 'csave', 'cfinal', 'display', 'share2', 'save2', 'declare', 'user', 'init', 'extend', 'save', 'final']
FORMS = ['%include "NAME"', '  %include "NAME"', '\t%include\t"NAME"', '%include   "NAME"   ', '%include"NAME"', '\n\n%include "NAME"\n\n']


def _block(args, r):
    """A library, or a file which requests one, in any kind of block and in any form"""
    place, form, what = args
    libs = {'sub/libq.h': '/* HEADER q */\n', 'sub/libq.c': '/* SOURCE q */\n', 'liba.h': '%include "sub/libq"\n/* HEADER a */\n', 'liba.c': '/* SOURCE a */\n',
            'libb.h': '%include "libc_"\n/* HEADER b */\n', 'libb.c': '/* SOURCE b */\n', 'libc_.h': '/* HEADER c */\n', 'libc_.c': '/* SOURCE c */\n',
            'plain.inc': FORMS[form].replace('NAME', 'liba') + '\n/* PLAIN */\n', 'outer.inc': FORMS[form].replace('NAME', 'plain.inc') + '\n'}
    ask = [['liba'], ['sub/libq'], ['plain.inc'], ['outer.inc'], ['libb', 'plain.inc'], ['plain.inc', 'libb'], ['liba', 'libb'], ['liba', 'liba', 'plain.inc']][what]
    block = '\n'.join(FORMS[form].replace('NAME', x) for x in ask)
    text, comps = instrument({BLOCKS[place]: block})
    regs = [registry(comps), cgen.local(f'c11b-{os.getpid()}-{form}', libs)]
    source = cgen.translate(cgen.parse(text, regs))
    r.transitions += 1
    names = set()
    for x in ask:
        names |= {'libb': {'b', 'c'}, 'sub/libq': {'q'}}.get(x, {'a', 'q'})
    for n in 'abcq':
        for kind in ('HEADER', 'SOURCE'):
            got = len(re.findall(rf'/\* {kind} {n} \*/', source))
            if got != (n in names):
                r.problems.append(('times', f'{ask} in {BLOCKS[place]}: {kind} of {n} is embedded {got} times'))
    # declarations of members are parsed, and not copied
    if BLOCKS[place] not in ('user', 'cuser', 'cdeclare') and source.count('/* PLAIN */') != sum(x.endswith('inc') for x in ask):
        r.problems.append(('times', f'{ask} in {BLOCKS[place]}: the plain file is embedded {source.count("/* PLAIN */")} times'))
    if 'a' in names and not r.problems and source.index('/* HEADER q') > source.index('/* HEADER a'):
        r.problems.append(('order', f'{ask} in {BLOCKS[place]}: header a comes before q'))
    if re.search(r'^\s*%include', source.replace('/* %include', ''), re.M):
        r.problems.append(('left', f'{ask} in {BLOCKS[place]}: a request is still in the generated source'))
    errors = syntax(source)
    if errors:
        r.problems.append(('compiles', f'{errors[:3]}'))
    r.outcome = [BLOCKS[place], what]


def _pair(args, r):
    """Two blocks which request a library each, every other block being there too"""
    p1, p2 = args
    libs = {f'lib{n}.{e}': f'/* {k} {n} */\n' for n in 'ab' for e, k in (('h', 'HEADER'), ('c', 'SOURCE'))}
    for others in (False, True):
        blocks = {b: '' for b in BLOCKS} if others else {}
        blocks[BLOCKS[p1]] = '%include "liba"\n'
        blocks[BLOCKS[p2]] = '%include "libb"\n'
        text, comps = instrument(blocks)
        source = cgen.translate(cgen.parse(text, [registry(comps), cgen.local(f'c11p-{os.getpid()}', libs)]))
        r.transitions += 1
        for n in 'ab':
            for kind in ('HEADER', 'SOURCE'):
                got = len(re.findall(rf'/\* {kind} {n} \*/', source))
                if got != 1:
                    r.problems.append(('times', f'{BLOCKS[p1]} and {BLOCKS[p2]}{" of all" if others else ""}: {kind} of {n} is embedded {got} times'))
        if re.search(r'^\s*%include', source.replace('/* %include', ''), re.M):
            r.problems.append(('left', f'{BLOCKS[p1]} and {BLOCKS[p2]}: a request is still in the generated source'))
    r.outcome = [BLOCKS[p1], BLOCKS[p2]]


def syntax(source):
    p = subprocess.run(['gcc', '-O0', '-w', '-std=gnu11', '-fsyntax-only', '-x', 'c', '-'], input=source, text=True, capture_output=True, timeout=60)
    return [l for l in p.stderr.split('\n') if 'error' in l]


def registry(files):
    """The registry of this process, with exactly these files"""
    reg = cgen.local(f'c11-{os.getpid()}', files)
    for f in os.listdir(reg.root):
        if f not in files:
            os.unlink(os.path.join(reg.root, f))
    return reg


def _graph(args, r):
    n, g, c, order, place = args
    g, c = {tuple(x) for x in g}, {tuple(x) for x in c}
    ok = acyclic(g | c, n)
    files = {}
    for i in range(n):
        h, s = [j for a, j in sorted(g) if a == i], [j for a, j in sorted(c) if a == i]
        if (i + len(g)) % 2:
            h = h[::-1]
        use = ''.join(f' + h_{LIBS[j]}()' for j in h) if acyclic(g, n) else ''
        files[f'lib{LIBS[i]}.h'] = f'{request(h)}\n/* HEADER {LIBS[i]} */\ntypedef double t_{LIBS[i]};\nstatic int h_{LIBS[i]}(void) {{ return 1{use}; }}\nint s_{LIBS[i]}(void);\n'
        uses = ''.join(f' + h_{LIBS[j]}() + s_{LIBS[j]}()' for j in s)
        files[f'lib{LIBS[i]}.c'] = f'{request(s)}\n/* SOURCE {LIBS[i]} */\nint s_{LIBS[i]}(void) {{ return 1 + h_{LIBS[i]}(){uses}; }}\n'
    where = PLACES[place]
    blocks = {}
    for k, lib in enumerate(order):
        p = where[k % len(where)]
        blocks[p] = blocks.get(p, '') + ('\n' if p in blocks else '') + request([lib])
    for k, lib in enumerate(order):
        p = where[k % len(where)]
        if p in ('share', 'share2', 'declare'):
            blocks[p] += f'\nint use_{p}{k}(void) {{ t_{LIBS[lib]} v = h_{LIBS[lib]}(); return v; }}'
        elif p not in ('user',):
            blocks[p] += f'\n{{ t_{LIBS[lib]} v = h_{LIBS[lib]}() + s_{LIBS[lib]}(); }}'
    text, comps = instrument(blocks)
    # names of libraries can be those of instruments or components, too
    text = text.replace('INSTRUMENT i(', 'INSTRUMENT libb(') if place == 1 else text.replace('COMPONENT x', 'COMPONENT liba') if place == 2 else text
    reg = registry(dict(files, **comps))
    instr = cgen.parse(text, [reg])
    source = cgen.translate(instr)
    needed, todo = set(), list(order)
    while todo:
        x = todo.pop()
        if x not in needed:
            needed.add(x)
            todo += [j for a, j in g | c if a == x]
    at = {}
    for kind in ('HEADER', 'SOURCE'):
        for i in range(n):
            found = [m.start() for m in re.finditer(rf'/\* {kind} {LIBS[i]} \*/', source)]
            r.transitions += 1
            if len(found) != (1 if i in needed else 0):
                r.problems.append(('times', f'{kind} of {LIBS[i]} is embedded {len(found)} times, needed: {sorted(needed)}'))
            at[kind, i] = found[0] if found else -1
    if not r.problems:
        for i, j in g:
            if i in needed and acyclic(g, n) and at['HEADER', j] > at['HEADER', i]:
                r.problems.append(('order', f'the header of {LIBS[j]} comes after the one of {LIBS[i]}, which requests it'))
        for i, j in c:
            if i in needed and at['HEADER', j] > at['SOURCE', i]:
                r.problems.append(('order', f'the header of {LIBS[j]} comes after the source of {LIBS[i]}, which requests it'))
        for i in needed:
            if at['HEADER', i] > at['SOURCE', i]:
                r.problems.append(('order', f'the header of {LIBS[i]} comes after its source'))
        errors = syntax(source)
        if errors:
            r.problems.append(('compiles', f'{errors[:3]}'))
        if re.search(r'^\s*%include\s*"', source, re.M):
            r.problems.append(('left', 'a request is still in the generated source'))
        again = cgen.translate(instr)
        if strip(again) != strip(source):
            r.problems.append(('again', 'a second translation differs'))
    r.nontrivial = bool(g or c)
    r.outcome = [n, len(g), len(c), ok]


def strip(source):
    return [l for l in source.split('\n') if '* Date:' not in l]


DECOYS = [['xlibb.h', 'xlibb.c'], ['libb.h.old', 'libb.c.old'], ['old/xlibb.h', 'old/xliba.c'], ['libb.hh', 'libb.cc'], ['libb/notes.txt'], ['LIBB.h'],
          ['xmccode-r.h.in', 'old/xmccode-r.h.in', 'mcstas-r.c.old', 'mccode-r.h'], ['libb.h', 'libb.c'], ['deep/libb.h', 'deep/libb.c']]


def _kind(args, r):
    """Libraries come from the first registry which has a file of exactly that name, whatever else there is"""
    kind, other, decoy, first = args
    libs = {}
    for i, x in enumerate('abc'):
        inner = '' if i == 2 else f'%include "lib{"abc"[i + 1]}"\n'
        libs[f'lib{x}.h'] = f'{inner}/* HEADER {x} */\n'
        libs[f'lib{x}.c'] = f'/* SOURCE {x} */\n'
    libs['plain.txt'] = '/* PLAIN */\n'
    names = DECOYS[decoy]
    wrong = {n: f'/* WRONG {n} */\n' for n in names}
    if 'mccode-r.h' in wrong:
        del wrong['mccode-r.h']
    regs = [serve(kind, libs, 'libs'), serve(other, wrong, f'decoy{decoy}')]
    shadow = decoy >= 7     # really has these files
    if first:
        regs = regs[::-1]
    if other == 'memory' and decoy == 8:
        shadow = False      # no folders in memory
    text, comps = instrument(dict(share='%include "liba"\n%include "plain.txt"'))
    regs = [registry(comps)] + regs
    instr = cgen.parse(text, regs)
    instr.registries = (*regs, cgen.libc())
    for i, reg in enumerate(regs):
        reg.priority = 50 - i
    source = cgen.translate(instr)
    r.transitions += 1
    got = re.findall(r'/\* (?:HEADER|SOURCE|PLAIN|WRONG)[^*]*\*/', source)
    b = ['/* HEADER b */', '/* SOURCE b */'] if not (shadow and first) else [f'/* WRONG {n} */' for n in names]
    headers = ['/* HEADER c */', b[0], '/* HEADER a */'] if b[0] == '/* HEADER b */' else [b[0], '/* HEADER a */']
    sources = ['/* SOURCE a */', b[1]] + ['/* SOURCE c */'] * (len(headers) == 3)
    if sorted(got) != sorted(headers + sources + ['/* PLAIN */']):
        r.problems.append(('found', f'{kind} with a {other} registry of {names} {"before" if first else "after"} it: embeds {got}'))
    r.outcome = [kind, other, decoy]


RUNTIME = ['mccode-r.h.in', 'mcstas-r.h', 'mccode-r.c', 'mcstas-r.c', 'mcxtrace-r.h', 'mcxtrace-r.c', 'metadata-r.c', 'mccode_main.c']


def _runtime(args, r):
    """The runtime is embedded once; each of its files from the first registry which has it"""
    from pathlib import Path
    kind, what, first, flavor = args
    given = {n: (Path(cgen.libc().root) / n).read_text() for n in RUNTIME}
    names = RUNTIME if what == len(RUNTIME) else [] if what > len(RUNTIME) else [RUNTIME[what]]
    others = [serve(kind, {n: given[n] + f'/* SECOND {n} */\n' for n in names}, f'second{what}')]
    if first == 2:
        # everything from one registry of that kind, with files of similar names
        others = [serve(kind, {**{n: given[n] + f'/* SECOND {n} */\n' for n in given}, **{f'x{n}': '/* WRONG */' for n in names}, **{f'old.{n}': '/* WRONG */' for n in names}}, f'third{what}')]
        names = RUNTIME
    text, comps = instrument({})
    regs = [[cgen.libc()] + others, others + [cgen.libc()], others][first]
    outs = []
    for chosen in ([cgen.libc()], regs):
        instr = cgen.parse(text, [registry(comps)])
        instr.registries = (registry(comps), *chosen)
        for i, reg in enumerate(instr.registries):
            reg.priority = 50 - i
        out = cgen.translate(instr, mcstas=not flavor)
        r.transitions += 1
        outs.append('\n'.join(x for x in out.split('\n') if not re.match(r'/\* (embedding|end of)( configured version of)? file', x)))
    used = [n for n in RUNTIME if n.startswith('mcc') or n.startswith('meta') or n.startswith(['mcstas', 'mcxtrace'][flavor])]
    want = sorted(n for n in used if n in names and first)
    got = re.findall(r'/\* SECOND (\S+) \*/', outs[1])
    label = f'{names} in a {kind} registry {["after", "before", "instead of"][first]} the runtime, {["mcstas", "mcxtrace"][flavor]}'
    if sorted(got) != want:
        r.problems.append(('runtime', f'{label}: embeds {got} from it, should be {want}'))
    strip = lambda t: [x for x in re.sub(r'/\* SECOND \S+ \*/', '', t).split('\n') if x.strip() and not re.search(r'MCCODE_(DATE|STRING)|[dD]ate|LocalRegistry|GitHubRegistry', x)]
    a, b = strip(outs[0]), strip(outs[1])
    if a != b:
        d = [(x, y) for x, y in itertools.zip_longest(a, b) if x != y]
        r.problems.append(('runtime', f'{label}: the rest of the program changes, {d[:2]}'))
    r.nontrivial = bool(names)
    r.outcome = [kind, what, first, flavor]


def serve(kind, files, slot):
    from mccode_antlr.reader.registry import InMemoryRegistry, GitHubRegistry
    import hashlib
    from pathlib import Path
    if kind == 'local':
        return cgen.local(f'c11-{slot}-{os.getpid()}', files)
    if kind == 'memory':
        reg = InMemoryRegistry(slot)
        for k, v in files.items():
            reg.add(k, v)
        return reg
    known = {f: 'sha256:' + hashlib.sha256(v.encode()).hexdigest() for f, v in files.items()}
    reg = GitHubRegistry(f'{slot}{os.getpid()}', 'http://127.0.0.1:9/nowhere', 'v1.2.3', registry=known)
    for f, v in files.items():
        p = Path(reg.pooch.abspath) / f
        p.parent.mkdir(parents=True, exist_ok=True)
        p.write_text(v)
    return reg


def _file(args, r):
    depth, shape, place = args
    files, names = {}, []
    ext = ['h', 'c', 'inc', 'h', 'h', 'tab.h'][shape]
    for d in range(depth):
        name = f'f{d}.{ext}' if shape != 3 else f'sub{d}/f.h'
        inner = f'%include "{names[-1]}"\n' if names else ''
        body = f'/* FILE {d} */ int in_file{d};\n'
        if shape == 1:
            body = f'/* FILE {d} */ const char *in_file{d} = "a\\tb\\\\n%s\\1";\n'
        files[name] = {0: inner + body, 1: body + inner, 2: inner.strip() + '\n' + body.strip(), 3: body + '  ' + inner, 4: body + inner + '\n\n', 5: '\n' + inner + body}[shape]
        names.append(name)
    twice = shape == 4 and place in ('trace', 'extend', 'init')
    block = 'int first;\n' + (f'%include "{names[-1]}"\n' if not twice else f'{{\n%include "{names[-1]}"\n}}\n{{\n  %include  "{names[-1]}"  \n}}\n') + 'int last;'
    text, comps = instrument({place: block})
    reg = registry(comps)
    for k, v in files.items():
        reg2 = cgen.local(f'c11f-{os.getpid()}-{depth}-{shape}', files)
    instr = cgen.parse(text, [reg, reg2])
    source = cgen.translate(instr)
    errors = syntax(source)
    if errors:
        r.problems.append(('compiles', f'{errors[:3]}'))
    r.transitions += 1
    for d in range(depth):
        n = source.count(f'/* FILE {d} */')
        if n != (2 if twice else 1):
            r.problems.append(('times', f'file {d} is embedded {n} times'))
        if files[names[d]].split('/* FILE')[1].split('\n')[0] not in source:
            r.problems.append(('changed', f'the content of file {d} was changed'))
    if not r.problems:
        first, last = source.index('int first;'), source.index('int last;')
        spots = [source.index(f'/* FILE {d} */') for d in range(depth)]
        if not all(first < x < last for x in spots):
            r.problems.append(('place', 'a file is not embedded in the place of its request'))
        want = sorted(spots, reverse=shape in (1, 3, 4))
        if spots != want:
            r.problems.append(('nested', f'files are embedded in the order {spots}'))
    if re.search(r'^\s*%include\s*"', source, re.M):
        r.problems.append(('left', 'a request is still in the generated source'))
    r.outcome = [depth, shape, place]
