"""C18: included files, copies and relative references give the instrument which one file without any of them describes."""
import itertools
from ..base import Result
from .. import cgen
from . import c05

PID = 'C18'
LEVEL = 'model_checking'
ASSUMPTIONS = ['a PREVIOUS reference before the first component may mean ABSOLUTE (as in McStas) or be refused',
               'METADATA of the same name in an instrument and in a file included by it is not judged']
BOUND = ('every sequence of 1 and 2 (thorough: 3, from a smaller menu) components after a first one, each from a menu of names, types (COPY), places, orientations, modifiers and REMOVABLE, '
         'in every arrangement of files included to depth 2 (reduced menus: one more component); every set of up to 3 sections in three files, nested or one after the other, '
         'read from text and from a file; MYSELF and PREVIOUS as values in every arrangement')
T = 'DEFINE COMPONENT T\nSETTING PARAMETERS (double a=1, string s="none", string who="none")\nTRACE\n%{\n%}\nEND\n'
U = 'DEFINE COMPONENT U\nSETTING PARAMETERS (double a=1, string s="none", string who="none")\nDEPENDENCY "-lofU"\nTRACE\n%{\n%}\nEND\n'
NAMES = ['c', 'COPY', 'COPYs']
TYPES = ['T', 'Cs', 'Cs+', 'Cp', 'Cp2', 'Cc']
PLACES = ['abs', 'prev', 'prev2', 'prev3', 's', 'c', 'abs rot prev', 'prev rot s', 's rot abs', 'prev rot prev2', 'abs rot c']
FIRST = dict(values={'a': '2', 's': '"w"'}, when='(flag > 0)', split='3', group='g', extend='flag = 1;', jump=['MYSELF WHEN (flag == 3)'], meta={'info': 'of s'})


def menu(n, t, p, rem):
    return [list(x) for x in itertools.product(n, t, p, rem)]


ALL = menu(NAMES, TYPES, PLACES, [0, 1])
SOME = (menu(['c'], ['T'], PLACES, [0]) + menu(['c'], ['T'], ['abs', 'prev2', 'c'], [1]) + menu(['c'], TYPES[1:], ['prev'], [0]) + menu(['COPY', 'COPYs'], ['Cs', 'T'], ['prev', 'c'], [0])
        + menu(['COPYs', 'c'], ['Cp'], ['prev2'], [0, 1]))
QUICK = (menu(['c'], ['T'], ['prev', 'prev2', 's', 'c', 'abs rot prev', 'prev rot prev2', 'prev rot s'], [0]) + menu(['c'], ['T'], ['abs', 'c'], [1]) + menu(['c'], TYPES[1:], ['prev'], [0])
         + menu(['COPY', 'COPYs'], ['Cs'], ['prev', 'c'], [0]) + menu(['COPYs'], ['Cp'], ['prev2'], [0, 1]))
FEW = [['c', 'T', 'prev', 0], ['c', 'T', 'abs', 1], ['COPYs', 'Cp', 'prev2', 0], ['c', 'Cc', 'c', 0], ['COPY', 'T', 'abs rot prev', 0]]
SECTIONS = [('params', ['double p=1', 'double p=2, int q=3', 'string t="x", double p']), ('flags', ['-lone', '-ltwo -lone']), ('meta', ['m']), ('comp', ['T', 'U']),
            ('declare', ['d']), ('user', ['u']), ('initialize', ['i']), ('save', ['s']), ('final', ['f'])]


def arrangements(n):
    """Depths of the n components after the first, and where one include ends and the next begins"""
    for first in (0, 1):
        for depths in itertools.product((0, 1, 2), repeat=n):
            d = (first,) + depths
            places = [k for k in range(1, n + 1) if d[k] and d[k - 1]]
            for cut in itertools.product((0, 1), repeat=len(places)):
                yield list(d), [k for k, c in zip(places, cut) if c]


def cases(tier):
    q = tier == 'quick'
    for n, m in ((1, ALL), (2, QUICK)) if q else ((1, ALL), (2, None)):
        if n == 2 and not q:
            m = menu(['c', 'COPYs'], TYPES, PLACES[:2] + PLACES[3:7] + PLACES[8:10], [0, 1])
        for d, cut in arrangements(n):
            if n == 2 and not q and (d[0] or cut):
                m2 = SOME
            else:
                m2 = m
            for slots in itertools.product(m2, repeat=n):
                yield ['tree', d, cut, [list(s) for s in slots]]
    for d, cut in arrangements(3):
        for slots in itertools.product(FEW[:4] if q else FEW + [['c', 'Cs+', 's', 0], ['c', 'T', 'prev3', 0], ['COPYs', 'Cp2', 'prev rot prev2', 1]], repeat=3):
            yield ['tree', d, cut, [list(s) for s in slots]]
    items = [(f, k, v) for f in range(3) for k, vs in SECTIONS for v in range(len(vs))]
    for n in range(0, 4):
        for some in itertools.combinations(items, n):
            if len({(f, k) for f, k, v in some}) == n:
                for nested in ((0, 1) if n < 3 or not q else (n % 2,)):
                    yield ['sections', nested, [list(x) for x in some]]
    for d, cut in arrangements(2):
        for words in itertools.product(['MYSELF', 'PREVIOUS', ''], repeat=4):
            for copy in (0, 1):
                for rem in (0, 1)[:1 if q and copy else 2]:
                    yield ['words', d, cut, list(words), copy, rem]


# ---- the model: files with components and includes

class Broken(Exception):
    pass


class Unsure(Exception):
    pass


def component(i, spec):
    """The statement for the ith component after the first, as text and as data"""
    name, kind, place, rem = spec
    prior = f'c{i - 1}' if i > 1 else 's'
    refs = {'abs': None, 'prev': ('prev', 1), 'prev2': ('prev', 2), 'prev3': ('prev', 3), 's': ('name', 's'), 'c': ('name', prior)}
    at, _, rot = place.partition(' rot ')
    c = dict(auto=None if name == 'c' else {'COPY': 'Comp', 'COPYs': 's'}[name], name=f'c{i}' if name == 'c' else None, removable=bool(rem),
             at=refs[at], rot=refs[rot] if rot else 'at', copy={'T': None, 'Cs': ('name', 's'), 'Cs+': ('name', 's'), 'Cp': ('prev', 1), 'Cp2': ('prev', 2), 'Cc': ('name', prior)}[kind],
             type='T', own=dict(values={'a': str(10 + i)}), x=i)
    if kind == 'Cs+':
        c['own'] = dict(values={'a': str(10 + i), 'who': '"you"'}, when='(flag > 7)', split='4', group='h', extend='flag = 9;', jump=['s ITERATE flag'], meta={'info': 'other', 'more': 'things'})
    return c


def ref_text(r):
    return 'ABSOLUTE' if r is None else 'RELATIVE ' + named(r)


def named(r):
    return r[1] if r[0] == 'name' else 'PREVIOUS' if r[1] == 1 else f'PREVIOUS({r[1]})'


def statement(c):
    own = c['own']
    out = 'REMOVABLE ' if c['removable'] else ''
    if own.get('split'):
        out += f"SPLIT {own['split']} "
    kind = f"COPY({named(c['copy'])})" if c['copy'] else c['type']
    name = c['name'] or {'Comp': 'COPY', 's': 'COPY(s)'}[c['auto']]
    out += f"COMPONENT {name} = {kind}({', '.join(f'{k}={v}' for k, v in own['values'].items())})"
    if own.get('when'):
        out += f" WHEN {own['when']}"
    out += f"\nAT (0.5, {c['x']}, 1) {ref_text(c['at'])}"
    if c['rot'] != 'at':
        out += f"\nROTATED (0, {20 + c['x']}, 5) {ref_text(c['rot'])}"
    if own.get('group'):
        out += f"\nGROUP {own['group']}"
    if own.get('extend'):
        out += f"\nEXTEND %{{\n{own['extend']}\n%}}"
    for j in own.get('jump', []):
        out += f'\nJUMP {j}'
    for k, v in own.get('meta', {}).items():
        out += f'\nMETADATA "text/plain" {k} %{{\n{v}\n%}}'
    return out + '\n'


def build(depths, cut, comps):
    """The tree of files: a list of components and lists"""
    root = []
    stack = [root]
    for k, (d, c) in enumerate(zip(depths, comps)):
        if k in cut:
            del stack[1:]
        del stack[d + 1:]
        while len(stack) < d + 1:
            new = []
            stack[-1].append(new)
            stack.append(new)
        stack[-1].append(c)
    return root


def flatten(tree, inside=False, out=None):
    """What the instrument consists of: names, references and values resolved"""
    out = [] if out is None else out

    def find(r, what):
        if r is None:
            return None
        if r[0] == 'prev':
            if r[1] > len(out):
                if what == 'copy':
                    raise Broken
                raise Unsure
            return out[-r[1]]
        for o in out:
            if o['name'] == r[1]:
                return o
        raise Broken
    for c in tree:
        if isinstance(c, list):
            flatten(c, True, out)
            continue
        try:
            at = find(c['at'], 'at')
            rot = at if c['rot'] == 'at' else find(c['rot'], 'rot')
            src = find(c['copy'], 'copy') if c['copy'] else None
        except Broken:
            if inside and c['removable']:
                raise Unsure       # a removed component with a broken reference
            raise
        here = dict(name=c['name'] or f"{c['auto']}_{len(out) + 1}", at=at, rot=rot, plain=c['rot'] == 'at', x=c['x'], removable=c['removable'], type=src['type'] if src else c['type'])
        own = c['own']
        base = src['own'] if src else {}
        here['own'] = {k: own.get(k) or base.get(k) for k in ('when', 'group', 'extend', 'jump')}
        here['own']['split'] = own.get('split')
        for k in ('values', 'meta'):
            here['own'][k] = {**base.get(k, {}), **own.get(k, {})}
        if any(o['name'] == here['name'] for o in out) and not (inside and c['removable']):
            raise Broken
        if not (inside and c['removable']):
            out.append(here)
    return out


def plain(flat):
    """The same components without any reference which is not a name, or COPY"""
    out = ''
    for c in flat:
        def name(o):
            return ('name', o['name']) if o else None
        s = dict(c, at=name(c['at']), rot='at' if c['plain'] else name(c['rot']), copy=None, own={k: v for k, v in c['own'].items() if v}, auto=None)
        s['own'].setdefault('values', {})
        out += statement(s)
    return out


def files(tree, texts, sections=lambda k: ('', '', ''), number=None):
    """The text of the file and of all it includes; sections(file number) are its parameters, the text before TRACE and after"""
    number = [0] if number is None else number
    me = number[0]
    number[0] += 1
    body = ''
    for c in tree:
        if isinstance(c, list):
            child = files(c, texts, sections, number)
            body += f'%include "{child}"\n'
        else:
            body += statement(c)
    par, before, after = sections(me)
    name = 'whole' if me == 0 else f'part{me}'
    texts[f'{name}.instr'] = f'DEFINE INSTRUMENT {name}({par})\n{before}TRACE\n{body}{after}END\n'
    return f'{name}.instr'


def registry(texts):
    from mccode_antlr.reader.registry import InMemoryRegistry
    r = InMemoryRegistry('c18')
    for k, v in {'T.comp': T, 'U.comp': U, **texts}.items():
        r.add(k, v)
    return r


def meaning(instr):
    out = c05.observe(instr)
    for c, i in zip(out['components'], instr.components):
        c['place'] = [str(x) for x in (*i.orientation.position(), *i.orientation.rotation())]
        for what, ref in (('at', i.at_relative[1]), ('rotate', i.rotate_relative[1])):
            # references are to the components of this instrument
            c[f'{what} reference'] = None if ref is None else [n for n, x in enumerate(instr.components) if x is ref]
    out['groups'] = {g.name: (list(g.ids), [m.name for m in g.members]) for g in instr.groups.values()}
    return out


def same(r, key, want, got, text):
    for p, w, g in c05.diff(want, got):
        r.problems.append((f'{key}:{c05.field(p)}', f'{p}: should be {w!r}, is {g!r} in\n{text}'))


def run_case(case):
    r = Result(states=1, transitions=0)
    globals()['_' + case[0]](case[1:], r)
    return r


def read(texts):
    return cgen.parse(texts['whole.instr'], [registry({k: v for k, v in texts.items() if k != 'whole.instr'})])


def first(where=None):
    return dict(name='s', auto=None, removable=False, at=None, rot='at', copy=None, type='T', own=FIRST if where is None else where, x=0)


def shown(texts):
    return '\n'.join(f'--- {k}\n{v}' for k, v in texts.items())


def judge(tree, r, coded=False):
    texts = {}
    files(tree, texts)
    try:
        flat = flatten(tree)
    except Broken:
        flat = None
    except Unsure:
        return
    r.transitions += len(texts)
    try:
        got = read(texts)
    except Exception as e:
        if flat is None:
            r.outcome = 'refused'
            return
        r.problems.append((f'raises:{type(e).__name__}', f'{e!r} reading\n{shown(texts)}'))
        return
    if flat is None:
        r.problems.append(('accepted', f'a reference to no component, or a repeated name, is accepted in\n{shown(texts)}'))
        return
    text = f'DEFINE INSTRUMENT whole()\nTRACE\n{plain(flat)}END\n'
    want = cgen.parse(text, [registry({})])
    same(r, 'differs', meaning(want), meaning(got), shown(texts))
    r.states = len(flat)
    r.outcome = plain(flat)
    if coded and not r.problems:
        # the jumps and groups of copies are their own
        from .c19 import same_code
        same_code(r, 'coded', got, want, shown(texts))


def _tree(args, r):
    depths, cut, slots = args
    judge(build(depths, cut, [first()] + [component(i + 1, s) for i, s in enumerate(slots)]), r, len(slots) == 1 and slots[0][2] in ('prev', 'c', 'abs rot c'))


def _words(args, r):
    depths, cut, words, copy, rem = args
    comps = [first(dict(values={'a': '2'})), component(1, ['c', 'T', 'prev', rem]), component(2, ['c', 'Cp' if copy else 'T', 'prev', 0])]
    for c, pair in zip(comps[1:], (words[:2], words[2:])):
        for k, w in zip(('s', 'who'), pair):
            if w:
                c['own']['values'][k] = w
    # what the words stand for
    tree = build(depths, cut, comps)
    texts = {}
    files(tree, texts)
    names = []

    def resolve(t, inside):
        for c in t:
            if isinstance(c, list):
                resolve(c, True)
            else:
                for k, v in c['own']['values'].items():
                    if v in ('MYSELF', 'PREVIOUS'):
                        c['own']['values'][k] = f'"{c["name"] if v == "MYSELF" else names[-1]}"'
                if not (inside and c['removable']):
                    names.append(c['name'])
    resolve(tree, False)
    flat = flatten(tree)
    r.transitions += len(texts)
    try:
        got = read(texts)
    except Exception as e:
        r.problems.append((f'word raises:{type(e).__name__}', f'{e!r} reading\n{shown(texts)}'))
        return
    want = cgen.parse(f'DEFINE INSTRUMENT whole()\nTRACE\n{plain(flat)}END\n', [registry({})])
    same(r, 'words', meaning(want), meaning(got), shown(texts))
    r.states = len(flat)
    r.outcome = plain(flat)


def _sections(args, r):
    nested, some = args
    has = {(f, k): v for f, k, v in some}
    kinds = dict(SECTIONS)

    def comp(f):
        c = component(f + 1, ['c', 'T', 'prev' if f else 'abs', 0])
        if (f, 'comp') in has:
            c['type'] = kinds['comp'][has[f, 'comp']]
        return c
    # file 0 has a component before and after its includes
    last = component(4, ['c', 'T', 'abs', 0])
    tree = [comp(0), [comp(1), [comp(2)]], last] if nested else [comp(0), [comp(1)], [comp(2)], last]
    blocks = dict(declare=('DECLARE', 'double d{};'), user=('USERVARS', 'double u{};'), initialize=('INITIALIZE', 'd = {};'), save=('SAVE', 's({});'), final=('FINALLY', 'f({});'))

    def block(f, k):
        return f'{blocks[k][0]} %{{\n{blocks[k][1].format(f)}\n%}}\n' if (f, k) in has else ''

    def sections(f):
        before = ''
        if (f, 'meta') in has:
            before += f'METADATA "text/plain" m{f} %{{\nof {f}\n%}}\n'
        if (f, 'flags') in has:
            before += f'DEPENDENCY "{kinds["flags"][has[f, "flags"]]} -lf{f}"\n'
        before += block(f, 'declare') + block(f, 'user') + block(f, 'initialize')
        return kinds['params'][has[f, 'params']] if (f, 'params') in has else '', before, block(f, 'save') + block(f, 'final')
    texts = {}
    files(tree, texts, sections)
    # all in one file: what is said first counts for parameters, blocks follow each other as they are read
    params, seen = [], set()
    for f in range(3):
        for p in (sections(f)[0].split(', ') if sections(f)[0] else []):
            n = p.split('=')[0].split()[-1]
            if n not in seen:
                seen.add(n)
                params.append(p)
    before = ''.join(f'METADATA "text/plain" m{f} %{{\nof {f}\n%}}\n' for f in range(3) if (f, 'meta') in has)
    flags = ' '.join(f'{kinds["flags"][has[f, "flags"]]} -lf{f}' for f in range(3) if (f, 'flags') in has)
    if flags:
        before += f'DEPENDENCY "{flags}"\n'

    def joined(k, order):
        b = [blocks[k][1].format(f) for f in order if (f, k) in has]
        return f'{blocks[k][0]} %{{\n' + '\n'.join(b) + '\n%}\n' if b else ''
    after = [2, 1, 0] if nested else [1, 2, 0]
    text = (f'DEFINE INSTRUMENT whole({", ".join(params)})\n{before}' + ''.join(joined(k, [0, 1, 2]) for k in ('declare', 'user', 'initialize'))
            + f'TRACE\n{plain(flatten(tree))}' + ''.join(joined(k, after) for k in ('save', 'final')) + 'END\n')
    want = meaning(cgen.parse(text, [registry({})]))
    for entry in ('text', 'file'):
        r.transitions += 1
        try:
            got = read(texts) if entry == 'text' else from_file(texts)
        except Exception as e:
            r.problems.append((f'{entry} raises:{type(e).__name__}', f'{e!r} reading\n{shown(texts)}'))
            continue
        got = meaning(got)
        for k in ('declare', 'user', 'initialize', 'save', 'final'):
            for o in (want, got):
                o[k] = [line.strip() for line in (o[k] if isinstance(o[k], list) else (o[k] or '').split('\n')) if line.strip()]
        same(r, entry, want, got, shown(texts))
    r.states = 3
    r.nontrivial = bool(some)
    r.outcome = text


def from_file(texts):
    """Through a reader, as for any file of a registry"""
    from mccode_antlr.reader import Reader
    with cgen.quiet():
        return Reader(registries=[registry(texts), cgen.libc()]).get_instrument('whole.instr')
