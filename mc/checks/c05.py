"""C05: instrument text -> Instr -> text -> Instr keeps everything the instrument says.

A model description of an instrument is rendered to text by this module, read by the real parser and compared with the
description; the instrument is printed by the real code, read again, compared with the same description, and the second
printing has to be equal to the first one.
"""
import itertools, re
from ..base import Result
from .. import cgen
from ..cexpr import parse as cparse, try_value, close, Malformed

PID = 'C05'
LEVEL = 'model_checking'
ASSUMPTIONS = ['blocks of C code are compared up to leading and trailing blank lines',
               'expressions are compared by their value at four assignments of the identifiers (and textually between the two readings)',
               'dependency flags are compared as sets of space separated words']
BOUND = ('every sequence of three parameters of six kinds, instrument descriptions: every value of every feature menu alone in two surroundings, all pairs of values of two different features, '
         'and (thorough) all triples over the reduced menus of the component modifiers; each rendered, parsed, printed, re-parsed, re-printed; '
         'non-trivial: the description has at least one feature away from its default')
CHUNK = 8

COMP = '''DEFINE COMPONENT %s
SETTING PARAMETERS (double w=1, int n=2, string s="def", vector v=NULL, int *k=NULL, q=0)
%sTRACE
%%{
  x += w;
%%}
END
'''
FILES = {'Gen.comp': COMP % ('Gen', ''), 'Dep.comp': COMP % ('Dep', 'DEPENDENCY "-lz -I/inc"\n'), 'Cpu.comp': COMP % ('Cpu', 'NOACC\n')}
ENVS = [dict(a=0.5, b=-2.0, c=3.0, n=2.0, w=1.5, PI=3.14159265358979, p=0.75, q=-3.0), dict(a=-1.0, b=4.0, c=0.25, n=5.0, w=-2.0, PI=3.14159265358979, p=0.75, q=-3.0),
        dict(a=0.0, b=1.0, c=-3.0, n=1.0, w=7.0, PI=3.14159265358979, p=0.75, q=-3.0), dict(a=2.0, b=2.0, c=2.0, n=-3.0, w=0.0, PI=3.14159265358979, p=0.75, q=-3.0)]
NAMES = sorted(ENVS[0])

NUM = ['1', '-2.5', '1e-6', '0', 'a', '-a', 'a + b', 'a - (b - c)', '2*a', '(a + b)*c', 'a/b/c', 'a*(b/c)', '-(a + b)', 'a - -b', 'sin(a)', 'a > b ? b : c',
       '1e12', '123456789', '0.1', '1.0000000000000002', '-1e-300', 'PI', 'fmod(a, b)', 'a^2', 'a == b', 'a && b', '!a', '3 % n', 'n << 2', '1/3', '1e5*a']
PARS = [[], [('double', 'a', None, None)], [('', 'a', None, '1')], [('', 'a', '"m"', '0.5')], [('int', 'n', None, '-3')], [('int', 'n', '"1"', None)],
        [('string', 's', None, '"some text"')], [('string', 's', None, '""')], [('string', 's', None, None)], [('string', 's', '"file name"', '"a.dat"')],
        [('double', 'a', '"m/s"', '1e-6')], [('', 'a', None, '2*(3 - 5)')], [('', 'a', None, '-1/4.0')], [('int', 'n', None, '1+2')], [('', 'a', None, '0')],
        [('', 'a', None, '1'), ('double', 'b', '"deg"', '2'), ('int', 'n', None, '3'), ('string', 's', None, '"x, y"')],
        [('', 'a', None, '1.0000000000000002')], [('string', 's', None, r'"q \"in\" q"')], [('string', 's', None, r'"back\\slash"')],
        [('', 'a', None, '-3.5')], [('string', 's', None, 'NULL')], [('', 'a', None, '1e12')], [('string', 's', '"a/b"', '"a=b, c)"')]]
KINDS = [('', None, None), ('', None, '2'), ('int', '"m"', None), ('int', None, '3'), ('string', None, None), ('string', '"u"', '"x"')]
PARS += [[(t, n, u, v) for n, (t, u, v) in zip(names, some)] for names in ('bac',) for some in itertools.product(KINDS, repeat=3)]
FLAGS = [None, '-lm', '-I. -lfoo -DX=1', r'-DY=\"z\"', '@NEXUSFLAGS@ -lm', '-Wl,-rpath,/x CMD(echo hi)']
META = [[], [('text', 'one', 'plain')], [('"text/plain"', 'one', '\nline one\n  line two\n')], [('"application/json"', '"two words"', '{"a": [1, 2]}')],
        [('"text/plain"', 'one', ' % { } "quoted" \\n \' ')], [('text', 'one', 'x'), ('"application/json"', '"two"', 'y\n')], [('text', 'one', '  ')],
        [('"a/b"', '"with-dash.txt"', '\tz')], [('text', '"COMPONENT"', 'keyword')]]
BLOCKS = [None, '\n  int i = 0;\n', ' double z; /* a " comment */ ', '\nchar *t = "%d } ";\n// line comment\n\n\nint k;\n', '\n#define X(y) \\\n  (y + 1)\n', '   \n']
WHEN = [None, 'a > 1', '(a > 1 && b < 2)', 'a', '!a', 'a == b || c', 'fabs(a) < 2', 'a + b > c ? a : b', '-a < b']
SPLIT = [None, '', '3', 'n', 'n*2 + 1', '(a > b ? 2 : 3)']
EXTEND = [None, '\n  p *= 2;\n', ' if (SCATTERED) { x = 1; } ']
JUMP = [[], [('first', 'WHEN', 'a > 1')], [('PREVIOUS', 'WHEN', 'a')], [('PREVIOUS(2)', 'ITERATE', '3')], [('NEXT', 'WHEN', 'a < b')], [('NEXT(2)', 'WHEN', '!b')],
        [('MYSELF', 'ITERATE', 'n + 1')], [('first', 'ITERATE', 'n*2'), ('NEXT', 'WHEN', '(a || b)')], [('NEXT_stop', 'WHEN', 'a > b')], [('PREVIOUS_one', 'WHEN', 'b')],
        [('last', 'WHEN', 'a ? b : c')], [('NEXT(2)', 'ITERATE', 'n')], [('NEXT', 'ITERATE', '2')], [('last', 'ITERATE', 'n')], [('MYSELF', 'WHEN', 'a < 0')],
        [('PREVIOUS', 'ITERATE', '3'), ('first', 'WHEN', 'b'), ('NEXT', 'ITERATE', 'n')]]
GROUP = [None, 'g1']
REF = ['ABSOLUTE', 'RELATIVE first', 'RELATIVE PREVIOUS', 'RELATIVE PREVIOUS(2)', 'RELATIVE ABSOLUTE']
PLACE = [(v, r) for r in REF for v in (('0', '0', '0'), ('1', '-2.5', 'a'))] + [((x, '0', '1'), 'ABSOLUTE') for x in NUM]
ROT = [None] + [(v, r) for r in REF for v in (('0', '0', '0'), ('90', 'b', '-45.5'))] + [(('0', x, '0'), 'RELATIVE first') for x in NUM]
VALUE = [[], [('w', '2')], [('n', 'n')], [('s', '"text, (with) stuff"')], [('s', '""')], [('s', 'NULL')], [('v', '{1,2,3}')], [('v', '{a, 2*b, -1}')], [('v', 'NULL')],
         [('k', '{1,-2}')], [('k', 'NULL')], [('v', 'ptr')], [('w', '1'), ('n', '2'), ('s', 'fn'), ('q', 'a + b')], [('s', r'"back\\slash \"q\""')]] + [[('w', x)] for x in NUM]
COPY = [None, 'first', 'PREVIOUS']
FEATURES = dict(pars=PARS, flags=FLAGS, meta=META, declare=BLOCKS, user=BLOCKS, initialize=BLOCKS, save=BLOCKS, final=BLOCKS,
                when=WHEN, split=SPLIT, removable=[False, True], cpu=[False, True], extend=EXTEND, jump=JUMP, group=GROUP, place=PLACE, rot=ROT,
                value=VALUE, cmeta=META, copy=COPY, type=['Gen', 'Dep', 'Cpu'])
# the values which take part in combinations with other features
SMALL = dict(pars=[1, 3, 15], flags=[1, 2], meta=[2, 3], declare=[1, 2], user=[1], initialize=[3], save=[1], final=[2], when=[1, 2, 7], split=[1, 3, 4], removable=[1], cpu=[1],
             extend=[1, 2], jump=[1, 3, 7, 8], group=[1], place=[1, 3, 5, 7, 16], rot=[1, 2, 4, 6, 8], value=[1, 3, 7, 12], cmeta=[2, 3], copy=[1, 2], type=[1, 2])
MODS = ['when', 'split', 'removable', 'cpu', 'extend', 'jump', 'group', 'place', 'rot', 'value', 'cmeta', 'copy']


def cases(tier):
    for f, menu in FEATURES.items():
        for i in range(len(menu)):
            for around in ('plain', 'rich'):
                yield [around, {f: i}]
    for f, g in itertools.combinations(FEATURES, 2):
        fi, gi = (SMALL[f], SMALL[g]) if tier == 'quick' else (range(1, len(FEATURES[f])), range(1, len(FEATURES[g])))
        if tier != 'quick' and len(fi) * len(gi) > 120:
            fi, gi = SMALL[f], (range(1, len(FEATURES[g])) if len(fi) > len(gi) else SMALL[g])
        for i, j in itertools.product(fi, gi):
            yield ['plain', {f: i, g: j}]
    for f, g, h in itertools.combinations(MODS, 3):
        n = 1 if tier == 'quick' else 2
        for i, j, k in itertools.product(SMALL[f][:n], SMALL[g][:n], SMALL[h][:n]):
            yield ['plain', {f: i, g: j, h: k}]


def pick(sel, f):
    return FEATURES[f][sel.get(f, 0)]


def describe(case):
    around, sel = case
    rich = around == 'rich'
    plain = dict(when=None, split=None, removable=False, cpu=False, extend=None, jump=[], group=None, place=(('0', '0', '0'), 'ABSOLUTE'), rot=None, value=[],
                 cmeta=[], copy=None, type='Gen')
    mid = {k: pick(sel, k) for k in plain}
    first = dict(plain, name='first', value=[('w', '4')])
    second = dict(plain, name='PREVIOUS_one', place=(('0', '0', '1'), 'RELATIVE first'), rot=(('0', '30', '0'), 'RELATIVE first'))
    mid['name'] = 'mid'
    last = dict(plain, name='NEXT_stop', place=(('0', '0', '2'), 'RELATIVE mid'))
    end = dict(plain, name='last', place=(('0', '0', '2'), 'RELATIVE PREVIOUS'), type='Dep' if mid['type'] == 'Dep' else 'Gen')
    if mid['group']:
        second['group'] = mid['group']
    d = dict({k: pick(sel, k) for k in ('pars', 'flags', 'meta', 'declare', 'user', 'initialize', 'save', 'final')}, components=[first, second, mid, last, end])
    if rich:
        defaults = dict(pars=PARS[15], flags=FLAGS[2], meta=META[2], declare=BLOCKS[1], user=BLOCKS[1], initialize=BLOCKS[2], save=BLOCKS[1], final=BLOCKS[1])
        for k, v in defaults.items():
            if k not in sel:
                d[k] = v
        last.update(when='a > 2', split='2', extend=EXTEND[1], jump=JUMP[1], value=VALUE[12], cmeta=META[3], removable=True, cpu=True, group='g2')
        end.update(rot=(('1', '2', '3'), 'ABSOLUTE'), group='g2', cmeta=META[1])
    return d


def block_text(name, text):
    return '' if text is None else f'{name} %{{{text}%}}\n'


def meta_text(metas):
    return ''.join(f'METADATA {m} {n} %{{{v}%}}\n' for m, n, v in metas)


def render(d):
    pars = ', '.join(f"{t} {n}{'' if u is None else '/' + u}{'' if v is None else ' = ' + v}".strip() for t, n, u, v in d['pars'])
    out = f"DEFINE INSTRUMENT Name({pars})\n" + meta_text(d['meta'])
    if d['flags'] is not None:
        out += f'DEPENDENCY "{d["flags"]}"\n'
    out += block_text('DECLARE', d['declare']) + block_text('USERVARS', d['user']) + block_text('INITIALIZE', d['initialize']) + 'TRACE\n'
    for c in d['components']:
        out += ('REMOVABLE ' if c['removable'] else '') + ('CPU ' if c['cpu'] else '')
        out += '' if c['split'] is None else f"SPLIT {c['split']} "
        kind = c['type'] if c['copy'] is None else f"COPY({c['copy']})"
        out += f"COMPONENT {c['name']} = {kind}({', '.join(f'{k} = {v}' for k, v in c['value'])})\n"
        out += '' if c['when'] is None else f"WHEN {c['when']}\n"
        out += f"AT ({', '.join(c['place'][0])}) {c['place'][1]}\n"
        out += '' if c['rot'] is None else f"ROTATED ({', '.join(c['rot'][0])}) {c['rot'][1]}\n"
        out += '' if c['group'] is None else f"GROUP {c['group']}\n"
        out += block_text('EXTEND', c['extend'])
        out += ''.join(f'JUMP {t} {k} {e}\n' for t, k, e in c['jump'])
        out += meta_text(c['cmeta'])
    return out + block_text('SAVE', d['save']) + block_text('FINALLY', d['final']) + 'END\n'


# ---- what the description says: leaves are exact values or ('expr', text)
def unq(t):
    return t[1:-1] if t.startswith('"') else t


def block(t):
    return '' if t is None or not t.strip() else t.strip('\n \t')


def param(t, v):
    if v is None or v == 'NULL':
        return v
    return v if t == 'string' else ('expr', v)


def expect(d):
    comps = d['components']
    flags = set((d['flags'] or '').split())
    out = dict(name='Name', params=[(n, t or 'double', u, param(t, v)) for t, n, u, v in d['pars']],
               meta=[(unq(m), unq(n), v) for m, n, v in d['meta']])
    for k in ('declare', 'user', 'initialize', 'save', 'final'):
        out[k] = block(d[k])
    lst = []
    base = {c['name']: c for c in comps}
    for i, c in enumerate(comps):
        def ref(r):
            r = r.replace('RELATIVE ', '')
            if r == 'ABSOLUTE':
                return None
            m = re.fullmatch(r'PREVIOUS(?:\((\d)\))?', r)
            return comps[i - int(m.group(1) or 1)]['name'] if m else r
        e = dict(name=c['name'], removable=c['removable'], cpu=c['cpu'] or c['type'] == 'Cpu', at=[('expr', x) for x in c['place'][0]], atref=ref(c['place'][1]))
        e['rot'], e['rotref'] = ([('expr', '0')] * 3, e['atref']) if c['rot'] is None else ([('expr', x) for x in c['rot'][0]], ref(c['rot'][1]))
        source = None
        if c['copy'] is not None:
            source = base['first'] if c['copy'] == 'first' else comps[i - 1]
        e['type'] = c['type'] if source is None else source['type']
        if source is not None:
            e['cpu'] = c['cpu']
        values = dict(source['value']) if source is not None else {}
        values.update(dict(c['value']))
        e['values'] = {k: v if v.startswith(('"', '{')) or v in ('NULL', 'ptr', 'fn') else ('expr', v) for k, v in values.items()}
        when = c['when'] if source is None or c['when'] is not None else source['when']
        e['when'] = None if when is None else ('expr', when)
        e['split'] = None if c['split'] is None else ('expr', c['split'] or '10')
        e['group'] = c['group'] if source is None or c['group'] is not None else source['group']
        e['extend'] = block(c['extend'])
        js = []
        for t, k, x in c['jump']:
            m = re.fullmatch(r'(PREVIOUS|NEXT|MYSELF)(?:\((\d)\))?', t)
            n = 0 if m is None else int(m.group(2) or 1) * {'PREVIOUS': -1, 'NEXT': 1, 'MYSELF': 0}[m.group(1)]
            js.append((('rel', n) if m else ('name', t), k, ('expr', x)))
        e['jump'] = js
        e['meta'] = [(unq(m), unq(n), v) for m, n, v in c['cmeta']]
        lst.append(e)
        if e['type'] == 'Dep':
            flags |= {'-lz', '-I/inc'}
    out['flags'] = sorted(flags)
    out['components'] = lst
    return out


# ---- what the implementation holds
def observe(instr):
    from mccode_antlr.common import DataType
    names = {DataType.float: 'double', DataType.int: 'int', DataType.str: 'string'}

    def text(x):
        return None if x is None else str(x)

    def pval(v):
        return str(v) if v.is_op or v.has_value else None

    def meta(ms):
        return [(m.mimetype, unq(m.name), m.value) for m in ms]
    out = dict(name=instr.name, params=[(p.name, names.get(p.value.data_type, str(p.value.data_type)), p.unit, pval(p.value)) for p in instr.parameters],
               meta=meta(instr.metadata), flags=sorted({w for f in instr.flags for w in f.split()}))
    for k in ('declare', 'user', 'initialize', 'save', 'final'):
        out[k] = block('\n'.join(b.source for b in getattr(instr, k)))
    lst = []
    for c in instr.components:
        e = dict(name=c.name, type=c.type.name, removable=c.removable, cpu=c.cpu, at=[text(x) for x in c.at_relative[0]], atref=c.at_relative[1] and c.at_relative[1].name,
                 rot=[text(x) for x in c.rotate_relative[0]], rotref=c.rotate_relative[1] and c.rotate_relative[1].name,
                 values={p.name: text(p.value) for p in c.parameters}, when=text(c.when), split=text(c.split), group=c.group,
                 extend=block('\n'.join(b.source for b in c.extend)), meta=meta(c.metadata))
        e['jump'] = [(('rel', j.relative_target) if j.relative_target or j.target == 'MYSELF' else ('name', j.target), 'ITERATE' if j.iterate else 'WHEN', text(j.condition))
                     for j in c.jump]
        lst.append(e)
    out['components'] = lst
    return out


def same_expr(want, got):
    if got is None:
        return False
    try:
        nw, ng = cparse(want), cparse(got)
    except Malformed:
        return want.replace(' ', '') == got.replace(' ', '')
    for env in ENVS:
        a, b = try_value(nw, env), try_value(ng, env)
        if a is not None and (b is None or not close(a, b)):
            return False
    return True


def diff(want, got, path=''):
    if isinstance(want, tuple) and len(want) == 2 and want[0] == 'expr':
        return [] if isinstance(got, str) and same_expr(want[1], got) else [(path, want[1], got)]
    if isinstance(want, dict):
        if not isinstance(got, dict) or set(want) != set(got):
            return [(path, sorted(want), sorted(got) if isinstance(got, dict) else got)]
        return [x for k in want for x in diff(want[k], got[k], f'{path}.{k}')]
    if isinstance(want, (list, tuple)):
        if not isinstance(got, (list, tuple)) or len(want) != len(got):
            return [(path, want, got)]
        return [x for i, (w, g) in enumerate(zip(want, got)) for x in diff(w, g, f'{path}[{i}]')]
    if isinstance(want, str) and isinstance(got, str) and want.startswith('{'):
        return [] if len(want.split(',')) == len(got.split(',')) and all(same_expr(a, b) for a, b in zip(want.strip('{}').split(','), got.strip('{}').split(','))) \
            else [(path, want, got)]
    return [] if want == got else [(path, want, got)]


def field(path):
    return re.sub(r'\[\d+\]', '', path).replace('.components', '').strip('.') or 'whole'


def other_ways(text, regs, seen, r):
    """The same text, read only for its parameters; and from a file, as a McStas or McXtrace instrument"""
    import os
    from mccode_antlr.loader import loader
    from .. import env
    with cgen.quiet():
        pars = loader.parse_mccode_instr_parameters(text)
    r.transitions += 1
    lone = observe(type('Params', (), dict(name='', parameters=pars, metadata=(), flags=(), declare=(), user=(), initialize=(), save=(), final=(), components=())))
    for p, w, g in diff(seen['params'], lone['params']):
        r.problems.append(('parameters-only', f'params{p}: is {w!r}, when reading only the parameters {g!r}'))
    path = os.path.join(env.SCRATCH, f'c05-{os.getpid()}.instr')
    with open(path, 'w') as f:
        f.write(text)
    for which in ('mcstas', 'mcxtrace'):
        for way, made in ((f'parse_{which}_instr', lambda: getattr(loader, f'parse_{which}_instr')(text, list(regs))),
                          (f'load_{which}_instr', lambda: getattr(loader, f'load_{which}_instr')(path, list(regs)))):
            with cgen.quiet():
                instr = made()
            r.transitions += 1
            for p, w, g in diff(seen, observe(instr)):
                r.problems.append((f'loaded:{field(p)}', f'{way}: {p}: is {w!r}, should be {g!r}'))
            if way.startswith('load') and instr.source != path:
                r.problems.append(('loaded:source', f'{way}: source is {instr.source!r}'))
    os.remove(path)


def run_case(case):
    from io import StringIO
    from mccode_antlr.common import TextWrapper
    r = Result(states=1, transitions=0)
    d = describe(case)
    regs = [cgen.local('c05', FILES)]
    want = expect(d)
    first = cgen.parse(render(d), regs)
    seen = observe(first)
    for p, w, g in diff(want, seen):
        r.problems.append((f'read:{field(p)}', f'{p}: the text says {w!r}, the instrument has {g!r}'))
    r.transitions += 1
    if r.problems:
        return r
    texts = [str(first)]
    f = StringIO()
    first.to_file(f, TextWrapper(width=120))
    if f.getvalue() != texts[0]:
        # a different line width must not change the meaning: it is followed like the first text
        texts.append(f.getvalue())
    for t in texts:
        with cgen.quiet() as noise:
            second = cgen.parse(t, regs)
        again = observe(second)
        r.transitions += 1
        bad = diff(want, again)
        for p, w, g in bad:
            r.problems.append((f'reread:{field(p)}', f'{p}: should be {w!r}, after printing and reading {g!r}'))
        if not bad:
            for p, w, g in diff(seen, again):
                r.problems.append((f'changed:{field(p)}', f'{p}: was {w!r}, after printing and reading {g!r}'))
            t2 = str(second)
            r.transitions += 1
            if t2 != t:
                a, b = t.split('\n'), t2.split('\n')
                k = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
                r.problems.append(('fixpoint', f'second printing differs at line {k}: {a[k:k + 2]} became {b[k:k + 2]}'))
    other_ways(render(d), regs, seen, r)
    r.states = 1 + len(want['components'])
    r.nontrivial = bool(case[1])
    r.outcome = texts[0][-300:]
    return r
