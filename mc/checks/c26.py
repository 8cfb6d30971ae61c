"""C26: the compiled program offers exactly the metadata of instrument, components and instances.

The metadata of every enumerated instrument is worked out from the statements it was written with; the generated program is compiled and run, and
prints every entry of its table, byte by byte.
"""
import itertools, os
from ..base import Result
from .. import cgen, env

PID = 'C26'
LEVEL = 'model_checking'
ASSUMPTIONS = ['the table is compared as a set: entries of a definition with several instances may be there once or for each',
               'a name with blanks may be offered inside of quotes; names with backslashes or quotes are not part of the menus',
               'line ends of files are those of Python text files (a carriage return is only used in values given by calls)']
BOUND = ('every pair of 21 special characters in a value, for definitions, instances and the instrument; all kinds of names and types with all values; all ways of up to two names being in a definition, '
         'its copy, two instances, a copied instance and the instrument (256 and more); long values; each read from text, after printing and reading, a round through HDF5, copying, and built by calls')
CHUNK = 2
CASE_SECONDS = 300

CHARS = ['"', '\\', '?', '\n', '\r', '\t', '%', '0', '7', 'a', 'n', 'x', '\u00e9', '\x01', '/', '{', '}', "'", ' ', '#', '*']
NAMES = ['name', 'n_1', '"quoted"', '"two words"', '"with-dash.txt"', '"a/b:c"', '"COMPONENT"', '"three words here"', '"100%"', '"%s"']
MIMES = ['text', '"text/plain"', '"application/json"', '"application/vnd.x+json; charset=utf-8"', '"%d"', '"a b"']
VALUES = ['', 'x', '\n', 'line\nline\n', '{"a": [1, "b"]}', '??=??/', '\\n', '"', 'a"b"c', '\\', '\\\\"', '% d %%', '/* c */', '// d', "'", 'caf\u00e9 \u2603', '0', '\t7', '  ', '#define X 1\n#if 0\n']
LEVELS = ['definition', 'instance', 'instrument']
HOWS = ['read', 'printed', 'hdf5', 'copied', 'translated']


def cases(tier):
    q = tier == 'quick'
    for level in LEVELS:
        for how in HOWS:
            for i in range(0, len(CHARS)):
                if how == 'read' or not q or i % 7 == 0:
                    yield ['chars', level, how, i]
            yield ['forms', level, how]
            yield ['long', level, how]
    subsets = [[], ['a'], ['b'], ['a', 'b']] + ([] if q else [['b', 'a']])
    for n, many in enumerate(itertools.product(subsets, repeat=4)):
        yield ['override', list(many), HOWS[n % len(HOWS)]]
    for many in itertools.product([[], ['a'], ['a', 'b']], repeat=3):
        for how in HOWS if not q else HOWS[:2]:
            yield ['copies', list(many), how]
    for how in HOWS:
        yield ['repeat', how]
        yield ['none', how]
    for i in range(len(CHARS)):
        yield ['calls', i]


def bare(text):
    return text[1:-1] if text.startswith('"') else text


def stated(entries):
    return ''.join(f'METADATA {mime} {name} %{{{value}%}}\n' for name, mime, value in entries)


def comp(name, entries, base=None):
    head = f'DEFINE COMPONENT {name}' + (f' COPY {base}' if base else '') + '\n'
    return head + stated(entries) + ('TRACE\n%{\n%}\n' if not base else '') + 'END\n'


FINALLY = r'''FINALLY %{
  for (int i = 0; i < num_metadata; i++) {
    const char *all[4] = {metadata_table[i].source, metadata_table[i].name, metadata_table[i].type, metadata_table[i].value};
    printf("ROW");
    for (int k = 0; k < 4; k++) { printf(" "); for (const unsigned char *c = (const unsigned char *) all[k]; *c; c++) printf("%02x", *c); printf("-"); }
    printf("\n"); }
  if (metadata_table[num_metadata].name[0] == 0 && metadata_table[num_metadata].source[0] == 0) printf("END\n");
%}
END
'''


def instrument(own, instances):
    """instances: (name, type, copy of, entries)"""
    text = 'DEFINE INSTRUMENT meta_i(a=1)\n' + stated(own) + 'TRACE\n'
    for name, typ, copied, entries in instances:
        text += f'COMPONENT {name} = {f"COPY({copied})" if copied else f"{typ}()"} AT (0, 0, 0) ABSOLUTE\n' + stated(entries)
    return text + FINALLY


def rows(own, definitions, instances):
    want = set()
    have = {}
    for name, typ, copied, entries in instances:
        mine = dict(have.get(copied, {}))
        mine.update({bare(n): (bare(m), v) for n, m, v in entries})
        have[name] = mine
        if copied:
            typ = next(t for n, t, _, _ in instances if n == copied)
        everything = {n: (typ, m, v) for n, (m, v) in definitions[typ].items()}
        everything.update({n: (name, m, v) for n, (m, v) in mine.items()})
        want |= {(s, n, m, v) for n, (s, m, v) in everything.items()}
    want |= {('meta_i', n, m, v) for n, (m, v) in {bare(n): (bare(m), v) for n, m, v in own}.items()}
    return want


def latest(entries):
    return {bare(n): (bare(m), v) for n, m, v in entries}


def through(instr, how, tag):
    if how == 'printed':
        with cgen.quiet():
            text = str(instr)
        return cgen.parse(text, [x for x in instr.registries if x.name != 'libc'])
    if how == 'hdf5':
        import h5py
        from mccode_antlr.io import save_hdf5, load_hdf5
        path = env.SCRATCH / 'work' / f'c26-{os.getpid()}.h5'
        try:
            save_hdf5(instr, str(path))
            return load_hdf5(str(path))
        finally:
            path.unlink(missing_ok=True)
    if how == 'copied':
        return instr.copy()
    if how == 'translated':
        cgen.translate(instr)
    return instr


def judge(instr, want, r, shown):
    try:
        exe = cgen.build(cgen.translate(instr))
    except cgen.CompileError as e:
        r.problems.append(('compile', f'{e} for {shown}'))
        return
    code, out = cgen.execute(exe)
    r.traces += 1
    lines = out.split('\n')
    got = []
    for line in lines:
        if line.startswith('ROW '):
            parts = [bytes.fromhex(x[:-1]).decode('utf-8', errors='surrogateescape') for x in line.split(' ')[1:]]
            if ' ' in parts[1] and parts[1][0] == parts[1][-1] == '"':
                parts[1] = parts[1][1:-1]
            got.append(tuple(parts))
    r.states += len(got)
    r.transitions += len(want)
    if code != 0 or 'END' not in lines:
        r.problems.append(('end', f'ended with {code}, or the table is not ended, for {shown}'))
    missing, extra = want - set(got), set(got) - want
    if missing:
        r.problems.append(('missing', f'{sorted(missing)[:4]} but there are {got[:8]} for {shown}'))
    if extra:
        r.problems.append(('extra', f'{sorted(extra)[:4]} instead of {sorted(want)[:8]} for {shown}'))
    r.outcome = sorted(want)[:6] + [len(want)]


def write(level, entries):
    """Put the entries at a level: (definition files, instrument entries, instances, definitions)"""
    defs = {'T': entries if level == 'definition' else []}
    own = entries if level == 'instrument' else []
    inst = [('c', 'T', None, entries if level == 'instance' else [])]
    return defs, own, inst


def run_case(case):
    r = Result(states=0, transitions=0, traces=0)
    what = case[0]
    bases = {}
    if what in ('chars', 'forms', 'long', 'none'):
        if what == 'chars':
            _, level, how, i = case
            entries = [(f'n{j}', 'text', x) for j, x in enumerate([CHARS[i] + c for c in CHARS] + [c + CHARS[i] + c for c in CHARS] + [f'a{CHARS[i]}{c}1' for c in CHARS]) if '%}' not in x and not x.endswith('%') and '\r' not in x]
        elif what == 'forms':
            _, level, how = case
            entries = [(f'{n[:-1]}{j}"' if n[0] == '"' else f'{n}{j}', m, v) for j, (n, m, v) in enumerate(
                [(n, m, v) for n in NAMES for m in MIMES for v in VALUES[:3]] + [(n, 'text', v) for n in NAMES for v in VALUES] + [('k', m, v) for m in MIMES for v in VALUES])]
        elif what == 'long':
            _, level, how = case
            entries = [(f'n{k}', 'text', ''.join(chr(32 + (i * i + i // 7) % 90) for i in range(k)).replace('%}', '')) for k in (100, 509, 4095, 4096, 5000, 70000)] + [('lines', 'text', ''.join(f'line {i}\n' for i in range(3000)))]
            entries = [(n, m, v.rstrip('%')) for n, m, v in entries]
        else:
            level, how, entries = 'definition', case[1], []
        defs, own, inst = write(level, entries)
    elif what == 'override':
        (t, one, two, whole), how = case[1], case[2]
        mk = lambda names, tag: [(n, MIMES[(i + len(tag)) % 3], f'{n} of {tag}') for i, n in enumerate(names)]
        defs = {'T': mk(t, 'T')}
        own = mk(whole, 'instrument')
        inst = [('one', 'T', None, mk(one, 'one')), ('two', 'T', None, mk(two, 'two')), ('three', 'T', None, [])]
    elif what == 'copies':
        (base, copied, instance), how = case[1], case[2]
        mk = lambda names, tag: [(n, MIMES[(i + len(tag)) % 3], f'{n} of {tag}') for i, n in enumerate(names)]
        defs = {'T': mk(base, 'T'), 'Tcopy': mk(copied, 'Tcopy')}
        bases = {'Tcopy': 'T'}
        own = mk(['a'], 'instrument')
        inst = [('one', 'Tcopy', None, mk(instance, 'one')), ('two', 'T', None, mk(['c'], 'two')), ('three', None, 'two', mk(instance, 'three')), ('four', None, 'one', [])]
    elif what == 'repeat':
        how = case[1]
        twice = [('a', 'text', 'first'), ('b', 'text', 'kept'), ('a', '"other"', 'second')]
        defs, own, inst = {'T': twice}, twice, [('c', 'T', None, twice)]
    elif what == 'calls':
        return calls(case, r)
    files = {f'{n}.comp': comp(n, e, bases.get(n)) for n, e in defs.items()}
    reg = cgen.local('c26-' + '-'.join(str(x) for x in case).replace("'", '').replace(' ', '').replace('[', '').replace(']', '.'), files)
    text = instrument(own, inst)
    instr = through(cgen.parse(text, [reg]), how, case)
    definitions = {}
    for n, e in defs.items():
        definitions[n] = dict(definitions[bases[n]]) if n in bases else {}
        definitions[n].update(latest(e))
    judge(instr, rows(own, definitions, inst), r, (files if len(str(files)) < 900 else 'definition') if what != 'long' else what)
    return r


def calls(case, r):
    from mccode_antlr.assembler import Assembler
    from mccode_antlr.common import MetaData
    i = case[1]
    reg = cgen.local('c26-calls', {'T.comp': comp('T', [('a', 'text', 'of T'), ('b', 'text', 'of T')])})
    a = Assembler('meta_i', registries=[reg, cgen.libc()])
    c = a.component('c', 'T', at=(0, 0, 0))
    want = {('T', 'b', 'text', 'of T')}
    for j, x in enumerate([CHARS[i] + k for k in CHARS] + [k + CHARS[i] for k in CHARS]):
        a.metadata(f'n{j}', 'text/plain', x)
        c.add_metadata(MetaData.from_instance_tokens('c', 'text/plain', f'n{j}', x))
        want |= {('meta_i', f'n{j}', 'text/plain', x), ('c', f'n{j}', 'text/plain', x)}
    a.metadata('two words', 'text/plain', 'v')
    a.metadata('again', 'text/plain', 'first')
    a.metadata('again', 'text/plain', 'second')
    c.add_metadata(MetaData.from_instance_tokens('c', 'x/y', 'a', 'of c'))
    want |= {('meta_i', 'two words', 'text/plain', 'v'), ('meta_i', 'again', 'text/plain', 'second'), ('c', 'a', 'x/y', 'of c')}
    a.final(FINALLY.split('%{', 1)[1].rsplit('%}', 1)[0])
    judge(a.instrument, want, r, f'calls {i}')
    return r
