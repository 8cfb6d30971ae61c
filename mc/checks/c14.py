"""C14: monitor files are read, printed and combined bin by bin, without losing or mixing what they hold."""
import itertools, os, re, shutil, math
from pathlib import Path
from ..base import Result
from .. import env

PID = 'C14'
LEVEL = 'model_checking'
ASSUMPTIONS = ['the statistics and signal entries of combined files are not judged; intensities and counts add up, and errors in quadrature',
               'file headers have the entries McCode writes, in its order']
BOUND = ('monitor files of 0, 1 and 2 dimensions with 1 to 6 (thorough: 8) bins in each and 3 to 6 variables, times values and headers from menus; '
         'every sequence of 2 and 3 (thorough: 4) files which differ in one entry of a menu each, in every grouping')
NUMBERS = [1.0, 0.0, 2.5, 1e-300, 3e20, -4.25, 0.1, 7.0, 1 / 3, 123456789.0, 5e-324, 11.0, 13.0]
LIMITS = [(0.0, 10.0), (-1.5, 1.5), (5.0, 6.0), (0.0, 1e6)]
PARAMS = [{}, {'a': '1'}, {'E_i': '5.0', 'name': 'x=y:z', 'tag': '#3'}, {'Ncount': '3', 'Seed': '1', 'values': '2', 'Date': 'd', 'signal': 's', 'filename': 'f.dat'}]
TITLES = ['Plain', 'with: colon', 'hash #', 'equal = sign', '# begins', 'Parameter scan', '']
LABELS = [('Wavelength [AA]', 'Wavelength', 'AA'), ('Time-of-flight [\\gms]', 'Time-of-flight', 'microseconds'), ('Energy transfer [meV]', 'Energy transfer', 'meV'), ('Index', 'Index', '')]
VARIANTS = ['same', 'seed', 'seed part', 'directory', 'directory part', 'date', 'ncount', 'numbers', 'statistics', 'file',
            'parameter', 'one parameter more', 'component', 'label', 'limits', 'bins', 'variables', 'dimension', 'title']
REFUSED = {'parameter', 'one parameter more', 'component', 'label', 'limits', 'bins', 'variables', 'dimension', 'title'}


def cases(tier):
    q = tier == 'quick'
    n = 6 if q else 8
    for nv in (3, 4):
        yield ['read', 0, 1, 1, nv, 0, 0, 0, 0]
    for nx in range(1, n + 1):
        for nv in (4, 5, 6):
            for ny in range(0, n + 1):
                for lim in range(len(LIMITS)):
                    for k in range(2 if q else 5):
                        if nv > 4 and ny:
                            continue
                        yield ['read', 2 if ny else 1, nx, ny, nv, lim, k, (nx + ny + k) % len(PARAMS), (nx + lim) % len(TITLES)]
    for ndim in range(3):
        for p in range(len(PARAMS)):
            for t in range(len(TITLES)):
                for lab in range(len(LABELS)):
                    yield ['read', ndim, 1 if ndim == 0 else 3, 2, 3 if ndim == 0 else 4, lab, 1, p, t]
    for ndim in range(3):
        for shape in ((1, 1), (3, 2), (4, 3), (4, 1), (1, 4)) if ndim else ((1, 1),):
            for length in (2, 3) if q else (2, 3, 4):
                menu = range(len(VARIANTS)) if length < 4 else range(10)
                for v in itertools.product(menu, repeat=length):
                    if length == 3 and shape not in ((1, 1), (4, 3)) and q and sum(v) % 5:
                        continue
                    if v[0] in [VARIANTS.index(x) for x in REFUSED] and length > 2:
                        continue
                    yield ['combine', ndim, *shape, list(v)]


def run_case(case):
    r = Result(states=1, transitions=0)
    globals()['_' + case[0]](case[1:], r)
    return r


def folder():
    f = env.SCRATCH / 'c14' / str(os.getpid())
    f.mkdir(parents=True, exist_ok=True)
    return f


def monitor(ndim, nx, ny, nv, limits=(0.0, 10.0), numbers=0, params=None, title='Plain', label='Wavelength [AA]', names=None, **other):
    """The header and the data of a monitor: {variable: nested list}"""
    head = dict(Format='McCode with text headers', URL='http://www.mccode.org', Creator='McStas 3.5.1', Instrument='test.instr', Ncount='1000', Trace='no', Gravitation='no', Seed='11', Directory='out/1')
    names = list(names or (['L', 'I', 'I_err', 'N'] if ndim == 1 else ['I', 'I_err', 'N']))
    while len(names) < nv:
        names.insert(1, f'x{len(names)}')
    lo, hi = limits
    w = (hi - lo) / nx
    pick = lambda k: NUMBERS[(k * (1 + 2 * numbers) + numbers) % len(NUMBERS)]
    count = lambda k: float((k * 3 + numbers) % 7)
    data = {}
    for j, n in enumerate(names):
        f = count if n == names[-1] else ((lambda i: lo + (i + .5) * w) if n == 'L' else (lambda i, j=j: abs(pick(i + j)) if j == len(names) - 2 else pick(i + j)))
        data[n] = f(0) if ndim == 0 else [f(i) for i in range(nx)] if ndim == 1 else [[f(i + nx * y) for i in range(nx)] for y in range(ny)]
    tail = {'Date': 'Mon Jan  1 10:11:12 2024', 'type': ['array_0d', f'array_1d({nx})', f'array_2d({nx}, {ny})'][ndim], 'Source': 'test (test.instr)', 'component': 'det', 'position': '0 0 1', 'title': title,
            'Ncount': '1000', 'filename': 'det.dat', 'statistics': 'X0=1; dX=2;' if ndim else 'None', 'signal': 'Min=0; Max=1; Mean=0.5;', 'values': f'{2.5 + numbers} {0.5 + numbers} {10 + numbers}'}
    if ndim == 0:
        tail.update(yvar='(I,I_err)', ylabel='Intensity', xlimits='0 0')
    if ndim == 1:
        tail.update(xvar='L', yvar='(I,I_err)', xlabel=label, ylabel='Intensity', xlimits=f'{lo} {hi}')
    if ndim == 2:
        tail.update(xvar='x', yvar='y', xlabel=label, ylabel='Y position [cm]', zvar='I', zlabel='Signal per bin', xylimits=f'{lo} {hi} {-hi} {lo - 1}')
    tail['variables'] = ' '.join(names)
    for k, v in other.items():
        if k in head:
            head[k] = v
        if k in tail:
            tail[k] = v
    return dict(ndim=ndim, nx=nx, ny=ny, head=head, tail=tail, params=dict(params or {}), names=names, data=data, limits=limits)


def text(m):
    out = [f'# {k}: {v}' for k, v in m['head'].items()] + [f'# Param: {k}={v}' for k, v in m['params'].items()] + [f'# {k}: {v}' for k, v in m['tail'].items()]
    names, data = m['names'], m['data']
    g = lambda x: repr(float(x))
    if m['ndim'] == 0:
        out.append(' '.join(g(data[n]) for n in names))
    elif m['ndim'] == 1:
        out += [' '.join(g(data[n][i]) for n in names) + ' ' for i in range(m['nx'])]
    else:
        for n, what in zip(names, ('Data', 'Errors', 'Events')):
            out.append(f'# {what} [{m["tail"]["component"]}/{m["tail"]["filename"]}] {n}:')
            out += [' '.join(g(x) for x in row) + ' ' for row in data[n]]
    return '\n'.join(out) + '\n'


def flat(x):
    return [z for y in x for z in flat(y)] if isinstance(x, (list, tuple)) else [float(x)]


def expected_meta(m):
    return {**m['head'], **m['tail']}


def judge(r, what, got, names, data, params, meta, ndim, shape, exact=True):
    r.transitions += 1
    if list(got.variables) != names:
        r.problems.append(('variables', f'{what}: variables are {got.variables}'))
    if tuple(got.data.shape) != shape:
        r.problems.append(('shape', f'{what}: shape is {got.data.shape}, should be {shape}'))
        return
    for n in names:
        have, want = flat(got[n].tolist() if hasattr(got[n], 'tolist') else got[n]), flat(data[n])
        if len(have) != len(want) or not all(h == w or (not exact and math.isclose(h, w, rel_tol=1e-12)) for h, w in zip(have, want)):
            r.problems.append(('data', f'{what}: {n} is {have[:8]}, should be {want[:8]}'))
    if dict(got.parameters) != params or list(got.parameters) != list(params):
        r.problems.append(('parameters', f'{what}: parameters are {got.parameters}, should be {params}'))
    for k, v in meta.items():
        if str(got.metadata.get(k)) != v:
            r.problems.append(('entry', f'{what}: {k} is {got.metadata.get(k)!r}, should be {v!r}'))


def judge_text(r, what, printed, m):
    """The printed file, read independently: every block of an image follows the line which names it"""
    rows, label, blocks = [], None, []
    for line in printed.split('\n'):
        found = re.fullmatch(r'# (Data|Errors|Events) \[(.*)/(.*)\] (.*):\s*', line)
        if found:
            label = found.groups()
        elif line.strip() and not line.startswith('#'):
            rows.append([float(x) for x in line.split()])
            blocks.append(label)
    names, data = m['names'], m['data']
    if m['ndim'] == 2:
        want = [row for n in names for row in data[n]]
        marks = [(w, m['tail']['component'], m['tail']['filename'], n) for w, n in zip(('Data', 'Errors', 'Events'), names) for _ in range(m['ny'])]
        if blocks != marks:
            r.problems.append(('blocks', f'{what}: blocks are {blocks}, should be {marks}'))
    else:
        want = [[data[n] for n in names]] if m['ndim'] == 0 else [[data[n][i] for n in names] for i in range(m['nx'])]
    if rows != want:
        r.problems.append(('printed', f'{what}: printed {rows[:4]}, should be {want[:4]}'))


def _read(args, r):
    from mccode_antlr.loader import read_mccode_dat, write_combined_mccode_dats
    ndim, nx, ny, nv, lim, k, p, t = args
    m = monitor(ndim, nx, ny, 3 if ndim == 2 else nv, LIMITS[lim % len(LIMITS)], k, PARAMS[p], TITLES[t], LABELS[lim % len(LABELS)][0], ['p', 'p2', 'N'] if ndim != 1 and (p + k) % 2 else None)
    f, g = folder() / 'one.dat', folder() / 'two.dat'
    f.write_text(text(m))
    g.unlink(missing_ok=True)
    shape = [(len(m['names']),), (len(m['names']), nx), (3, ny, nx)][ndim]
    for source in (f, str(f)):
        one = read_mccode_dat(source)
        judge(r, f'read {args}', one, m['names'], m['data'], m['params'], expected_meta(m), ndim, shape)
    for key, v in m['params'].items():
        if key not in m['names'] and one[key] != v:
            r.problems.append(('item', f'{args}: [{key}] is {one[key]}'))
    try:
        one['no such thing']
        r.problems.append(('item', f'{args}: has no such thing'))
    except KeyError:
        pass
    dims = one.dim_metadata()
    if len(dims) != ndim:
        r.problems.append(('dimensions', f'{args}: {dims}'))
    elif ndim:
        lo, hi = m['limits']
        ranges = [(lo, hi, nx)] + ([(-hi, lo - 1, ny)] if ndim == 2 else [])
        for d, (a, b, n) in zip(dims, ranges):
            edges = list(d['bin_boundaries'])
            if len(edges) != n + 1 or not all(math.isclose(e, a + i * (b - a) / n, rel_tol=1e-9, abs_tol=1e-9 * abs(b - a)) for i, e in enumerate(edges)):
                r.problems.append(('boundaries', f'{args}: boundaries of {n} bins from {a} to {b} are {edges[:6]}'))
        lab = LABELS[lim % len(LABELS)]
        if (dims[0]['label'], dims[0]['unit']) != lab[1:]:
            r.problems.append(('label', f'{args}: {dims[0]["label"]}, {dims[0]["unit"]} for {lab}'))
    one.to_filename(g)
    judge(r, f'print {args}', read_mccode_dat(g), m['names'], m['data'], m['params'], expected_meta(m), ndim, shape)
    before = g.read_text()
    judge_text(r, f'print {args}', before, m)
    try:
        one.to_filename(str(g))
        r.problems.append(('overwritten', f'{args}: an existing file was overwritten'))
    except RuntimeError:
        pass
    if g.read_text() != before:
        r.problems.append(('overwritten', f'{args}: an existing file was changed'))
    g.unlink()
    write_combined_mccode_dats([f], g)
    if g.read_text() != before:
        r.problems.append(('one', f'{args}: combining one file changes it'))
    r.outcome = [ndim, nx == nv]


def variant(v, k, ndim, nx, ny):
    kind = VARIANTS[v]
    base = dict(params={'a': '1', 'Seed_x': '5'}, numbers=k)
    shape = [ndim, nx, ny, 3 if ndim != 1 else 4]
    change = {'seed': dict(Seed='7'), 'seed part': dict(Seed='1'), 'directory': dict(Directory='other/place'), 'directory part': dict(Directory='out'), 'date': dict(Date='Tue Jan  2 10:11:12 2024'), 'ncount': dict(Ncount='77'),
              'numbers': dict(numbers=k + 3), 'statistics': dict(statistics='X0=9; dX=8;', signal='Min=9; Max=9; Mean=9;'), 'file': dict(filename='det.dat' if ndim == 2 else 'det_2.dat'), 'parameter': dict(params={'a': '2', 'Seed_x': '5'}),
              'one parameter more': dict(params={'a': '1', 'Seed_x': '5', 'b': '1'}), 'component': dict(component='other'), 'title': dict(title='other'),
              'label': dict(ylabel='Other [1]'), 'limits': dict(xlimits='0 11', xylimits='0 11 0 1')}.get(kind, {})
    if kind == 'bins':
        shape[1] += 1
        shape[0] = max(1, shape[0])
        shape[3] = 4 if shape[0] == 1 else 3
    if kind == 'variables':
        if ndim == 2:
            return variant(VARIANTS.index('title'), k, ndim, nx, ny)
        shape[3] += 1
    if kind == 'dimension':
        shape[0] = (shape[0] + 1) % 3
        shape[1] = 1 if shape[0] == 0 else shape[1]
        shape[3] = 4 if shape[0] == 1 else 3
    return monitor(*shape, **{**base, **change})


def add(ms):
    """The expected data of the sum, fold from the left"""
    out = {}
    last = ms[0]['names'][-3:]
    for n in ms[0]['names']:
        cols = [flat(m['data'][n]) for m in ms]
        if n == last[1]:
            out[n] = [math.hypot(*c) for c in zip(*cols)]
        elif n in last:
            out[n] = [math.fsum(c) for c in zip(*cols)]
        else:
            out[n] = cols[0]
    return out


def groupings(items):
    """All ways to put parentheses"""
    if len(items) == 1:
        yield items[0]
        return
    for k in range(1, len(items)):
        for a in groupings(items[:k]):
            for b in groupings(items[k:]):
                yield (a, b)


def fold(tree):
    return fold(tree[0]) + fold(tree[1]) if isinstance(tree, tuple) else tree


def _combine(args, r):
    from mccode_antlr.loader import read_mccode_dat, write_combined_mccode_dats
    from mccode_antlr.loader.datfile import combine_mccode_dats
    ndim, nx, ny, variants = args
    base = [VARIANTS.index('numbers'), VARIANTS.index('same')]
    ms = [variant(v, i, ndim, nx, ny) for i, v in enumerate(variants)]
    files = []
    for i, m in enumerate(ms):
        f = folder() / f'in{i}.dat'
        f.write_text(text(m))
        files.append(f)
    out = folder() / 'sum.dat'
    out.unlink(missing_ok=True)
    what = f'{ndim}d {nx}x{ny} {[VARIANTS[v] for v in variants]}'
    same = lambda a, b: a['names'] == b['names'] and a['params'] == b['params'] and all(a['tail'].get(k) == b['tail'].get(k) for k in ('type', 'component', 'title', 'xlabel', 'ylabel', 'xlimits', 'xylimits', 'position'))
    fits = all(same(ms[0], m) for m in ms)
    dats = [read_mccode_dat(f) for f in files]
    try:
        total = combine_mccode_dats(dats)
    except RuntimeError as e:
        r.transitions += 1
        if fits:
            r.problems.append(('refused', f'{what}: {e}'))
        try:
            write_combined_mccode_dats(files, out)
            r.problems.append(('accepted', f'{what}: written'))
        except RuntimeError:
            pass
        if out.exists():
            r.problems.append(('partial', f'{what}: a file was written'))
        r.outcome = ['refused', ndim]
        return
    if not fits:
        r.problems.append(('accepted', f'{what}: files which do not belong together were combined'))
        return
    for f, d, m in zip(files, dats, ms):
        judge(r, f'{what}: after combining', d, m['names'], m['data'], m['params'], expected_meta(m), ndim, tuple(d.data.shape))
    data = add(ms)
    meta = expected_meta(ms[0])
    meta['Ncount'] = str(sum(int(m['tail']['Ncount']) for m in ms))
    for k in ('Directory', 'Seed', 'Date', 'filename'):
        meta[k] = ' '.join(dict.fromkeys(expected_meta(m)[k] for m in ms))
    for k in ('statistics', 'signal', 'values'):
        meta.pop(k, None)
    ndim, nx, ny = (ms[0][k] for k in ('ndim', 'nx', 'ny'))
    shape = [(len(ms[0]['names']),), (len(ms[0]['names']), nx), (3, ny, nx)][ndim]
    judge(r, what, total, ms[0]['names'], data, ms[0]['params'], meta, ndim, shape, exact=False)
    vals = [[float(x) for x in m['tail']['values'].split()] for m in ms]
    want = [sum(v[0] for v in vals), math.hypot(*[v[1] for v in vals]), sum(v[2] for v in vals)]
    got = [float(x) for x in str(total['values']).split()]
    if len(got) != 3 or not all(math.isclose(a, b, rel_tol=1e-9) for a, b in zip(got, want)):
        r.problems.append(('values', f'{what}: values are {got}, should be {want}'))
    if type(total) is not type(dats[0]):
        r.problems.append(('type', f'{what}: is a {type(total)}'))
    write_combined_mccode_dats(files, out)
    judge(r, what + ' written', read_mccode_dat(out), ms[0]['names'], data, ms[0]['params'], meta, ndim, shape, exact=False)
    for tree in groupings(dats):
        g = fold(tree)
        judge(r, f'{what} grouped', g, ms[0]['names'], data, ms[0]['params'], {'Ncount': meta['Ncount'], 'component': meta['component']}, ndim, shape, exact=False)
        for k in ('Directory', 'Seed'):
            if set(str(g[k]).split()) != set(meta[k].split()):
                r.problems.append(('entry', f'{what} grouped: {k} is {g[k]}'))
    r.outcome = ['combined', ndim, len(ms)]
