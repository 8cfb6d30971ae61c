"""C15: simulation summaries are read, printed and combined without losing, mixing or inventing entries."""
import itertools, os, copy, math
from ..base import Result
from .. import env

PID = 'C15'
LEVEL = 'model_checking'
ASSUMPTIONS = ['statistics and the mean signal of combined entries, and the particle count of runs which are no repeats of each other, are not judged']
BOUND = ('summaries with every sequence of up to 3 (thorough: 4) monitors of a menu and every header of a menu; every sequence of 1 to 3 (thorough: 4) summaries from a menu of changes to one of them')
MONITORS = ['one', 'two', 'zero', 'old zero', 'empty', 'none', 'file']
CHANGES = ['same', 'directory', 'directory part', 'seed', 'date', 'ncount', 'numbers', 'no events', 'more monitors', 'fewer monitors', 'other parameter', 'one parameter more', 'other instrument', 'reordered', 'trace', 'no statistics',
           'position', 'limits', 'type', 'description', 'repeat part']
REFUSED = {'position', 'limits', 'type'}
NOREPEAT = {'other parameter', 'one parameter more', 'other instrument', 'trace'}


def cases(tier):
    q = tier == 'quick'
    for n in range(0, 4 if q else 5):
        for m in itertools.product(range(len(MONITORS)), repeat=n):
            for h in range(6):
                if n > 2 and h != sum(m) % 6:
                    continue
                yield ['read', list(m), h]
    for n in range(1, 4 if q else 5):
        for c in itertools.product(range(len(CHANGES) if n < 4 else 16), repeat=n):
            for order in range(1 if n > 2 else 2):
                yield ['combine', list(c), order]
    yield ['nothing']


def run_case(case):
    r = Result(states=1, transitions=0)
    globals()['_' + case[0]](case[1:], r)
    return r


def monitor(kind, k=0, **other):
    d = {'Date': 'Mon Jan  1 10:11:12 2024 (1704103872)', 'type': 'array_1d(20)', 'Source': 'test (test.instr)', 'component': kind.replace(' ', '_'), 'position': '0 0 1', 'title': 'Title: of it', 'Ncount': 1000 + k,
         'filename': f'{kind.replace(" ", "_")}.dat', 'statistics': f'X0={1 + k}; dX={2 + k};', 'signal': f'Min={0.5 + k}; Max={9 + 2 * k}; Mean={1.5 + k};', 'values': f'{2.5 + k} {0.5 + k} {10 + k}'}
    if kind == 'one':
        d.update(xvar='L', yvar='(I,I_err)', xlabel='Wavelength [AA]', ylabel='Intensity', xlimits='0 10', variables='L I I_err N')
    elif kind in ('two', 'empty', 'file'):
        d.update(type='array_2d(3, 4)', xvar='x', yvar='y', xlabel='X [cm]', ylabel='Y [cm]', zvar='I', zlabel='Signal per bin', xylimits='-1 1 -2 2', variables='I I_err N')
        d['statistics'] += f' Y0={3 + k}; dY={4 + k};'
    else:
        d.update(type='array_0d', xylimits='0 0 0 0', variables='I I_err N', statistics='None', signal='None')
        if kind == 'old zero':
            del d['filename']
    if kind == 'empty':
        d.update(statistics='X0=0; dX=0; Y0=0; dY=0;', signal='Min=0; Max=0; Mean=0;', values='0 0 0')
    if kind == 'none':
        d['component'] = 'none'
    if kind == 'file':
        d.update(component='two', filename='another.dat')
    d.update(other)
    return d


def summary(monitors, **other):
    s = dict(header=dict(description='McCode simulation description file for instrument test.', Date='Mon Jan  1 10:11:12 2024', Program='McStas 3.5.1'),
             instrument=dict(name='test', File='test.instr', Source='test.instr', Parameters='a(double) b(int)', Trace_enabled=True, Default_main=True, Embedded_runtime=True),
             simulation=dict(name='out/1', Format='McCode', URL='http://www.mccode.org', Creator='McStas 3.5.1', Instrument='test.instr', Ncount=1000, Trace=False, Gravitation=False, Seed=11, Directory='out/1', Params=['a=1', 'b=x=y:z']),
             data=monitors)
    for k, v in other.items():
        part, _, key = k.partition('__')
        s[part][key] = v
    return s


YES = {True: 'yes', False: 'no'}


def text(s):
    h, i, m = s['header'], s['instrument'], s['simulation']
    out = [h['description'], f'Date: {h["Date"]}', f'Program: {h["Program"]}', '', f'begin instrument: {i["name"]}']
    out += [f'  {k}: {YES.get(i[k], i[k]) if isinstance(i[k], bool) else i[k]}' for k in i if k != 'name'] + ['end instrument', '', f'begin simulation: {m["name"]}']
    out += [f'  {k}: {YES[m[k]] if isinstance(m[k], bool) else m[k]}' for k in m if k not in ('name', 'Params')] + [f'  Param: {p}' for p in m['Params']] + ['end simulation', '']
    for d in s['data']:
        order = ['Date', 'type', 'Source', 'component', 'position', 'title', 'Ncount', 'filename', 'statistics', 'signal', 'values', 'xvar', 'yvar', 'xlabel', 'ylabel', 'zvar', 'zlabel', 'xlimits', 'xylimits', 'variables']
        out += ['begin data'] + [f'  {k}: {d[k]}' for k in order if k in d] + ['end data', '']
    return '\n'.join(out)


HEADERS = [{}, dict(simulation__Params=[]), dict(instrument__Parameters='', simulation__Trace=True, simulation__Gravitation=True), dict(instrument__Trace_enabled=False, simulation__Seed=0, simulation__Ncount=0),
           dict(instrument__Default_main=False, simulation__Directory='a b', simulation__name='a b'), dict(instrument__Embedded_runtime=False, simulation__Params=['p=', 'q=1', 'p2=:'])]


def judge(r, what, got, want, skip=()):
    r.transitions += 1
    for part in ('header', 'instrument', 'simulation'):
        for k, v in want[part].items():
            if (part, k) in skip:
                continue
            have = getattr(getattr(got, part), k)
            if have != v or type(have) is not type(v):
                r.problems.append((part, f'{what}: {part} {k} is {have!r}, should be {v!r}'))
    if len(got.data) != len(want['data']):
        r.problems.append(('monitors', f'{what}: {[(d.component, d.filename) for d in got.data]}, should be {[(d["component"], d.get("filename")) for d in want["data"]]}'))
        return
    for d, w in zip(got.data, want['data']):
        for k in ('Date', 'type', 'Source', 'component', 'position', 'title', 'Ncount', 'filename', 'statistics', 'signal', 'values', 'xvar', 'yvar', 'xlabel', 'ylabel', 'zvar', 'zlabel', 'xlimits', 'xylimits', 'variables'):
            if ('data', k) in skip:
                continue
            have, v = getattr(d, k), w.get(k)
            if k == 'values':
                a, b = [float(x) for x in have.split()], [float(x) for x in v.split()]
                if len(a) != 3 or not all(math.isclose(x, y, rel_tol=1e-12) for x, y in zip(a, b)):
                    r.problems.append(('values', f'{what}: values of {w["component"]} are {have}, should be {v}'))
            elif k == 'signal' and v != have and 'None' not in (v, have):
                a, b = ([float(x.split('=')[1]) for x in s.strip(';').split(';')] for s in (have, v))
                if len(a) != 3 or a[:2] != b[:2] or not (math.isnan(b[2]) or a[2] == b[2]):
                    r.problems.append(('signal', f'{what}: signal of {w["component"]} is {have}, should be {v}'))
            elif k == 'statistics' and v == 'ANY':
                if have == 'None' or not all(math.isfinite(float(x.split('=')[1])) for x in have.strip(';').split(';')):
                    r.problems.append(('statistics', f'{what}: statistics of {w["component"]} are {have}'))
            elif have != v:
                r.problems.append(('monitor', f'{what}: {k} of {w["component"]} is {have!r}, should be {v!r}'))


def folder():
    f = env.SCRATCH / 'c15' / str(os.getpid())
    f.mkdir(parents=True, exist_ok=True)
    return f


def _read(args, r):
    from mccode_antlr.loader import read_mccode_sim, combine_mccode_sims, write_combined_mccode_sims
    kinds, h = args
    s = summary([monitor(MONITORS[k], i) for i, k in enumerate(kinds)], **HEADERS[h])
    f, g = folder() / 'one.sim', folder() / 'two.sim'
    f.write_text(text(s))
    what = f'{[MONITORS[k] for k in kinds]} {HEADERS[h]}'
    one = read_mccode_sim(f)
    judge(r, what, one, s)
    one.save(g)
    judge(r, 'printed ' + what, read_mccode_sim(str(g)), s)
    keys = {(d['component'], d.get('filename')) for d in s['data']}
    if len(keys) == len(kinds):
        judge(r, 'alone ' + what, combine_mccode_sims([one]), s)
        write_combined_mccode_sims([f], g)
        judge(r, 'alone, printed ' + what, read_mccode_sim(g), s)
    r.outcome = len(kinds)


def change(c, k):
    kind = CHANGES[c]
    num = 0 if kind == 'same' else k + 1
    kinds = ['one', 'two', 'zero', 'old zero', 'empty', 'file']
    if kind == 'more monitors':
        kinds.insert(2, 'none')
    if kind == 'fewer monitors':
        kinds = kinds[:2]
    if kind == 'reordered':
        kinds = kinds[::-1]
    d = [monitor(x, num) for x in kinds]
    if kind == 'no events':
        for x in d:
            x['values'] = '0 0 0'
    if kind == 'no statistics':
        for x in d:
            x['statistics'] = x['signal'] = 'None'
    if kind in ('position', 'limits', 'type'):
        d[1][{'position': 'position', 'limits': 'xylimits', 'type': 'type'}[kind]] = {'position': '0 0 2', 'limits': '0 1 0 1', 'type': 'array_2d(4, 4)'}[kind]
    if kind == 'numbers':
        for i, x in enumerate(d):
            x['values'] = f'{1e-300 * i} {3e10 + i} {2 ** 40 + i}'
    if kind == 'date':
        for x in d:
            x['Date'] = 'later'
    other = {'directory': dict(simulation__Directory='out/2', simulation__name='out/2'), 'directory part': dict(simulation__Directory='out', simulation__name='out'), 'seed': dict(simulation__Seed=3),
             'date': dict(header__Date='Tue Jan  2 10:11:12 2024'), 'ncount': dict(simulation__Ncount=77), 'other parameter': dict(simulation__Params=['a=2', 'b=x=y:z']),
             'one parameter more': dict(simulation__Params=['a=1', 'b=x=y:z', 'c=3'], instrument__Parameters='a(double) b(int) c(double)'), 'trace': dict(simulation__Trace=True),
             'other instrument': dict(instrument__name='test_2', instrument__File='test_2.instr', simulation__Instrument='test_2.instr', instrument__Trace_enabled=False),
             'description': dict(header__description='McCode simulation description file for instrument', header__Program='McStas 3'),
             'repeat part': dict(simulation__Directory='out/10', simulation__name='out/10', simulation__Seed=5, simulation__Ncount=3, header__Date='Mon Jan  1')}.get(kind, {})
    return summary(d, **other)


def joined(values):
    return ' + '.join(dict.fromkeys(values))


def expected(ss):
    """The combination, or None if monitors of the same name do not fit"""
    out = copy.deepcopy(ss[0])
    for part, keys in (('header', ['description', 'Date', 'Program']), ('instrument', ['name', 'File', 'Source']), ('simulation', ['name', 'Format', 'URL', 'Creator', 'Instrument', 'Directory'])):
        for k in keys:
            out[part][k] = joined([s[part][k] for s in ss])
    out['instrument']['Parameters'] = ' '.join(dict.fromkeys(p for s in ss for p in s['instrument']['Parameters'].split(' ')))
    out['instrument']['Trace_enabled'] = all(s['instrument']['Trace_enabled'] for s in ss)
    out['simulation']['Params'] = list(dict.fromkeys(p for s in ss for p in s['simulation']['Params']))
    out['simulation']['Ncount'] = sum(s['simulation']['Ncount'] for s in ss)
    found = {}
    for s in ss:
        for d in s['data']:
            found.setdefault((d['component'], d.get('filename')), []).append(d)
    data = []
    for ds in found.values():
        skip = ('Date', 'Ncount', 'statistics', 'signal', 'values')
        if any({k: v for k, v in d.items() if k not in skip} != {k: v for k, v in ds[0].items() if k not in skip} for d in ds):
            return None
        e = dict(ds[0])
        if len(ds) > 1:
            e['Ncount'] = sum(d['Ncount'] for d in ds)
            v = [[float(x) for x in d['values'].split()] for d in ds]
            e['values'] = f'{sum(x[0] for x in v)!r} {math.hypot(*[x[1] for x in v])!r} {sum(x[2] for x in v)!r}'
            if any(d['signal'] == 'None' for d in ds):
                e['signal'] = 'None'
            else:
                p = [[float(x.split('=')[1]) for x in d['signal'].strip(';').split(';')] for d in ds]
                e['signal'] = f'Min={min(x[0] for x in p)};Max={max(x[1] for x in p)};Mean=nan;'
            e['statistics'] = 'None' if any(d['statistics'] == 'None' for d in ds) else 'ANY'
        data.append(e)
    out['data'] = data
    return out


def _combine(args, r):
    from mccode_antlr.loader import read_mccode_sim, combine_mccode_sims, write_combined_mccode_sims
    changes, order = args
    ss = [change(c, k) for k, c in enumerate(changes)]
    if order:
        ss = [change(0, 0)] + ss
    what = f'{[CHANGES[c] for c in changes]} {order}'
    files = []
    for i, s in enumerate(ss):
        f = folder() / f'in{i}.sim'
        f.write_text(text(s))
        files.append(f)
    out = folder() / 'sum.sim'
    out.unlink(missing_ok=True)
    want = expected(ss)
    sims = [read_mccode_sim(f) for f in files]
    r.transitions += len(ss)
    try:
        got = combine_mccode_sims(sims)
    except RuntimeError as e:
        if want is not None:
            r.problems.append(('refused', f'{what}: {e}'))
        try:
            write_combined_mccode_sims(files, out)
            r.problems.append(('accepted', f'{what}: written'))
        except RuntimeError:
            pass
        if out.exists():
            r.problems.append(('partial', f'{what}: a file was written'))
        r.outcome = 'refused'
        return
    if want is None:
        r.problems.append(('accepted', f'{what}: monitors which do not fit were combined'))
        return
    for s, sim in zip(ss, sims):
        judge(r, f'{what}: after combining', sim, s)
    skip = {('simulation', 'Seed'), ('simulation', 'Trace'), ('simulation', 'Gravitation')}
    if any(s['simulation'][k] != ss[0]['simulation'][k] for s in ss for k in ('Params', 'Instrument', 'Trace', 'Gravitation')):
        skip.add(('simulation', 'Ncount'))
    judge(r, what, got, want, skip)
    write_combined_mccode_sims(files, out)
    judge(r, what + ' written', read_mccode_sim(out), want, skip)
    r.outcome = ['combined', len(ss), len(want['data'])]


def _nothing(args, r):
    from mccode_antlr.loader import combine_mccode_sims
    try:
        combine_mccode_sims([])
        r.problems.append(('nothing', 'nothing was combined'))
    except RuntimeError:
        pass
    r.transitions += 1
