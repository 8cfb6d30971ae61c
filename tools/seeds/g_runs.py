RR = 'src/mccode_antlr/run/range.py'
RN = 'src/mccode_antlr/run/runner.py'
DF = 'src/mccode_antlr/loader/datfile.py'
SF = 'src/mccode_antlr/loader/simfile.py'

seed('c12-value-with-equal', 'C12', [(RR,
'''            k, v = unparsed[index].split('=', 1)
            ranges[k] =''', '''            k, v = unparsed[index].rsplit('=', 1)
            ranges[k] =''')], """
from mccode_antlr.run.range import parse_scan_parameters
check(str(parse_scan_parameters(['a=1', 'file=x'])['file']) == 'x')
got = parse_scan_parameters(['option=key=value', 'a=1:2'])
check(list(got) == ['option', 'a'] and str(got['option']) == 'key=value', got)
""", 'a parameter value which contains an equal sign', 'the name is split at the last equal sign')

seed('c12-spelled-pairs', 'C12', [(RR,
'''            ranges[unparsed[index]] = _MRange_or_Singular(unparsed[index + 1])
            index += 1
''', '''            ranges[unparsed[index].lower()] = _MRange_or_Singular(unparsed[index + 1])
            index += 1
''')], """
from mccode_antlr.run.range import parse_scan_parameters
check(list(parse_scan_parameters(['ei', '5', 'Ef=3'])) == ['ei', 'Ef'])
check(list(parse_scan_parameters(['Ei', '5', 'Ef=3'])) == ['Ei', 'Ef'])
""", 'a parameter with capital letters given as two words', 'its name is lowercased')

seed('c12-index-end', 'C12', [(RR,
'''        if index < 0 or index >= len(self):
''', '''        if index < 0 or index > len(self):
''')], """
from mccode_antlr.run.range import MRange
m = MRange(1, 3, 1)
check([m[i] for i in range(3)] == [1, 2, 3])
try:
    m[3]
    check(False, m[3])
except IndexError:
    pass
""", 'asking a range for the element after its last one', 'a point which is not in the range is given')

seed('c13-false-options', 'C13', [(RN,
'''    if 'seed' in args and args['seed'] is not None:
''', '''    if args.get('seed'):
''')], """
from mccode_antlr.run.runner import mccode_runtime_parameters
check('--seed=3' in mccode_runtime_parameters({'seed': 3}, {}))
check('--seed=0' in mccode_runtime_parameters({'seed': 0}, {'a': 1}), mccode_runtime_parameters({'seed': 0}, {'a': 1}))
""", 'a seed of zero', 'the seed is not given to the program')

RUN = """
import sys, os, contextlib, io, tempfile, subprocess
from pathlib import Path
from mccode_antlr.run.runner import mccode_run_cmd, mccode_run_scan
def program(folder):
    p = folder / 'prog'
    p.write_text('#!/bin/sh\\nfor d in "$@"; do if [ "$last" = --dir ]; then out="$d"; fi; last="$d"; done\\nmkdir "$out" || exit 4\\nprintf "%s\\\\n" "$@" > "$out/arguments"\\n')
    p.chmod(0o755)
    return p
def commands(argv):
    here = Path(tempfile.mkdtemp(dir=SCRATCH))
    program(here)
    os.chdir(here)
    sys.argv = ['run', 'prog', *argv]
    with contextlib.redirect_stdout(io.StringIO()):
        mccode_run_cmd('mcstas', None, {})
    return {p.parent.relative_to(here).as_posix(): p.read_text().split('\\n')[:-1] for p in sorted(here.rglob('arguments'))}
"""

seed('c13-parameters-then-trace', 'C13', [(RN,
'''        runtime = dict(''' if False else '''        gravitation=args.gravitation,
        bufsiz=args.bufsiz[0] if args.bufsiz is not None else None,
''', '''        gravitation=args.gravitation or None,
        bufsiz=args.bufsiz[0] if args.trace and args.bufsiz is not None else None,
''')], RUN + """
got = commands(['a=1', '-d', 'out', '-t', '--bufsiz', '50'])
check('--bufsiz=50' in got['out'] and '--trace' in got['out'], got)
got = commands(['a=1:2', '-d', 'out', '--bufsiz', '50'])
check(sorted(got) == ['out/0', 'out/1'] and all('--bufsiz=50' in v for v in got.values()), got)
""", 'a buffer size without tracing', 'the buffer size is not given to the program')

seed('c13-one-point-mesh', 'C13', [(RN,
'''    n_pts, names, scan = parameters_to_scan(parameters, grid=grid)
''', '''    n_pts, names, scan = parameters_to_scan(parameters, grid=grid and len(parameters) > 2)
''')], RUN + """
got = commands(['a=1:2', 'b=3', '-m', '-d', 'out'])
check(len(got) == 2, got)
got = commands(['a=1:2', 'b=3:4', '-m', '-d', 'out'])
check(len(got) == 4, got)
""", 'a mesh scan over two parameters', 'the parameters are scanned along a line')

seed('c13-format-fixed', 'C13', [(RN,
'''    t = insert_best_of(args, t, ('trace', 't'))
    t = insert_best_of(args, t, ('gravitation', 'g'))
''', '''    t = insert_best_of(args, t, ('trace', 't'))
    t = insert_best_of(args, t, ('gravitation', 'g') if 'trace' not in t else ('gravitation', ))
''')], """
from mccode_antlr.run.runner import regular_mccode_runtime_dict, mccode_runtime_parameters
short = lambda **k: sorted(mccode_runtime_parameters(regular_mccode_runtime_dict(k), {}).split())
check(short(g=True) == ['--gravitation'] and short(t=True) == ['--trace'])
check(short(g=True, t=True, n=3) == ['--gravitation', '--ncount=3', '--trace'], short(g=True, t=True, n=3))
""", 'the short names of the trace and gravitation options in one call', 'gravitation is not passed on')

DAT = """
import math
from mccode_antlr.loader import read_mccode_dat, write_combined_mccode_dats
from mccode_antlr.loader.datfile import combine_mccode_dats
def dat(name, rows, kind, variables, more='', **entries):
    e = dict(Format='f', URL='u', Creator='c', Instrument='i', Ncount='10', Trace='no', Gravitation='no', Seed='1', Directory='d', Date='now', type=kind, Source='s', component='det', position='0 0 0',
             title='t', filename='f.dat', statistics='None', signal='None', values='1 1 1', xvar='x', yvar='y', xlabel='X [m]', ylabel='Y [m]', zvar='I', zlabel='z', xlimits='0 1', xylimits='0 1 0 1', variables=variables)
    e.update(entries)
    f = SCRATCH / name
    f.write_text(''.join('# %s: %s\\n' % (k, v) for k, v in e.items()) + more + ''.join(' '.join(map(repr, r)) + '\\n' for r in rows))
    return f
"""

seed('c14-image-labels', 'C14', [(DF,
'''        for i, n in enumerate(self.variables):
            print(f'# {labels[i]} ''', '''        for i, n in enumerate(sorted(self.variables)):
            print(f'# {labels[i]} ''')], DAT + """
rows = [[1., 2.], [3., 4.], [5., 6.]]
for names in ('I I_err N', 'p p2 N'):
    f, g = dat('in.dat', rows, 'array_2d(2, 1)', names), SCRATCH / ('out%d.dat' % len(names))
    read_mccode_dat(f).to_filename(g)
    text = g.read_text()
    check([text.index('%s:' % n) for n in names.split()] == sorted(text.index('%s:' % n) for n in names.split()), text)
""", 'an image whose variables are not in alphabetic order', 'the blocks are labelled with the wrong variable')

seed('c14-first-of-many', 'C14', [(DF,
'''    one = dats[0]
    for other in dats[1:]:
''', '''    one = dats[0]
    for other in dats[-1:0:-2] if len(dats) > 2 else dats[1:]:
''')], DAT + """
rows = [[0.5, 1., 2., 3.], [1.5, 4., 5., 6.]]
d = [read_mccode_dat(dat('%d.dat' % i, rows, 'array_1d(2)', 'x I I_err N')) for i in range(3)]
check(combine_mccode_dats(d[:2])['I'].tolist() == [2, 8])
check(combine_mccode_dats(d)['I'].tolist() == [3, 12], combine_mccode_dats(d)['I'])
""", 'combining three files', 'one of them is left out')

SIM = """
from mccode_antlr.loader.simfile import SimFile, combine_mccode_sims
def sim(directory, data=(), params=('a=1',), ncount=10):
    head = 'desc\\nDate: d\\nProgram: p\\n\\nbegin instrument: i\\n  File: f\\n  Source: s\\n  Parameters: a(double)\\n  Trace_enabled: no\\n  Default_main: yes\\n  Embedded_runtime: yes\\nend instrument\\n\\n'
    head += 'begin simulation: %s\\n  Format: f\\n  URL: u\\n  Creator: c\\n  Instrument: i\\n  Ncount: %d\\n  Trace: no\\n  Gravitation: yes\\n  Seed: 3\\n  Directory: %s\\n' % (directory, ncount, directory)
    return SimFile.parse(head + ''.join('  Param: %s\\n' % p for p in params) + 'end simulation\\n\\n' + ''.join(data))
def datum(component, values, filename, signal='Min=1; Max=2; Mean=1.5;', xylimits='-1 1 -1 1'):
    keys = dict(Date='d', type='array_2d(1, 1)', Source='s', component=component, position='0 0 0', title='t', Ncount=10, filename=filename, statistics='X0=1; dX=1; Y0=1; dY=1;', signal=signal, values=values,
                xvar='x', yvar='y', xlabel='x', ylabel='y', zvar='z', zlabel='z', xylimits=xylimits, variables='I I_err N')
    return 'begin data\\n' + ''.join('  %s: %s\\n' % x for x in keys.items()) + 'end data\\n\\n'
"""

seed('c15-same-component', 'C15', [(SF,
'''            key = (datum.component, datum.filename)
''', '''            key = next((k for k in data if k[0] == datum.component and data[k].is_repeat(datum)), (datum.component, None))
''')], SIM + """
one = sim('a', [datum('det', '1 1 1', 'f')])
two = sim('b', [datum('det', '2 1 1', 'f'), datum('det', '5 1 1', 'g')])
check(len(combine_mccode_sims([one, sim('b', [datum('det', '2 1 1', 'f')])]).data) == 1)
got = combine_mccode_sims([one, two, sim('c', [datum('det', '7 1 1', 'h')])])
check([float(d.values.split()[0]) for d in got.data] == [3, 5, 7], [d.values for d in got.data])
""", 'a component with several files, which are in later summaries only', 'entries of other files are mixed or refused')

seed('c15-minimum', 'C15', [(SF,
'''            out.signal = f"Min={min(s_min, o_min)}; Max={max(s_max, o_max)}; Mean={mean_estimate};"
''', '''            out.signal = f"Min={min(s_min, o_min) if s_counts < o_counts else s_min}; Max={max(s_max, o_max)}; Mean={mean_estimate};"
''')], SIM + """
for counts in ((5, 9), (9, 5)):
    a, b = sim('a', [datum('det', '1 1 %d' % counts[0], 'f', 'Min=3; Max=4; Mean=3.5;')]), sim('b', [datum('det', '1 1 %d' % counts[1], 'f', 'Min=1; Max=2; Mean=1.5;')])
    got = combine_mccode_sims([a, b]).data[0].signal
    check(got.startswith('Min=1.0; Max=4.0;'), got)
""", 'the second of two runs counted less and has the lower minimum', 'the minimum of the combination is not the lowest')

seed('c15-limits-repeat', 'C15', [(SF,
'''        skip = ['Date', 'Ncount', 'statistics', 'signal', 'values']
        return all(getattr(self, k) == getattr(other, k) for k in self.keywords if k not in skip)
''', '''        skip = ['Date', 'Ncount', 'statistics', 'signal', 'values']
        return all(getattr(self, k) == getattr(other, k) for k in self.keywords[:-2] if k not in skip)
''')], SIM + """
def combined(*limits):
    return combine_mccode_sims([sim('a%d' % i, [datum('det', '1 1 1', 'f', xylimits=l)]) for i, l in enumerate(limits)])
check(combined('0 1 0 1', '0 1 0 1').data[0].values.startswith('2'))
try:
    combined('0 1 0 1', '0 1 0 2')
    check(False, 'different limits are combined')
except RuntimeError:
    pass
""", 'monitors which differ only in their limits', 'they are taken as repeats of each other and added')

seed('c15-parameter-text', 'C15', [(SF,
'''            _, _, param = line.partition(':')
            params.append(param.strip())
''', '''            _, _, param = line.rpartition(':')
            params.append(param.strip())
''')], SIM + """
check(sim('a', params=['a=1', 'b=2']).simulation.Params == ['a=1', 'b=2'])
check(sim('a', params=['file=C:x']).simulation.Params == ['file=C:x'], sim('a', params=['file=C:x']).simulation.Params)
""", 'a parameter value with a colon', 'the parameter is cut')

seed('c14-digits', 'C14', [(DF,
'''        for row in self.data.transpose((1, 0)):
            print(' '.join(str(x) for x in row), file=file)
''', '''        for row in self.data.transpose((1, 0)):
            print(' '.join(f'{x:g}' for x in row), file=file)
''')], DAT + """
d = read_mccode_dat(dat('in.dat', [[0.5, 1.25, 0.1, 12345678.0]], 'array_1d(1)', 'x I I_err N'))
d.to_filename(SCRATCH / 'out.dat')
check(read_mccode_dat(SCRATCH / 'out.dat').data.tolist() == d.data.tolist(), read_mccode_dat(SCRATCH / 'out.dat').data.tolist())
""", 'values with more than six digits', 'they are rounded when printed')
CL = 'src/mccode_antlr/translators/c_listener.py'
CC = 'src/mccode_antlr/translators/c.py'

DECL = """
def value(declare, show, share=''):
    comp = 'DEFINE COMPONENT Decl\\nSHARE %{' + share + '%}\\nDECLARE %{' + declare + '%}\\nTRACE %{' + show + '%}\\nEND\\n'
    reg = local('demo', {'Decl.comp': comp})
    instr = parse('DEFINE INSTRUMENT decl()\\nTRACE\\nCOMPONENT d = Decl() AT (0,0,0) ABSOLUTE\\nEND\\n', [reg])
    return [x for x in execute(build(translate(instr)), 1)[1].split('\\n') if x.startswith('<')]
"""

seed('c16-last-type-word', 'C16', [(CL,
'''            decl.dtype = ' '.join(specs[:-1])
''', '''            decl.dtype = specs[-2]
''')], DECL + """
check(value('long int n = 5;', 'printf("<%zu %ld>\\\\n", sizeof(n), n);') == ['<8 5>'])
got = value('long int n;', 'printf("<%zu %ld>\\\\n", sizeof(n), n);')
check(got == ['<8 0>'], got)
""", 'a variable without initial value, of a type of several words', 'only the last word of its type is used')

seed('c16-case-names', 'C16', [(CC,
'''                dp = list(dict.fromkeys(dp))
''', '''                dp = list({d.name.lower(): d for d in dp}.values())
''')], DECL + """
check(value('int n = 5;', 'printf("<%d>\\\\n", n);') == ['<5>'])
try:
    got = value('int n = 5; double N = 2;', 'printf("<%d %g>\\\\n", n, N);')
except Exception as e:
    check(False, e)
check(got == ['<5 2>'], got)
""", 'two variables of a component whose names differ in case only', 'one of them is dropped')

seed('c16-pointer-spacing', 'C16', [(CL,
'''        self.debug(f'pointer {literal_string(ctx)}')
        return literal_string(ctx)
''', '''        self.debug(f'pointer {literal_string(ctx)}')
        return literal_string(ctx).split(' ')[0]
''')], DECL + """
check(value('double **d;', 'printf("<%zu>\\\\n", sizeof(**d));') == ['<8>'])
try:
    got = value('double * *d; int * const *k = 0;', 'printf("<%zu %zu>\\\\n", sizeof(**d), sizeof(**k));')
except Exception as e:
    check(False, e)
check(got == ['<8 4>'], got)
""", 'a pointer to a pointer, written with space', 'it is declared as a plain pointer')
CH = 'src/mccode_antlr/translators/c_header.py'
CT = 'src/mccode_antlr/translators/c_trace.py'
CM = 'src/mccode_antlr/translators/c_macros.py'

USER = """
def shown(comps, text, n=1, flags=()):
    reg = local('demo', {k + '.comp': 'DEFINE COMPONENT ' + k + '\\n' + v + '\\nEND\\n' for k, v in comps.items()})
    try:
        return [x for x in execute(build(translate(parse('DEFINE INSTRUMENT user()\\n' + text + '\\nEND\\n', [reg])), flags), n)[1].split('\\n') if x.startswith('<')]
    except Exception as e:
        check(False, e)
"""

seed('c17-instance-number', 'C17', [(CC,
'''            for index, instance in enumerate(self.source.components):
                if instance.type.name == comp_name:
                    i_declares''', '''            for index, instance in enumerate(x for x in self.source.components if x.type.name == comp_name):
                if len(a_declares):
                    i_declares''')], USER + """
C = {'One': 'USERVARS %{ double own; %}\\nTRACE %{ %}', 'Two': 'TRACE %{ %}'}
show = 'EXTEND %{ own_N = 5; printf("<%g>\\\\n", particle_getvar(_particle, "own_N", NULL)); %}'
check(shown(C, 'TRACE\\nCOMPONENT a = One() AT (0,0,0) ABSOLUTE\\n' + show.replace('own_N', 'own_1')) == ['<5>'])
got = shown(C, 'TRACE\\nCOMPONENT b = Two() AT (0,0,0) ABSOLUTE\\nCOMPONENT a = One() AT (0,0,0) ABSOLUTE\\n' + show.replace('own_N', 'own_2'))
check(got == ['<5>'], got)
""", 'a component with user variables after one of another type', 'its variables are not named by the index of the instance in the instrument')

seed('c17-int-not-zero', 'C17', [(CH,
'''        if (x.dtype not in ('double', 'MCNUM', 'int') and x.init is None) or''', '''        if (x.dtype not in ('double', 'MCNUM') and x.init is None) or''')], USER + """
C = {'One': 'TRACE %{ %}'}
got = shown(C, 'USERVARS %{ double d; int n; %}\\nTRACE\\nCOMPONENT a = One() AT (0,0,0) ABSOLUTE\\nEXTEND %{ printf("<%g %d>\\\\n", d, n); n++; %}', 2, ['-DGARBAGE'])
check(got == ['<0 0>', '<0 0>'], got)
""", 'an integer user variable which is counted up', 'it does not start as zero for every particle')

seed('c17-index-prefix', 'C17', [(CM,
'''        lines.append(f'  if (!strcmp(compname, "{comp.name}")) return {1+index};')
''', '''        lines.append(f'  if (!strncmp(compname, "{comp.name}", {len(comp.name)})) return {1+index};')
''')], USER + """
C = {'One': 'TRACE %{ %}'}
D = 'DECLARE %{ int _getcomp_index(char *); %}\\nTRACE\\n'
F = '\\nFINALLY %{ printf("<%d %d>\\\\n", _getcomp_index("ab"), _getcomp_index("c")); %}'
check(shown(C, D + 'COMPONENT ab = One() AT (0,0,0) ABSOLUTE\\nCOMPONENT c = One() AT (0,0,0) ABSOLUTE' + F) == ['<1 2>'])
got = shown(C, D + 'COMPONENT a = One() AT (0,0,0) ABSOLUTE\\nCOMPONENT ab = One() AT (0,0,0) ABSOLUTE\\nCOMPONENT c = One() AT (0,0,0) ABSOLUTE' + F)
check(got == ['<2 3>'], got)
""", 'a component whose name starts with the name of an earlier one', 'its index is that of the earlier one')

seed('c17-extend-own-only', 'C17', [(CT,
'''        uvs = list(dict.fromkeys([*instr_uservars, *comp_uservars]))
''', '''        uvs = list(dict.fromkeys(comp_uservars or instr_uservars))
''')], USER + """
C = {'One': 'TRACE %{ %}', 'Two': 'USERVARS %{ double own; %}\\nTRACE %{ %}'}
I = 'USERVARS %{ double u; %}\\nTRACE\\nCOMPONENT a = One() AT (0,0,0) ABSOLUTE\\nEXTEND %{ u = 3; printf("<%g>\\\\n", u); %}\\n'
check(shown(C, I) == ['<3>'])
got = shown(C, I + 'COMPONENT b = Two() AT (0,0,0) ABSOLUTE\\nEXTEND %{ own_2 = u + 1; printf("<%g %g>\\\\n", u, own_2); %}')
check(got == ['<3>', '<3 4>'], got)
""", 'EXTEND of a component with own user variables using one of the instrument', 'the instrument variable is not known there')
