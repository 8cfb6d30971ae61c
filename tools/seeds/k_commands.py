RG = 'src/mccode_antlr/reader/registry.py'
MG = 'src/mccode_antlr/cli/management.py'
CM = 'src/mccode_antlr/cli/commands.py'
TG = 'src/mccode_antlr/translators/target.py'
CH = 'src/mccode_antlr/translators/c_header.py'

READER = """
import mccode_antlr.reader
"""

CACHE = """
import os, tempfile, atexit, shutil
from pathlib import Path
work = Path(tempfile.mkdtemp())
atexit.register(shutil.rmtree, work)
os.environ['XDG_CACHE_HOME'] = str(work / 'cache')
os.environ['MCCODEANTLRDIR'] = str(work / 'conf')
"""

seed('c23-list-folder', 'C23', [(RG,
'''        if registry_file_path.exists() and registry_file_path.is_file():
''', '''        if registry_file_path.parent.is_dir():
''')], READER + CACHE + """
from mccode_antlr.reader.registry import GitHubRegistry
(work / 'cache' / 'mccode_antlr' / 'demo' / 'v1').mkdir(parents=True)
try:
    got = GitHubRegistry('demo', 'http://127.0.0.1:9/none', 'v1', registry={'a.comp': 'sha256:00'}).filenames()
except OSError as e:
    got = e
check(got == ['a.comp'], got)
""", 'a process which ends between making the folder of a version and writing the list of its files', 'no later process can use this version of the registry')

seed('c23-not-ok', 'C23', [(RG,
'''                if not r.ok:
''', '''                if r.status_code == 404:
''')], READER + CACHE + """
import requests
from mccode_antlr.reader.registry import GitHubRegistry
class Answer:
    def __init__(self, code, text):
        self.ok, self.status_code, self.text, self.reason, self.url = code < 400, code, text, 'demo', 'demo'
        self.content = text.encode()
    def raise_for_status(self):
        if not self.ok:
            raise requests.HTTPError(self.reason)
answers = [Answer(503, 'Try again\\nmuch later\\n'), Answer(200, 'a.comp sha256:00\\n')]
requests.get = lambda *a, **k: answers.pop(0)
try:
    GitHubRegistry('demo', 'http://127.0.0.1:9/none', 'v1')
except Exception:
    pass
try:
    got = GitHubRegistry('demo', 'http://127.0.0.1:9/none', 'v1').filenames()
except Exception as e:
    got = e
check(got == ['a.comp'], got)
""", 'a server which is out of service when a registry is used first', 'the error message is kept as the list of files')

seed('c23-list-name', 'C23', [(RG,
'''        registry_file = self.filename or 'pooch-registry.txt'
''', '''        registry_file = f'{self.name}-registry.txt'
''')], READER + CACHE + """
from mccode_antlr.reader.registry import GitHubRegistry
one = GitHubRegistry('demo', 'http://127.0.0.1:9/none', 'v1', registry={'a.comp': 'sha256:00'}).filenames()
two = GitHubRegistry('demo', 'http://127.0.0.1:9/none', 'v1', 'other.txt', registry={'b.comp': 'sha256:00'}).filenames()
check((one, two) == (['a.comp'], ['b.comp']), (one, two))
""", 'a registry with a named list of files', 'the list with the usual name is used instead')

seed('c23-config-gone', 'C23', [(MG,
'''    config_file = config_dir.joinpath('config.yaml')
''', '''    (config_file := config_dir.joinpath('config.yaml')).unlink(missing_ok=True)
''')], READER + CACHE + """
from mccode_antlr.cli.management import config_save
(work / 'conf').mkdir()
(work / 'conf' / 'config.yaml').write_text('cc: mine\\n')
def full(*a, **k):
    raise OSError(28, 'No space left on device')
real, os.replace, os.rename = (os.replace, os.rename), full, full
try:
    config_save(str(work / 'conf'), False)
except OSError:
    pass
os.replace, os.rename = real
check('mine' in (work / 'conf' / 'config.yaml').read_text())
""", 'an error, or an end of the process, while the configuration is saved over an older one', 'there is no configuration at all')

COMMAND = READER + CACHE + """
import sys, io, contextlib
from mccode_antlr.cli import commands
from mccode_antlr.reader.registry import InMemoryRegistry
base = InMemoryRegistry('base', priority=0)
base.add('Arm.comp', 'DEFINE COMPONENT Arm\\nTRACE\\n%{\\n%}\\nEND\\n')
from mccode_antlr.translators.target import MCSTAS_GENERATOR
import mccode_antlr.translators.c as tc
tc.LIBC_REGISTRY = libc()
def command(*argv):
    sys.argv = ['x', *map(str, argv)]
    with contextlib.redirect_stdout(io.StringIO()):
        commands.mccode('mcstas', base, MCSTAS_GENERATOR)
def instr(name, head='', body='COMPONENT a = Arm() AT (0,0,0) ABSOLUTE\\n'):
    (work / name).write_text('DEFINE INSTRUMENT one()\\n' + head + 'TRACE\\n' + body + 'END\\n')
    return work / name
back = os.getcwd()
atexit.register(os.chdir, back)
os.chdir(work)
"""

seed('c24-working-first', 'C24', [(CM,
'''    registries.append(LocalRegistry('working_directory', f'{Path().resolve()}'))
''', '''    registries.insert(1, LocalRegistry('working_directory', f'{Path().resolve()}'))
''')], COMMAND + """
for d in ('.', 'given'):
    (work / d).mkdir(exist_ok=True)
    (work / d / 'M.comp').write_text('DEFINE COMPONENT M\\nTRACE\\n%{\\n/* from ' + d + ' */\\n%}\\nEND\\n')
command(instr('one.instr', '', 'COMPONENT a = M() AT (0,0,0) ABSOLUTE\\n'), '-I', 'given')
text = (work / 'one.c').read_text()
check('from given' in text and 'from .' not in text)
""", 'a component both in a folder given by -I and in the working directory', 'the one of the working directory is used')

seed('c24-dotted-name', 'C24', [(CM,
'''                  output=args.output_file if args.output_file is not None else args.filename.with_suffix('.c')
''', '''                  output=args.output_file or args.filename.parent / f'{args.filename.name.split(".")[0]}.c'
''')], COMMAND + """
(work / 'two.c').write_text('something else')
command(instr('two.parts.instr'))
check((work / 'two.parts.c').exists() and (work / 'two.c').read_text() == 'something else', sorted(x.name for x in work.iterdir()))
""", 'an instrument file with more than one dot in its name and no -o', 'the program is written to another file')

seed('c24-partial-output', 'C24', [(TG,
'''        self.translate(reprocess=reprocess)
        if filename:
            with open(filename, 'w') as file:
                file.write(self.output.getvalue())
''', '''        if filename:
            with open(filename, 'w') as file:
                file.write(self.translate(reprocess=reprocess).getvalue())
        else:
            self.translate(reprocess=reprocess)
''')], COMMAND + """
(work / 'half.h').write_text('/* the .c file is missing */\\n')
file = instr('one.instr', 'DECLARE\\n%{\\n%include "half"\\n%}\\n')
(work / 'one.c').write_text('what was there')
try:
    command(file)
except (Exception, SystemExit):
    pass
check((work / 'one.c').read_text() == 'what was there', (work / 'one.c').read_text())
""", 'an instrument with an error which is found by the translation, and an older program', 'the older program is lost, and an empty one is left')

seed('c24-portable-trace', 'C24', [(CM,
'''                  portable=args.portable if args.portable is not None else False,
''', '''                  portable=not args.trace if args.portable else False,
''')], COMMAND + """
command(instr('one.instr'), '-t', '-p')
text = (work / 'one.c').read_text()
check('#define MC_PORTABLE' in text and '#define MC_TRACE_ENABLED' in text)
""", 'both -t and -p', 'the program is not portable')

seed('c24-stripped-source', 'C24', [(CH,
'''                return escape_str_for_c(file.read())
''', '''                return r'\\n'.join(escape_str_for_c(line.rstrip()) for line in file)
''')], COMMAND + """
file = instr('one.instr', '// two blanks after this  \\n')
command(file, '--source')
text = next(x for x in (work / 'one.c').read_text().split('\\n') if 'instrument_code[]' in x)
check('after this  ' in text and 'END\\\\n' in text, text)
""", 'an instrument with blanks at the end of a line, or ending with a line break, embedded with --source', 'the embedded text is another one')

USER = CACHE + """
import sys, io, contextlib
from mccode_antlr.cli import management
def command(*argv, answer=''):
    sys.argv = ['x', *map(str, argv)]
    sys.stdin = io.StringIO(answer)
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            management.mccode_management()
    except (Exception, SystemExit) as e:
        return str(e)
    return out.getvalue()
for d in ('mcstas/v3.4.0', 'mcstas/v3.5.1', 'libc/v3.4.0'):
    (work / 'cache' / 'mccode_antlr' / d).mkdir(parents=True)
"""

seed('c25-starts-with-y', 'C25', [(MG,
'''        if 'yes' == response.lower() or 'y' == response.lower():
''', '''        if response.lower().startswith('y'):
''')], USER + """
command('cache', 'remove', 'mcstas', answer='yesterday I would have\\n')
check((work / 'cache' / 'mccode_antlr' / 'mcstas' / 'v3.4.0').is_dir())
""", 'an answer which is neither y nor yes, but starts with y', 'the cache is removed without having been confirmed')

seed('c25-empty-value', 'C25', [(MG,
'''            if level in c:
''', '''            if level in c and c[level].get() not in (None, ''):
''')], USER + """
(work / 'conf').mkdir()
(work / 'conf' / 'config.yaml').write_text("empty: ''\\nfull: 1\\n")
check('full: 1' in command('config', 'get', 'full') and 'empty:' in command('config', 'get', 'empty'), command('config', 'get', 'empty'))
""", 'a configuration value which is an empty text', 'the value is shown as not being there')

seed('c25-numbered-folders', 'C25', [(MG,
'''    dirs = sorted([d for d in path.iterdir() if d.is_dir()], key=lambda x: x.name)
''', '''    dirs = sorted([d for d in path.iterdir() if not d.suffix], key=lambda x: x.name)
''')], USER + """
got = command('cache', 'list', 'mcstas')
check('v3.4.0' in got and 'v3.5.1' in got, got)
(work / 'cache' / 'mccode_antlr' / 'a-file').write_text('')
check('a-file' not in command('cache', 'list'))
""", 'folders with a dot in their name, or files without one', 'they are missing from, or additional in, the list')

seed('c25-long-name', 'C25', [(MG,
'''    dstr = '\\n'.join(f'  {d if long else d.name}' for d in dirs)
''', '''    dstr = '\\n'.join(f'  {d if long and name else d.name}' for d in dirs)
''')], USER + """
check(str(work / 'cache' / 'mccode_antlr' / 'libc') in command('cache', 'list', '--long'), command('cache', 'list', '--long'))
""", 'cache list --long without a name', 'only names are shown, not the folders')
