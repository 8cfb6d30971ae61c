"""Regenerate and verify the planted bugs in /verif/seeded from the specifications in tools/seeds/*.py.

usage: /opt/venv/bin/python tools/plant.py [--check] [--detect] [ids...]
Every specification is seed(id, property, [(file, old, new), ...], demo=python source, needs=..., breaks=...).
A seed is kept after: its edits change only original lines, the stable tests still pass, the demo passes on the unchanged
tree and fails on the changed one.  --detect also runs the quick check of its property against the changed copy.
"""
import sys, os, json, subprocess, shutil, tempfile, importlib.util, textwrap, re, concurrent.futures
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path('/repo')
BASE = 'acea052'
SEEDS = {}
PY = '/opt/venv/bin/python'


def seed(sid, pid, edits, demo, needs, breaks):
    assert sid not in SEEDS, sid
    SEEDS[sid] = dict(pid=pid, edits=edits, demo=textwrap.dedent(demo).lstrip('\n'), needs=needs, breaks=breaks)


def lab_source():
    """The stand-in environment and C runtime in one module which takes the code under test from the working directory"""
    e = (VERIF / 'mc/env.py').read_text()
    c = (VERIF / 'mc/cgen.py').read_text()
    e = re.sub(r"REPO = .*\n", "REPO = Path.cwd().resolve()\n", e).replace("VERIF = Path(__file__).resolve().parent.parent\n", "")
    e = e.replace("prefix='mcverif-'", "prefix='demo-'")
    c = c.replace('from . import env\n', '').replace('env.SCRATCH', 'SCRATCH')
    tail = '''

def check(condition, message=''):
    if not condition:
        print('FAILED:', message)
        sys.exit(1)


def run(text, registries, n=1, args=(), flags=(), mcstas=True, **config):
    """Translate, compile and run an instrument text; the standard output as lines"""
    exe = build(translate(parse(text, registries), mcstas, **config), flags)
    rc, out = execute(exe, n, args)
    check(rc == 0, f'program ended with {rc}')
    return out.split('\\n')


bootstrap()
'''
    return e + '\n\n' + c + tail


def stable():
    data = json.loads(Path('/opt/vp/BASELINE.json').read_text())
    for key in ('stable', 'passed', 'tests', 'stable_tests'):
        if key in data:
            data = data[key]
            break
    return set(data)


def run_tests(copy, out):
    env = dict(os.environ, PYTHONPATH=f'{copy}/src')
    script = f'''. /opt/vp/env.sh
cd {copy} && {PY} -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors --ignore=tests/test_registry.py -o junit_family=xunit2 --junitxml={out} tests'''
    r = subprocess.run(['bash', '-c', script], capture_output=True, text=True, env=env)
    import xml.etree.ElementTree as ET
    good = set()
    for tc in ET.parse(out).iter('testcase'):
        if not any(c.tag in ('failure', 'error', 'skipped') for c in tc):
            good.add(f"{tc.get('classname')}::{tc.get('name')}")
    return good


def make_copy(name):
    d = Path(tempfile.mkdtemp(prefix=f'seed-{name}-', dir='/tmp'))
    copy = d / 'repo'
    subprocess.run(['cp', '-a', str(REPO), str(copy)], check=True)
    return d, copy


def apply_edits(copy, edits):
    for f, old, new in edits:
        p = copy / f
        t = p.read_text()
        if t.count(old) != 1:
            return f'{f}: the text to change occurs {t.count(old)} times: {old[:80]!r}'
        p.write_text(t.replace(old, new))
    return None


def original_lines_only(copy, diff):
    f, ln, bad, n = None, 0, [], 0
    blame = {}
    for line in diff.split('\n'):
        if line.startswith('--- a/'):
            f = line[6:]
            r = subprocess.run(['git', '-C', str(copy), 'blame', '-s', '-l', 'HEAD', '--', f], capture_output=True, text=True)
            blame[f] = r.stdout.split('\n')
        elif line.startswith('@@'):
            ln = int(line.split()[1].split(',')[0][1:])
        elif line.startswith('-') and not line.startswith('---'):
            n += 1
            if BASE not in blame[f][ln - 1][:20]:
                bad.append((f, ln))
            ln += 1
        elif line.startswith(' '):
            ln += 1
    return n, bad


def demo_run(folder, cwd):
    """Like the final check: the demonstration runs from a copy laid elsewhere"""
    with tempfile.TemporaryDirectory(prefix='demo-at-') as d:
        for x in folder.iterdir():
            if x.suffix not in ('.diff', '.patch') and x.name != 'meta.json':
                shutil.copy(x, d)
        r = subprocess.run(['bash', f'{d}/demo.sh'], cwd=cwd, capture_output=True, text=True, timeout=300)
    return r.returncode, (r.stdout + r.stderr)[-400:]


def plant(sid, detect):
    s = SEEDS[sid]
    out = VERIF / 'seeded' / sid
    d, copy = make_copy(sid)
    try:
        err = apply_edits(copy, s['edits'])
        if err:
            return sid, 'EDIT', err
        diff = subprocess.run(['git', '-C', str(copy), 'diff', '--no-color'], capture_output=True, text=True, check=True).stdout
        n, bad = original_lines_only(copy, diff)
        if bad or not n:
            return sid, 'LINES', f'{n} original lines changed, not original: {bad}'
        work = d / 'out'
        work.mkdir()
        (work / 'demo.py').write_text("import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom lab import *\n\n" + s['demo'])
        (work / 'lab.py').write_text(lab_source())
        (work / 'demo.sh').write_text(f'#!/bin/bash\nexec {PY} -B "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
        (work / 'demo.sh').chmod(0o755)
        rc0, o0 = demo_run(work, str(REPO))
        if rc0:
            return sid, 'DEMO-UNCHANGED', o0
        rc1, o1 = demo_run(work, str(copy))
        if rc1 == 0:
            return sid, 'DEMO-CHANGED', 'demo passes with the patch'
        if 'SyntaxError' in o1 and 'FAILED' not in o1:
            return sid, 'SYNTAX', o1
        good = run_tests(copy, str(d / 'junit.xml'))
        base = run_tests_base()
        if base - good:
            return sid, 'TESTS', f'broken tests: {sorted(base - good)[:4]}'
        (work / 'patch.diff').write_text(diff)
        (work / 'meta.json').write_text(json.dumps(dict(property=s['pid'], needs=s['needs'], what_it_breaks=s['breaks']), indent=1) + '\n')
        out.mkdir(parents=True, exist_ok=True)
        for x in work.iterdir():
            shutil.copy(x, out / x.name)
        res = 'ok'
        if detect:
            r = subprocess.run(['./run.sh', s['pid'], 'quick'], cwd=detect, capture_output=True, text=True,
                               env=dict(os.environ, MC_REPO=str(copy), VERIF_SEED='1'), timeout=1800)
            caught = r.returncode == 1 and f"VIOLATION property={s['pid']}" in r.stdout
            res = 'CAUGHT' if caught else f'MISSED rc={r.returncode}'
        return sid, res, o1.strip().split('\n')[-1][:200]
    finally:
        shutil.rmtree(d, ignore_errors=True)


_BASE = None


def run_tests_base():
    global _BASE
    if _BASE is None:
        with tempfile.TemporaryDirectory() as t:
            _BASE = run_tests(REPO, f'{t}/junit.xml')
    return _BASE


def main(argv):
    flags = {a for a in argv if a.startswith('--')}
    want = [a for a in argv if not a.startswith('--')]
    for f in sorted((VERIF / 'tools/seeds').glob('*.py')):
        ns = dict(seed=seed)
        exec(compile(f.read_text(), str(f), 'exec'), ns)
    ids = [i for i in SEEDS if not want or any(i == w or SEEDS[i]['pid'].lower() == w.lower() or i.startswith(w) for w in want)]
    detect = None
    tmp = None
    if '--detect' in flags:
        tmp = Path(tempfile.mkdtemp(prefix='verif-copy-', dir='/tmp'))
        for x in ('mc', 'run.sh', 'known_findings.json'):
            subprocess.run(['cp', '-a', str(VERIF / x), str(tmp / x)], check=True)
        detect = str(tmp)
    run_tests_base()
    bad = 0
    try:
        for i in ids:
            sid, res, msg = plant(i, detect)
            print(f'{sid:34s} {res:16s} {msg}', flush=True)
            bad += res not in ('ok', 'CAUGHT')
    finally:
        if tmp is not None:
            shutil.rmtree(tmp, ignore_errors=True)
    return bad


if __name__ == '__main__':
    sys.exit(1 if main(sys.argv[1:]) else 0)
