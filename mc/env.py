"""Offline environment for the code under test: everything it may write lives in one scratch directory.

Importing mccode_antlr.reader asks a git repository for its tags and reads cached file lists.  The project's own
configuration variables point both at a throw-away local repository and empty lists.
"""
import os, sys, tempfile, subprocess, shutil, atexit
from pathlib import Path

REPO = Path(os.environ.get('MC_REPO', '/repo')).resolve()
VERIF = Path(__file__).resolve().parent.parent
SCRATCH = None


def _git(*args, stdin=None):
    env = dict(os.environ, GIT_CONFIG_GLOBAL='/dev/null', GIT_CONFIG_SYSTEM='/dev/null')
    return subprocess.run(['git', *args], check=True, capture_output=True, text=True, input=stdin, env=env).stdout.strip()


def bootstrap():
    global SCRATCH
    if SCRATCH is not None:
        return SCRATCH
    SCRATCH = Path(tempfile.mkdtemp(prefix='mcverif-'))
    owner = os.getpid()

    def cleanup():
        if os.getpid() == owner:
            shutil.rmtree(SCRATCH, ignore_errors=True)
    atexit.register(cleanup)
    bare = SCRATCH / 'empty.git'
    _git('init', '-q', '--bare', '-b', 'main', str(bare))
    tree = _git('-C', str(bare), 'mktree', stdin='')
    commit = _git('-C', str(bare), '-c', 'user.name=v', '-c', 'user.email=v@localhost', 'commit-tree', tree, '-m', 'empty')
    _git('-C', str(bare), 'tag', 'v0.0.0', commit)
    os.environ['XDG_CACHE_HOME'] = str(SCRATCH / 'cache')
    os.environ['XDG_CONFIG_HOME'] = str(SCRATCH / 'config')
    os.environ['HOME'] = str(SCRATCH)
    os.environ['MCCODEANTLR_MCCODE_POOCH__REGISTRY'] = str(bare)
    os.environ['MCCODEANTLR_MCCODE_POOCH__TAG'] = 'v0.0.0'
    (SCRATCH / 'config').mkdir()
    (SCRATCH / 'work').mkdir()
    for n in ('mcstas', 'mcxtrace', 'libc'):
        d = SCRATCH / 'cache' / 'mccode_antlr' / n / 'v0.0.0'
        d.mkdir(parents=True)
        (d / f'{n}-registry.txt').touch()
    sys.path.insert(0, str(REPO / 'src'))
    os.chdir(SCRATCH / 'work')
    try:
        from loguru import logger
        logger.remove()
    except ImportError:
        pass
    return SCRATCH
