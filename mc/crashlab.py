"""Runs operations of the code under test in processes which end, fail or pause at a chosen change of a file (see native/crash.c).

A Lab is a preloaded Python process which has imported the code and forks for every operation; a Web serves a folder on the loopback network.
"""
import ctypes, json, os, subprocess, sys, time
from pathlib import Path
from . import env

COUNT, CRASH, FAIL, PAUSE, HALF = range(5)


def library():
    """The preloaded library, made once"""
    so = env.SCRATCH / 'crash.so'
    if not so.exists():
        subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-o', f'{so}.{os.getpid()}', str(Path(__file__).parent / 'native' / 'crash.c'), '-ldl'], check=True, capture_output=True)
        os.rename(f'{so}.{os.getpid()}', so)
    return so


class Web:
    """A server for the files of a folder, which ends with this process.  Below /fault/status/Nk/ all requests get the status N with no, some other or the right text, below /fault/cut/N/ only N bytes"""
    def __init__(self, folder):
        folder.mkdir(parents=True, exist_ok=True)
        self.process = subprocess.Popen([sys.executable, '-c', WEB, str(folder)], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        self.port = int(self.process.stdout.readline())

    def close(self):
        self.process.stdin.close()
        self.process.wait(10)


WEB = '''
import os, sys, threading, functools
from http.server import ThreadingHTTPServer, SimpleHTTPRequestHandler
class H(SimpleHTTPRequestHandler):
    def log_message(self, *a): pass
    def do_GET(self):
        if not self.path.startswith('/fault/'):
            return super().do_GET()
        _, _, kind, n, rest = self.path.split('/', 4)
        file = os.path.join(sys.argv[1], rest)
        body = open(file, 'rb').read() if os.path.isfile(file) else b''
        if kind == 'status':
            body = [b'', b'Try again\\nmuch later\\n', body][int(n) % 10 % 3]
            self.send_response(int(n) // 10)
        else:
            self.send_response(200)
        self.send_header('Content-Type', 'text/plain')
        self.send_header('Content-Length', str(len(body)))
        self.end_headers()
        self.wfile.write(body[:int(n)] if kind == 'cut' else body)
s = ThreadingHTTPServer(('127.0.0.1', 0), functools.partial(H, directory=sys.argv[1]))
s.daemon_threads = True
threading.Thread(target=s.serve_forever, daemon=True).start()
print(s.server_port, flush=True)
sys.stdin.read()
'''


class Lab:
    def __init__(self, module):
        """module.PERFORM[name](**arguments) are the operations; they give something for JSON"""
        e = dict(os.environ, LD_PRELOAD=str(library()), MC_REPO=str(env.REPO), MC_LAB=str(env.SCRATCH), NO_PROXY='*', no_proxy='*')
        self.process = subprocess.Popen([sys.executable, '-B', '-c', f'import sys; sys.path.insert(0, {str(env.VERIF)!r})\nfrom mc import crashlab; crashlab.serve({module!r})'],
                                        stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=e)

    def ask(self, *jobs, order=()):
        """Run jobs dict(perform, arguments, environ, folder, mode, at, part, error); give dict(code, result, error, count, log) for each.
        order: indices of jobs, each to go on until it pauses or ends; afterwards all go on to their end in their order"""
        self.process.stdin.write(json.dumps([jobs, order]) + '\n')
        self.process.stdin.flush()
        line = self.process.stdout.readline()
        if not line:
            raise RuntimeError('the lab process ended')
        return json.loads(line)

    def close(self):
        self.process.stdin.close()
        self.process.wait(10)


# ---- in the lab process

def serve(module):
    import importlib
    env.SCRATCH = Path(os.environ['MC_LAB'])
    sys.path.insert(0, str(env.REPO / 'src'))
    out = os.fdopen(os.dup(1), 'w')
    null = os.open(os.devnull, os.O_RDWR)
    os.dup2(null, 1)
    os.dup2(null, 2)
    from loguru import logger
    logger.remove()
    perform = importlib.import_module(module).PERFORM
    for prepare in perform.get('prepare', ()):
        prepare()
    lib = ctypes.CDLL(None)
    lib.mc_log.restype = ctypes.c_char_p
    lib.mc_count.restype = ctypes.c_long
    for line in sys.stdin:
        jobs, order = json.loads(line)
        started = [Job(perform, lib, j) for j in jobs]
        for k in order:
            started[k].go_on()
        out.write(json.dumps([j.finish() for j in started]) + '\n')
        out.flush()


class Job:
    def __init__(self, perform, lib, job):
        self.perform, self.lib, self.job, self.pid, self.ended, self.text = perform, lib, job, None, False, b''

    def start(self):
        told_r, told_w = os.pipe()
        wait_r, wait_w = os.pipe()
        res_r, res_w = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            for fd in (told_r, wait_w, res_r):
                os.close(fd)
            self.child(told_w, wait_r, res_w)
        for fd in (told_w, wait_r, res_w):
            os.close(fd)
        self.told, self.wait, self.res = told_r, wait_w, res_r

    def child(self, told, wait, res):
        job, lib = self.job, self.lib
        got = dict(result=None, error=None)
        try:
            os.environ.update(job.get('environ', {}))
            if job.get('cwd'):
                os.chdir(job['cwd'])
            ops = job.get('at', [])
            lib.mc_arm(job['folder'].encode(), job.get('mode', COUNT), (ctypes.c_long * max(1, len(ops)))(*ops), ctypes.c_long(len(ops)),
                       ctypes.c_long(job.get('part', 0)), job.get('error', 28), told, wait)
            try:
                got['result'] = self.perform[job['perform']](**job['arguments'])
            except SystemExit as e:
                got['error'] = f'SystemExit: {e}'
            except Exception as e:
                got['error'] = f'{type(e).__name__}: {e}'[:300]
            lib.mc_disarm()
            got['count'] = lib.mc_count()
            got['log'] = lib.mc_log().decode(errors='replace')
            data = json.dumps(got).encode()
            while data:
                data = data[os.write(res, data):]
            os._exit(0)
        finally:
            os._exit(98)

    def go_on(self):
        """Until the next pause, or the end"""
        if self.pid is None:
            self.start()
        elif not self.ended:
            try:
                os.write(self.wait, b'g')
            except BrokenPipeError:
                pass
        if not self.ended and not os.read(self.told, 1):
            self.ended = True

    def finish(self):
        if self.pid is None:
            self.start()
        if not self.ended:
            self.drain()  # all pauses which are left
        while True:
            b = os.read(self.res, 65536)
            if not b:
                break
            self.text += b
        _, status = os.waitpid(self.pid, 0)
        for fd in (self.told, self.wait, self.res):
            os.close(fd)
        got = json.loads(self.text) if self.text else dict(result=None, error=None)
        got['code'] = os.waitstatus_to_exitcode(status)
        return got

    def drain(self):
        if self.job.get('mode', COUNT) != PAUSE:
            return
        try:
            os.write(self.wait, b'g' * 16)
        except BrokenPipeError:
            pass
