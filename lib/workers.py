"""Driver side of worker.py: start the backends, talk to them."""
import json
import os
import resource
import selectors
import signal
import subprocess
import tempfile
import time

import build as B
from layout import scratch

HERE = os.path.dirname(os.path.abspath(__file__))
WORKER = os.path.join(HERE, 'worker.py')


class WorkerDied(Exception):
    """The interpreter running the code under test crashed"""


class WorkerHang(Exception):
    pass


class HarnessError(Exception):
    pass


_asan = None


def asan_lib():
    global _asan
    if _asan is None:
        _asan = subprocess.check_output(['gcc', '-print-file-name=libasan.so']).decode().strip()
    return _asan


class Worker(object):
    """backend: 'pyx' | 'pure' (CPython) | 'pypy' | 'asan'"""

    def __init__(self, backend, plugins=(), memory=3 << 30):
        self.backend = backend
        variant = {'pypy': 'pure'}.get(backend, backend)
        self.root = B.build((variant,))[variant]
        self.plugins = plugins
        self.memory = memory
        self.p = None
        self.loaded = set()
        self.calls = 0

    def start(self):
        env = {'PATH': os.environ.get('PATH', '/usr/bin:/bin'), 'HOME': '/root', 'LANG': 'C.UTF-8',
               'LC_ALL': 'C.UTF-8', 'PYTHONPATH': self.root, 'PYTHONHASHSEED': '0',
               'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONWARNINGS': 'ignore', 'TMPDIR': scratch(),
               'VERIF_PLUGINS': ':'.join(self.plugins)}
        py = B.PYPY if self.backend == 'pypy' else B.VENV
        if self.backend == 'asan':
            env.update(LD_PRELOAD=asan_lib(), PYTHONMALLOC='malloc',
                       ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:'
                                    'max_allocation_size_mb=3000:abort_on_error=1:'
                                    'quarantine_size_mb=64')
        mem = None if self.backend == 'asan' else self.memory

        def limits():
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if self.backend == 'asan':
                # the frames of the instrumented code are much bigger
                hard = resource.getrlimit(resource.RLIMIT_STACK)[1]
                want = 512 << 20
                if hard != resource.RLIM_INFINITY:
                    want = min(want, hard)
                resource.setrlimit(resource.RLIMIT_STACK, (want, hard))
            if mem:
                resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        self.err = tempfile.TemporaryFile()
        self.p = subprocess.Popen([py, WORKER], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=self.err, env=env, preexec_fn=limits, cwd=scratch())
        self.buf = b''
        self.loaded = set()
        try:
            r = self._read(120)
        except WorkerDied as e:
            raise HarnessError('worker does not start: %s' % e)
        if not r.get('ready') or not r['file'].startswith(self.root):
            raise HarnessError('bad worker start: %r' % r)
        if r['pyx'] != (self.backend in ('pyx', 'asan')):
            raise HarnessError('wrong mode: %r' % r)

    def stderr_tail(self):
        try:
            self.err.seek(0, 2)
            n = self.err.tell()
            self.err.seek(max(0, n - 3000))
            return self.err.read().decode('utf-8', 'replace')
        except Exception:
            return ''

    def _read(self, timeout):
        fd = self.p.stdout.fileno()
        sel = selectors.DefaultSelector()
        sel.register(fd, selectors.EVENT_READ)
        end = time.monotonic() + timeout
        try:
            while b'\n' not in self.buf:
                if not sel.select(max(0, end - time.monotonic())):
                    if time.monotonic() >= end:
                        raise WorkerHang()
                    continue
                chunk = os.read(fd, 1 << 16)
                if not chunk:
                    rc = self.p.wait()
                    tail = self.stderr_tail()
                    self.p = None
                    why = 'signal %s' % signal.Signals(-rc).name if rc < 0 else 'exit code %d' % rc
                    raise WorkerDied('%s worker: %s%s' % (self.backend, why,
                                                          '\n' + tail if tail else ''))
                self.buf += chunk
        finally:
            sel.close()
        line, self.buf = self.buf.split(b'\n', 1)
        return json.loads(line)

    def cpu(self):
        try:
            with open('/proc/%d/stat' % self.p.pid) as f:
                x = f.read().rsplit(')', 1)[1].split()
            return (int(x[11]) + int(x[12])) / os.sysconf('SC_CLK_TCK')
        except Exception:
            return 0.0

    def _send(self, msg, timeout):
        if self.p is None:
            self.start()
        data = json.dumps(msg).encode() + b'\n'
        try:
            self.p.stdin.write(data)
            self.p.stdin.flush()
        except BrokenPipeError:
            pass
        c0 = self.cpu()
        try:
            return self._read(timeout)
        except WorkerHang:
            used = self.cpu() - c0
            self.kill()
            raise WorkerHang('%s worker: no answer after %ds (%.0fs of CPU)'
                             % (self.backend, timeout, used))

    def load(self, spec, timeout=120):
        """-> None or [exception...]"""
        if self.p is not None and spec['key'] in self.loaded:
            return None
        clear = len(self.loaded) >= 50
        if clear:
            self.loaded.clear()
        r = self._send({'load': spec, 'clear': clear}, timeout)
        if 'harness' in r:
            raise HarnessError(r['harness'])
        if 'exc' in r:
            return r['exc']
        self.loaded.add(spec['key'])
        return None

    def run(self, prog, timeout=60):
        self.calls += 1
        r = self._send({'prog': prog}, timeout)
        if 'harness' in r:
            raise HarnessError(r['harness'])
        return r['v']

    def kill(self):
        if self.p is not None:
            try:
                self.p.kill()
                self.p.wait()
            except Exception:
                pass
            self.p = None
        self.loaded = set()

    close = kill
