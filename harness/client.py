"""Parent-side handle of a (possibly multi-rank) worker."""
import os, pickle, signal, socket, struct, subprocess, sys, tempfile, time, select, shutil
from worker_proto import recv_timeout, send
HERE = os.path.dirname(os.path.abspath(__file__))
import build as B

PY = '/opt/veriftools/pyvenv/bin/python3'
if not os.path.exists(PY):
    PY = sys.executable


class Worker:
    def __init__(self, so, np_=1, asan=False, recycle=150, timeout=120, lazy=False, env=None):
        self.so, self.np, self.asan, self.recycle, self.timeout, self.lazy = so, np_, asan, recycle, timeout, lazy
        self.env = env or {}
        self.proc = None
        self.count = 0
        self.restarts = 0

    def start(self):
        self.stop()
        self.dir = tempfile.mkdtemp(prefix='tdyw-')
        path = os.path.join(self.dir, 's')
        ls = socket.socket(socket.AF_UNIX)
        ls.bind(path)
        ls.listen(self.np)
        e = B.env()
        e['TMPDIR'] = self.dir
        e['PYTHONDONTWRITEBYTECODE'] = '1'
        e['OPENBLAS_NUM_THREADS'] = '1'
        e['PYTHONHASHSEED'] = '0'
        e.update(self.env)
        cmd = [PY, os.path.join(HERE, 'worker.py'), self.so, path]
        if self.asan:
            e['PETSC_OPTIONS'] = (e.get('PETSC_OPTIONS', '') + ' -malloc_debug 0').strip()
            e['LD_PRELOAD'] = subprocess.run(['gcc', '-print-file-name=libasan.so'], capture_output=True, text=True).stdout.strip()
            e['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=77:log_path=%s/asan:handle_segv=1:allocator_may_return_null=1' % self.dir
        if self.np > 1:
            pre = []
            if self.asan:
                pre = ['-x', 'LD_PRELOAD', '-x', 'ASAN_OPTIONS']
            cmd = ['mpiexec', '--oversubscribe', '-n', str(self.np)] + pre + cmd
        self.cwd = os.path.join(self.dir, 'cwd')
        os.mkdir(self.cwd)
        out = None if os.environ.get('TDY_WORKER_OUT') else subprocess.DEVNULL
        self.proc = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=out, stderr=out, env=e, cwd=self.cwd,
                                     start_new_session=True)
        self.conns = [None] * self.np
        ls.settimeout(60)
        for _ in range(self.np):
            c, _a = ls.accept()
            h = recv_timeout(c, 60)
            self.conns[h[1]] = c
        ls.close()
        self.count = 0

    def stop(self):
        if self.proc is not None:
            for c in self.conns:
                if c is not None:
                    c.close()
            try:
                self.proc.wait(timeout=0.3 if self.np == 1 else 3)
            except subprocess.TimeoutExpired:
                pass
            try:
                os.killpg(self.proc.pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
            self.proc.wait()
            shutil.rmtree(self.dir, ignore_errors=True)
            self.proc = None

    def run(self, mod, fun, case):
        """returns obs (dict); for np>1 a dict {'ranks': [obs...]}; crashes -> {'_crash':...}, hangs -> {'_hang':True}"""
        if self.proc is None or self.count >= self.recycle:
            self.start()
            self.restarts += 1
        self.count += 1
        try:
            for c in self.conns:
                send(c, (mod, fun, case, self.lazy))
        except OSError:
            pass
        res = []
        t_end = time.time() + self.timeout
        bad = None
        for r, c in enumerate(self.conns):
            try:
                o = recv_timeout(c, max(0.1, t_end - time.time()))
            except TimeoutError:
                bad = {'_hang': True, 'rank': r}
                break
            if o is None:
                time.sleep(0.05)
                rc = None
                if self.np == 1:
                    try:
                        rc = self.proc.wait(timeout=5)
                    except subprocess.TimeoutExpired:
                        rc = None
                msg = ''
                for f in sorted(os.listdir(self.dir)):
                    if f.startswith('asan'):
                        with open(os.path.join(self.dir, f), errors='replace') as fh:
                            msg = fh.read()[:6000]
                bad = {'_crash': rc if rc is not None else -1, 'rank': r, 'asan': msg}
                break
            res.append(o)
        if bad is not None:
            self.stop()
            return bad
        if any(isinstance(o, dict) and (o.get('_err') or o.get('_exc') or o.get('_recycle')) for o in res):
            self.count = self.recycle   # state may be inconsistent after an error: fresh process next time
        if self.np == 1:
            return res[0]
        for o in res:
            for k in ('_err', '_exc'):
                if k in o:
                    return {k: o[k], 'ranks': res}
        return {'ranks': res}
