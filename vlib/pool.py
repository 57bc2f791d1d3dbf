"""Worker processes for the shards of a check: they may be stopped at any time, and one that dies is noticed."""
import os, pickle, select, signal, struct, sys


def _write(fd, data):
    data = struct.pack('<Q', len(data)) + data
    view = memoryview(data)
    while view:
        view = view[os.write(fd, view):]


def _read(fd, n):
    out = b''
    while len(out) < n:
        b = os.read(fd, min(n - len(out), 1 << 20))
        if not b:
            return None
        out += b
    return out


def _recv(fd):
    h = _read(fd, 8)
    if h is None:
        return None
    d = _read(fd, struct.unpack('<Q', h)[0])
    return None if d is None else pickle.loads(d)


class _Worker:
    def __init__(self, fn, close):
        jr, jw = os.pipe()
        rr, rw = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.setpgid(0, 0)
                for fd in close + [jw, rr]:
                    os.close(fd)
                while True:
                    job = _recv(jr)
                    if job is None:
                        break
                    _write(rw, pickle.dumps(fn(job[0])))
                code = 0
            except BaseException:
                pass
            finally:
                os._exit(code)
        try:
            os.setpgid(pid, pid)
        except OSError:
            pass
        os.close(jr)
        os.close(rw)
        self.pid, self.jw, self.rr, self.job = pid, jw, rr, None

    def kill(self):
        try:
            os.killpg(self.pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            os.waitpid(self.pid, 0)
        except OSError:
            pass
        os.close(self.jw)
        os.close(self.rr)


class Pool:
    """results(jobs) yields (job, result) as they come; result is None if the workers died on the job twice."""

    def __init__(self, fn, n):
        self.fn, self.n, self.workers = fn, n, []

    def _new(self):
        w = _Worker(self.fn, [x for v in self.workers for x in (v.jw, v.rr)])
        self.workers.append(w)
        return w

    def _give(self, w, job):
        w.job = job
        try:
            _write(w.jw, pickle.dumps((job,)))
        except OSError:
            pass        # noticed as the end of its results

    def results(self, jobs):
        todo = list(reversed(jobs))
        tried = {}
        for _ in range(min(self.n, len(todo))):
            self._give(self._new(), todo.pop())
        while any(w.job is not None for w in self.workers):
            fds = {w.rr: w for w in self.workers if w.job is not None}
            for fd in select.select(list(fds), [], [])[0]:
                w = fds[fd]
                job = w.job
                try:
                    r = _recv(fd)
                except (OSError, EOFError, pickle.UnpicklingError):
                    r = None
                if r is None:
                    self.workers.remove(w)
                    w.kill()
                    tried[job] = tried.get(job, 0) + 1
                    if tried[job] < 2:
                        self._give(self._new(), job)
                    else:
                        if todo:
                            self._give(self._new(), todo.pop())
                        yield job, None
                    continue
                w.job = None
                if todo:
                    self._give(w, todo.pop())
                yield job, r

    def stop(self):
        for w in self.workers:
            w.kill()
        self.workers = []
