"""Runs cases in the driver and gives back their traces."""
import os, shutil, struct, subprocess, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor
from . import build as B

NPROC = int(os.environ.get('VT_JOBS', '8'))


class HarnessError(Exception):
    pass


_safe = set(b'!#$&\'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}')
_tab = [chr(i) if i in _safe else '%%%02X' % i for i in range(256)]


def esc(s):
    if isinstance(s, str):
        s = s.encode('utf-8')
    if not s:
        return '~'
    return ''.join([_tab[b] for b in s])


def unesc(s):
    out = bytearray()
    i = 0
    b = s.encode('latin-1')
    while i < len(b):
        if b[i] == 37:
            out.append(int(b[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(b[i])
            i += 1
    return bytes(out)


def f2hex(d):
    return '%016x' % struct.unpack('<Q', struct.pack('<d', d))[0]


def cmd(*toks):
    return ' '.join(t if isinstance(t, str) and t.isalnum() else esc(t if isinstance(t, (str, bytes)) else str(t))
                    for t in toks)


class Case:
    __slots__ = ('id', 'cmds', 'meta')

    def __init__(self, cmds=None, meta=None):
        self.id = None
        self.cmds = cmds if cmds is not None else []
        self.meta = meta

    def add(self, *toks):
        self.cmds.append(cmd(*toks))
        return self

    def text(self):
        return 'case %s\n%s\nendcase\n' % (self.id, '\n'.join(self.cmds)) if self.cmds else \
            'case %s\nendcase\n' % self.id


class Result:
    __slots__ = ('id', 'lines', 'end', 'stderr')

    def __init__(self, id):
        self.id = id
        self.lines = []
        self.end = None
        self.stderr = []

    @property
    def clean(self):
        return self.end == 'exit 0'

    def monitor(self):
        for l in self.lines:
            if l.startswith('MONITOR '):
                return l[8:]
        return None

    def why(self):
        """A one-line description of an unclean end."""
        m = self.monitor()
        if m:
            return 'monitor: ' + m
        for l in self.stderr:
            if 'ERROR: AddressSanitizer' in l or 'runtime error' in l or 'Assertion' in l or 'WARNING: MemorySanitizer' in l \
                    or 'WARNING: ThreadSanitizer' in l:
                return l.strip()[:300]
        for l in self.lines:
            if l.startswith('HARNESS-ERROR') or l == 'TRACE-FULL':
                return 'unexpected course of the case: ' + l
        if self.end in ('sig 24', 'sig 9', 'sig 14'):
            return 'does not terminate (%s)' % self.end
        return 'ended with %s: %s' % (self.end, ' | '.join(self.stderr)[:300])


ENV = dict(os.environ)
ENV['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=1:symbolize=0:handle_abort=0:allocator_may_return_null=0:detect_stack_use_after_return=0:quarantine_size_mb=16'
ENV['UBSAN_OPTIONS'] = 'print_stacktrace=0:abort_on_error=1:symbolize=0'
ENV['MSAN_OPTIONS'] = 'abort_on_error=1:symbolize=0'
ENV['TSAN_OPTIONS'] = 'halt_on_error=1:abort_on_error=0:exitcode=66:symbolize=1:history_size=4'


def _parse(path, want):
    res = []
    cur = None
    done = False
    with open(path, 'r', encoding='latin-1', newline='\n') as f:
        for line in f:
            line = line.rstrip('\n')
            if cur is None:
                if line.startswith('case '):
                    cur = Result(line[5:])
                elif line == 'alldone':
                    done = True
                continue
            if line.startswith('end '):
                cur.end = line[4:]
                if cur.lines and cur.lines[-1] == 'finished':
                    cur.lines.pop()
                    if cur.end != 'exit 0':
                        cur.stderr.append('ended after the case was finished')
                elif cur.end == 'exit 0':
                    cur.end = 'exit 0 early'
                res.append(cur)
                cur = None
            elif line.startswith('stderr '):
                cur.stderr.append(line[7:])
            elif line:
                cur.lines.append(line)
    if not done or len(res) != want:
        raise HarnessError('driver output incomplete: %d of %d cases' % (len(res), want))
    return res


def _batch(exe, cases, cpu, tmproot):
    d = tempfile.mkdtemp(dir=tmproot)
    try:
        inp = os.path.join(d, 'cases')
        outp = os.path.join(d, 'out')
        with open(inp, 'w', encoding='latin-1', newline='\n') as f:
            for c in cases:
                f.write(c.text())
        w = os.path.join(d, 'w')
        os.mkdir(w)
        r = subprocess.run([exe, inp, outp, str(cpu)], cwd=w, env=ENV, stdin=subprocess.DEVNULL,
                           stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        if r.returncode != 0:
            raise HarnessError('driver failed with %d: %s' % (r.returncode, r.stderr[-2000:].decode(errors='replace')))
        return _parse(outp, len(cases))
    finally:
        shutil.rmtree(d, ignore_errors=True)


_tmproot = None


def tmproot():
    global _tmproot
    if _tmproot is None:
        base = os.path.join(B.BUILD, 'tmp')
        os.makedirs(base, exist_ok=True)
        _tmproot = tempfile.mkdtemp(dir=base, prefix='run%d-' % os.getpid())
        import atexit
        atexit.register(lambda: shutil.rmtree(_tmproot, ignore_errors=True))
    return _tmproot


HANG = ('sig 24', 'sig 9', 'sig 14')


def run_batch(exe, cases, cpu=8):
    """Runs the cases one after the other; returns their results in order. A case that seems not to
    terminate is run again alone with more time. Results of cases that were skipped because others
    before them did not terminate are None."""
    if not cases:
        return []
    for i, c in enumerate(cases):
        c.id = str(i)
    root = tmproot()
    res = []
    todo = cases
    while todo:
        part = _batch(exe, todo, cpu, root)
        confirmed = False
        for k, (c, r) in enumerate(zip(todo, part)):
            if r.id != c.id:
                raise HarnessError('case order')
            if r.end in HANG and not confirmed:
                r2 = _batch(exe, [c], cpu * 3, root)[0]
                if r2.end in HANG:
                    confirmed = True
                else:
                    part[k] = r2
        n = len(part)
        while n and part[n - 1].end == 'skipped':
            n -= 1
        res += part[:n]
        todo = todo[n:]
        if confirmed:
            res += [None] * len(todo)
            break
    return res


def run_cases(exe, cases, cpu=8, chunk=None):
    """Runs the cases (in parallel); returns their results in order."""
    if not cases:
        return []
    if chunk is None:
        chunk = max(1, min(64, (len(cases) + NPROC * 2 - 1) // (NPROC * 2)))
    groups = [cases[i:i + chunk] for i in range(0, len(cases), chunk)]
    tmproot()
    with ThreadPoolExecutor(NPROC) as ex:
        outs = list(ex.map(lambda g: run_batch(exe, g, cpu), groups))
    return [r for o in outs for r in o]
