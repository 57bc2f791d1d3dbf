"""Builds the driver together with the library sources of /repo's working tree."""
import glob, hashlib, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VT_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
HARNESS = os.path.join(VERIF, 'harness')

BIG = ['-DTINY_THREAD_STACK_SIZE=16384', '-DTINY_THREAD_MAX_CALL_DEPTH=2048']
SAN = ['-O1', '-g1', '-fno-omit-frame-pointer', '-fwrapv']
ASAN = SAN + ['-fsanitize=address,undefined', '-fno-sanitize=signed-integer-overflow,shift',
              '-fno-sanitize-recover=all']
VARIANTS = {
    # name: (compiler, flags, link flags)
    'asan': ('clang', ASAN + BIG),
    'asan_lim': ('clang', ASAN),
    'fast': ('gcc', ['-O2', '-g1'] + BIG),
    'fast_lim': ('gcc', ['-O2', '-g1']),
    'o0': ('gcc', ['-O0', '-g1'] + BIG),
    'msan': ('clang', SAN + ['-fsanitize=memory', '-fsanitize-memory-track-origins=1', '-fno-sanitize-recover=all'] + BIG),
    'tsan': ('clang', ['-O0' if x == '-O1' else x for x in SAN] + ['-fsanitize=thread'] + BIG),
    'cov': ('clang', ['-O0', '-g1', '-fprofile-instr-generate', '-fcoverage-mapping'] + BIG),
}


def lib_sources():
    return sorted(glob.glob(os.path.join(REPO, 'tiny/src/*.c')))


def _tree_hash(extra):
    h = hashlib.sha256()
    files = sorted(glob.glob(os.path.join(REPO, 'tiny/src/*')) + glob.glob(os.path.join(REPO, 'tiny/include/*'))
                   + glob.glob(os.path.join(HARNESS, '*')))
    for f in files:
        if os.path.isfile(f):
            h.update(f.encode())
            with open(f, 'rb') as fh:
                h.update(fh.read())
            h.update(b'\0')
    h.update(repr(extra).encode())
    return h.hexdigest()[:16]


class BuildError(Exception):
    pass


def _run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise BuildError(' '.join(cmd) + '\n' + r.stdout.decode(errors='replace')[-4000:])


def build(variant='asan', main='vt.c', extra=()):
    """Returns the path of the driver binary for this variant, building it if need be."""
    cc, flags = VARIANTS[variant]
    flags = list(flags) + list(extra)
    key = _tree_hash((variant, cc, flags, main))
    d = os.path.join(BUILD, 'bin', '%s-%s' % (variant, key))
    exe = os.path.join(d, main.split('.')[0])
    if os.path.exists(exe):
        try:
            os.utime(d)         # in use
        except OSError:
            pass
        return exe
    tmp = d + '.tmp%d' % os.getpid()
    os.makedirs(tmp, exist_ok=True)
    inc = ['-D_GNU_SOURCE', '-w', '-I', os.path.join(REPO, 'tiny/include'), '-I', os.path.join(REPO, 'tiny/src'),
           '-I', HARNESS]
    jobs = []
    objs = []
    for s in lib_sources():
        o = os.path.join(tmp, 'lib_' + os.path.basename(s) + '.o')
        objs.append(o)
        jobs.append([cc, '-c'] + flags + ['-include', os.path.join(HARNESS, 'guard.h')] + inc + [s, '-o', o])
    o = os.path.join(tmp, 'main.o')
    objs.append(o)
    jobs.append([cc, '-c'] + flags + inc + [os.path.join(HARNESS, main), '-o', o])
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(_run, jobs))
    _run([cc] + flags + objs + ['-o', os.path.join(tmp, main.split('.')[0]), '-lm', '-lpthread'])
    try:
        os.rename(tmp, d)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    _prune()
    return exe


def build_all(variants):
    """Builds several variants side by side."""
    with ThreadPoolExecutor(3) as ex:
        return list(ex.map(build, variants))


def _prune(keep=40):
    d = os.path.join(BUILD, 'bin')
    try:
        ents = sorted((os.path.getmtime(os.path.join(d, e)), e) for e in os.listdir(d) if '.tmp' not in e)
    except OSError:
        return
    for at, e in ents[:-keep]:
        if at > time.time() - 1800:
            break               # another check may be running it
        shutil.rmtree(os.path.join(d, e), ignore_errors=True)


if __name__ == '__main__':
    t = time.time()
    for v in sys.argv[1:] or ['asan', 'fast']:
        print(build(v), '%.1fs' % (time.time() - t))
