"""Tries changes to the library against the check of the property they break, without writing them to seeded/:
   tryout.py SPEC.py [-j N] [name...]   SPEC.py calls m(property, name, (file, old, new)...)
Prints caught / MISSED, or why the change does not count (does not build, fails the repository's tests)."""
import os, re, shutil, subprocess, sys, tempfile, threading
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECS = []
SHORT = {'T': 'tiny/src/tiny.c', 'S': 'tiny/src/std.c', 'D': 'tiny/src/dict.c', 'A': 'tiny/src/array.c', 'L': 'tiny/src/lexer.c',
         'R': 'tiny/src/arena.c', 'U': 'tiny/src/util.c', 'P': 'tiny/src/pos.c', 'H': 'tiny/include/detail.h', 'I': 'tiny/include/tiny.h', 'SB': 'tiny/include/stretchy_buffer.h'}


def m(prop, name, *edits):
    SPECS.append((prop, name, edits))


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


def one(spec):
    prop, name, edits = spec
    d = tempfile.mkdtemp(prefix='try-', dir='/tmp')
    try:
        for e in ('tiny', 'test'):
            shutil.copytree('/repo/' + e, d + '/' + e)
        for e in edits:
            f, old, new = e[:3]
            p = os.path.join(d, SHORT.get(f, f))
            t = open(p).read()
            n = t.count(old)
            if len(e) > 3:        # which occurrence, from 0
                parts = t.split(old)
                k = e[3]
                if n <= k:
                    return 'SPEC %s: %d occurrences' % (old[:50], n)
                t = old.join(parts[:k + 1]) + new + old.join(parts[k + 1:])
            else:
                if n != 1:
                    return 'SPEC %s: %d occurrences' % (old[:50], n)
                t = t.replace(old, new)
            open(p, 'w').write(t)
        q = sh('gcc -g -w -D_GNU_SOURCE -Itest/include -Itiny/include tiny/src/*.c test/src/*.c -o %s/t -lm && cd test && timeout 20 %s/t' % (d, d), shell=True, cwd=d)
        mm = re.findall(r'(ALL TESTS PASSED|SOME TESTS FAILED) \((\S+)\)', q.stdout)
        if q.returncode or not mm or mm[-1][0] != 'ALL TESTS PASSED':
            return 'tests: ' + q.stdout[-150:].replace('\n', ' | ')
        q = sh([sys.executable, 'check.py', prop, 'quick'], cwd=VERIF, env=dict(os.environ, VT_REPO=d))
        if q.returncode == 1 and 'VIOLATION property=' + prop in q.stdout:
            return 'caught'
        if q.returncode == 0:
            return 'MISSED'
        return 'ODD %d %s' % (q.returncode, q.stdout[-300:])
    finally:
        shutil.rmtree(d)


def main():
    a = sys.argv[1:]
    j = 4
    if '-j' in a:
        k = a.index('-j')
        j = int(a[k + 1])
        del a[k:k + 2]
    exec(compile(open(a[0]).read(), a[0], 'exec'), dict(m=m))
    todo = [s for s in SPECS if not a[1:] or s[1] in a[1:] or s[0] in a[1:]]
    tot = {}

    def go(s):
        r = one(s)
        tot[r.split()[0]] = tot.get(r.split()[0], 0) + 1
        print('%-8s %s %s%s' % (r.split()[0], s[0], s[1], '' if ' ' not in r else '  ' + r), flush=True)
    with ThreadPoolExecutor(j) as ex:
        list(ex.map(go, todo))
    print(tot)


main()
