"""Writes seeded/<id>/ from a specification (a Python file which calls bug(...)) and tries it out:
   plant.py SPEC.py [id...]         writes and tests
   plant.py --test [id...]          tests what is in seeded/
A bug counts when the demonstration passes on /repo and fails with the change, and the 30 tests pass with it."""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, 'seeded')
BASE = '5bc85fa'
BUGS = []


def bug(id, prop, needs, breaks, edits, demo, flags='-fsanitize=address,undefined -fno-sanitize=signed-integer-overflow,shift,leak'):
    BUGS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, flags=flags))


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


def copy():
    d = tempfile.mkdtemp(prefix='plant-', dir='/tmp')
    for e in ('tiny', 'test'):
        shutil.copytree('/repo/' + e, d + '/' + e)
    sh(['git', 'init', '-q'], cwd=d)
    return d


def write(b):
    d = copy()
    try:
        out = []
        for f in sorted({e[0] for e in b['edits']}):
            p = os.path.join(d, f)
            text = open(p).read()
            new = text
            for ef, old, rep in b['edits']:
                if ef == f:
                    assert new.count(old) == 1, (b['id'], f, new.count(old), old)
                    new = new.replace(old, rep)
            open(p + '.new', 'w').write(new)
            r = sh(['diff', '-u', '--label', 'a/' + f, '--label', 'b/' + f, p, p + '.new'])
            out.append(r.stdout)
        o = os.path.join(SEEDED, b['id'])
        os.makedirs(o, exist_ok=True)
        open(o + '/patch.diff', 'w').write(''.join(out))
        open(o + '/demo.c', 'w').write('#include "demo.h"\n' + b['demo'])
        shutil.copy('/tmp/seeds/demo.h', o + '/demo.h')
        open(o + '/demo.sh', 'w').write(open('/tmp/seeds/demo.sh').read().replace('@FLAGS@', b['flags']).replace('  ', ' '))
        os.chmod(o + '/demo.sh', 0o755)
        json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
                  open(o + '/meta.json', 'w'), indent=1)
    finally:
        shutil.rmtree(d)


def original_lines(id):
    """Every line the patch removes is one of the original repository's."""
    diff = open(os.path.join(SEEDED, id, 'patch.diff')).read()
    f = None
    bad = []
    removed = 0
    for l in diff.splitlines():
        if l.startswith('--- a/'):
            f = l[6:]
        m = re.match(r'@@ -(\d+)', l)
        if m:
            n = int(m.group(1))
            continue
        if f is None or l.startswith(('---', '+++')):
            continue
        if l.startswith('-'):
            removed += 1
            r = sh(['git', '-C', '/repo', 'blame', '-s', '-L', '%d,%d' % (n, n), 'HEAD', '--', f])
            if not r.stdout.startswith('^') and sh(['git', '-C', '/repo', 'merge-base', '--is-ancestor', r.stdout.split()[0].lstrip('^'), BASE]).returncode:
                bad.append('%s:%d %s' % (f, n, l))
            n += 1
        elif l.startswith('+'):
            pass
        else:
            n += 1
    return removed, bad


def test(id):
    o = os.path.join(SEEDED, id)
    msgs = []
    prop = json.load(open(o + '/meta.json'))['property']
    removed, bad = original_lines(id)
    if bad or not removed:
        msgs.append('NOT ORIGINAL LINES %d %s' % (removed, bad))
    d = copy()
    try:
        r = sh(['bash', o + '/demo.sh'], cwd=d)
        if r.returncode:
            msgs.append('DEMO FAILS UNCHANGED: ' + r.stdout[-600:])
        r = sh(['git', 'apply', o + '/patch.diff'], cwd=d)
        if r.returncode:
            msgs.append('DOES NOT APPLY ' + r.stdout)
        r = sh(['bash', o + '/demo.sh'], cwd=d)
        if r.returncode == 0:
            msgs.append('DEMO PASSES WITH CHANGE')
        elif r.returncode == 2:
            msgs.append('DEMO DOES NOT BUILD ' + r.stdout[-1000:])
        demo = r.stdout.strip().splitlines()[:1]
        os.makedirs(d + '/b')
        r = sh('gcc -g -w -D_GNU_SOURCE -Itest/include -Itiny/include tiny/src/*.c test/src/*.c -o b/t -lm && cd test && timeout 60 ../b/t',
               shell=True, cwd=d)
        m = re.findall(r'(ALL TESTS PASSED|SOME TESTS FAILED) \((\S+)\)', r.stdout)
        if r.returncode or not m or m[-1][0] != 'ALL TESTS PASSED':
            msgs.append('TESTS FAIL: ' + r.stdout[-300:])
        if '--nocheck' not in sys.argv:
            env = dict(os.environ, VT_REPO=d, VT_JOBS='4')
            r = sh([sys.executable, 'check.py', prop, 'quick'], cwd=VERIF, env=env)
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            res = 'caught (%d)' % len(v) if r.returncode == 1 and v else 'MISSED rc=%d %s' % (r.returncode, r.stdout[-300:])
        else:
            res = '-'
        return id, prop, msgs, res, demo
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    args = [a for a in sys.argv[1:] if a != '--nocheck']
    if args[0] == '--test':
        ids = args[1:] or sorted(os.listdir(SEEDED))
    else:
        exec(compile(open(args[0]).read(), args[0], 'exec'))
        sel = [b for b in BUGS if not args[1:] or b['id'] in args[1:]]
        for b in sel:
            write(b)
        ids = [b['id'] for b in sel]
    with ThreadPoolExecutor(3) as ex:
        for id, prop, msgs, res, demo in ex.map(test, ids):
            print(id, prop, res, 'OK' if not msgs else '*** ' + ' | '.join(msgs), demo if not msgs else '', flush=True)
