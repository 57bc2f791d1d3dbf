"""C18: dictionaries behave as finite maps."""
from vlib import progs, gen, lang
from vlib.core import Fam, Unit, diff
from vlib.run import Case, f2hex
from checks.c15 import hv, lang_lit, rndval

RULE = ('Random sequences of dictionary operations compared with a finite map: through the C interface and from scripts, with keys of every supported kind (integers, booleans, floats, strings of any content however '
        'made, light native values, objects), drawn from pools that collide on purpose (equal residues of every table size, equal string hashes, runs that wrap around the end of the table), growth, removal '
        'from the middle of runs, clearing, re-insertion; after each sequence every key ever used is looked up and the enumerations are compared. Distinct by operation sequence.')


NEGZERO = object()       # equal to 0.0


def samehash(r, n):
    """Strings with the same value of the usual multiplicative string hashes (h*33+c)."""
    a, b = b'ab', b'bA'
    return [b''.join(r.choice([a, b]) for _ in range(n)) for _ in range(12)]


def pool(r):
    """Keys likely to collide."""
    k = r.randrange(9)
    if k == 0:      # one residue of the table sizes
        m = r.choice([32, 64, 128, 256, 1024])
        o = r.randrange(m)
        return [o + i * m for i in range(r.choice([5, 15, 40]))]
    if k == 1:      # a run that wraps around the end of the table
        m = r.choice([32, 64, 128])
        return [m * r.randrange(3) + (m - 6 + i) % m for i in range(12)] + [i + m for i in range(4)] + [m - 1 + m * i for i in range(6)]
    if k == 2:
        return list(range(r.choice([3, 15, 16, 17, 33, 100, 300])))
    if k == 3:
        return [r.choice([-1, 1]) * r.choice([0, 1, 31, 32, 33, 1 << 31, 1 << 32, (1 << 32) + 1, 1 << 40, lang.INT_MAX, r.randrange(1 << 62)]) for _ in range(20)]
    if k == 4 and r.random() < .3:      # long, and different only far from the start
        n = r.choice([60, 101, 150, 257])
        return [b'k' * n + b'%d' % i for i in range(6)] + [b'k' * (n + i) for i in range(6)]
    if k == 4:
        return sorted(set(samehash(r, r.choice([1, 2, 4])))) + [b'', b'a', b'b']
    if k == 5:
        return [b'k%d' % i for i in range(r.choice([5, 20, 60, 200]))]
    if k == 6:
        return [float(i) / r.choice([1, 4]) for i in range(10)] + [-1.5, 1e300, 0.1] + [i for i in range(5)] + [True, False] + [b'0', b'1', b'true']
    if k == 7:
        return [bytes(r.randrange(0, 256) for _ in range(r.randrange(0, 4))) for _ in range(30)] + [b'\0', b'\0\0', b'', b'a\0', b'a\0b', b'a\0c', b'a']
    m = r.choice([4, 8])
    return [i * 32 + j for i in range(m) for j in range(3)] + [True, False, 1.0, b'x']


def uniq(keys):
    out, seen = [], set()
    for k in keys:
        if lang.dkey(k) not in seen:
            seen.add(lang.dkey(k))
            out.append(k)
    return out


def p_capi(ctx):
    r = ctx.rng
    c = Case(gen.setup())
    c.add('compile', 0, 'm', 'x := 1')
    progs.begin(c)
    c.add('run', 0)
    c.add('gcmode', 0, 3)
    c.add('apithread', 0)
    exp = ['compile 0 ok', 'done 0 sp=0 fc=0']
    keys = uniq(pool(r) + (pool(r) if r.random() < .4 else []))
    if r.random() < .25:
        keys = uniq(keys + [0.0, 0]) + [NEGZERO]
    if r.random() < .3:
        keys += [lang.L64(32 * i) for i in range(1, 10)]
    nd = r.choice([1, 1, 2])
    ds = []
    for k in range(nd):
        c.add('dict', 'new', k)
        ds.append({})

    def kt(k):
        if k is NEGZERO:
            return 'f' + f2hex(-0.0)
        if isinstance(k, lang.L64):
            return 'l%x' % k.v
        if isinstance(k, bytes):
            return r.choice([b's:', b'o:', b'c:' if 0 not in k else b's:']) + k
        return hv(k)

    def dk(k):
        return ('L', k.v) if isinstance(k, lang.L64) else lang.dkey(0.0 if k is NEGZERO else k)
    w = r.choice([[5, 2, 2, .05], [3, 2, 4, .02], [8, 1, 1, .01], [4, 2, 2, .3]])
    n = r.choice([20, 100, 400])
    if r.random() < .15:        # start with a large table
        q = r.choice([20, 40, 70, 140, 300, 600])
        for i in range(q):
            c.add('dict', 'set', 0, kt(50000 + i), hv(i))
            ds[0][dk(50000 + i)] = i
        w = w[:3] + [0]
    hot = keys
    for j in range(n):
        k = r.randrange(nd)
        d = ds[k]
        if r.random() < .03:
            hot = r.sample(keys, min(len(keys), r.choice([3, 8, 1000])))
        x = r.choice(hot)
        op = r.choices(['set', 'get', 'remove', 'clear'], w)[0]
        if op == 'set':
            v = rndval(r, r.choice(['int', 'str', 'bool', 'float'])) if r.random() < .95 else None
            c.add('dict', 'set', k, kt(x), hv(v))
            d[dk(x)] = v
        elif op == 'get':
            c.add('dict', 'get', k, kt(x))
            exp.append('dict get ' + (lang.ser(d[dk(x)]) if dk(x) in d else 'none'))
        elif op == 'remove':
            c.add('dict', 'remove', k, kt(x))
            d.pop(dk(x), None)
        else:
            c.add('dict', 'clear', k)
            d.clear()
        if r.random() < .02 or j == n - 1:
            for x in keys:
                for k in range(nd):
                    c.add('dict', 'get', k, kt(x))
                    exp.append('dict get ' + (lang.ser(ds[k][dk(x)]) if dk(x) in ds[k] else 'none'))
    for k in range(nd):
        c.add('dict', 'destroy', k)
    c.add('apilive')
    progs.finish(c)
    ctx.count('operations', n)
    yield Unit([(r.choice(['asan', 'fast']), c)], lambda rs: diff(exp, rs[0].lines), '\n'.join(c.cmds), None)


PRE = '''struct P { x: int }
objs := new Hold { new P { 1 }, new P { 2 }, new P { 2 }, new P { 3 } }
struct Hold { a: P b: P c: P d: P }
nat1 := mknat(1)
nat2 := mknat(2)
nat3 := mknat(3)
i1 := int_to_i64(5)
i2 := int_to_i64(37)
'''
OBJS = ['objs.a', 'objs.b', 'objs.c', 'objs.d', 'nat1', 'nat2', 'nat3', 'i1', 'i2']


def lit(r, k):
    if isinstance(k, tuple):
        return k[1]
    if isinstance(k, bytes) and r.random() < .4:
        h = r.randrange(len(k) + 1)
        return 'strcat(%s, %s)' % (lang_lit(k[:h]), lang_lit(k[h:]))
    return lang_lit(k)


def dk(k):
    return ('O', k[1]) if isinstance(k, tuple) else lang.dkey(k)


def p_script(ctx):
    """dict from scripts, with keys of every kind."""
    r = ctx.rng
    keys = [k for k in uniq(pool(r) + (pool(r) if r.random() < .4 else [])) if not (isinstance(k, bytes) and (0 in k or 13 in k or 44 in k))]
    if len(keys) > 80:
        keys = r.sample(keys, 80)
    if r.random() < .4:
        keys += [('obj', o) for o in OBJS]
    d = [{}, {}]
    init = r.sample(keys, min(len(keys), r.choice([0, 0, 2, 5, 20])))
    body = ['d0 := dict(%s)' % ', '.join('%s, %d' % (lit(r, k), i) for i, k in enumerate(init)), 'd1 := dict()']
    d[0] = {dk(k): i for i, k in enumerate(init)}
    ev = []

    def call(j, f, *a):
        if r.random() < .5:
            return 'd%d -> dict_%s(%s)' % (j, f, ', '.join(a))
        return 'dict_%s(%s)' % (f, ', '.join(('d%d' % j,) + a))

    def look(j, k):
        x = lit(r, k)
        if isinstance(k, bytes) and r.random() < .4:
            body.append('emit(d%d[%s])' % (j, x))
        else:
            body.append('emit(%s)' % call(j, 'get', x))
        ev.append(progs.emitted(d[j].get(dk(k))))
        body.append('emit(%s)' % call(j, 'exists', x))
        ev.append(progs.emitted(dk(k) in d[j]))
    enum = []

    def enumerate_(j):
        body.append('emit(%s)' % call(j, 'keys'))
        enum.append(len(ev))
        simple = {}
        for k in keys:
            if dk(k) in d[j]:
                simple[dk(k)] = k
        ev.append(('keys', [simple[x] for x in d[j] if x in simple], len(d[j])))
        body.append('emit(%s)' % call(j, 'values'))
        ev.append(('vals', list(d[j].values()), len(d[j])))
    w = r.choice([[5, 2, 2, .05, .3], [3, 2, 4, .02, .3], [8, 1, 1, .01, .2], [4, 2, 2, .3, .2]])
    n = r.choice([20, 80, 200])
    hot = keys
    nobj = any(isinstance(k, tuple) for k in keys)
    for _ in range(n):
        j = 0 if r.random() < .8 else 1
        if r.random() < .05:
            hot = r.sample(keys, min(len(keys), r.choice([3, 8, 1000])))
        k = r.choice(hot)
        op = r.choices(['set', 'look', 'remove', 'clear', 'enum'], w)[0]
        if op == 'set':
            v = rndval(r, r.choice(['int', 'bool', 'float'])) if r.random() < .8 else b's%d' % r.randrange(100)
            x = lang_lit(v) if not isinstance(v, bytes) else 'strcat("s", "%s")' % v[1:].decode()
            if r.random() < .06:
                v, x = None, 'null'
            if isinstance(k, bytes) and r.random() < .4:
                body.append('d%d[%s] = %s' % (j, lit(r, k), x))
            else:
                body.append(call(j, 'put', lit(r, k), x))
            d[j][dk(k)] = v
        elif op == 'look':
            look(j, k)
        elif op == 'remove':
            body.append(call(j, 'remove', lit(r, k)))
            d[j].pop(dk(k), None)
        elif op == 'clear':
            body.append(call(j, 'clear'))
            d[j].clear()
        else:
            enumerate_(j)
        if r.random() < .04:
            body.append('garbage(30)')
    for k in keys:
        look(r.randrange(2), k)
    enumerate_(0)
    enumerate_(1)
    src = PRE + '\n'.join(body)
    if r.random() < .3:
        src = PRE + 'func all() {\n' + '\n'.join(body) + '\n}\nall()'
    c = progs.text_case(src.encode('latin-1'))
    progs.begin(c, gc=r.choice([0, 0, 1, 2]), seed=r.randrange(99))
    c.add('run', 0)
    progs.finish(c)
    ctx.count('operations', n)

    def judge(rs):
        l = rs[0].lines
        exp = ['compile 0 ok'] + ev + ['done 0 sp=0 fc=0']
        if len(l) != len(exp):
            return 'incomplete: %s' % l[-1][:300]
        for i, (a, b) in enumerate(zip(exp, l)):
            if isinstance(a, str):
                if a != b:
                    return 'line %d: expected %s, observed %s' % (i, a[:200], b[:200])
                continue
            b = b[len('emit 0 1 A#0['):-1]
            got = sorted(b.split(',')) if b else []
            if len(got) != a[2]:
                return 'line %d: %d %s, expected %d: %s' % (i, len(got), a[0], a[2], b[:300])
            if not nobj or a[0] == 'vals':
                want = sorted(lang.ser(x) for x in a[1])
                if want != got and not any(',' in x for x in want):
                    return 'line %d: %s are %s, expected %s' % (i, a[0], got, want)
    yield Unit([(r.choice(['asan', 'fast']), c)], judge, src, src)


def p_typed(ctx):
    """dict_str_int"""
    r = ctx.rng
    keys = uniq([k for k in [b'k%d' % i for i in range(r.choice([5, 40, 200]))] + samehash(r, 3) + [b'', b'x']])
    d = {}
    init = r.sample(keys, r.choice([0, 2, 4]))
    body = ['m := dict_str_int(%s)' % ', '.join('%s, %d' % (lit(r, k), i) for i, k in enumerate(init))]
    d = {k: i for i, k in enumerate(init)}
    ev = []

    def call(f, *a):
        if r.random() < .5:
            return 'm -> dict_str_int_%s(%s)' % (f, ', '.join(a))
        return 'dict_str_int_%s(%s)' % (f, ', '.join(('m',) + a))
    for _ in range(r.choice([20, 100, 300])):
        k = r.choice(keys)
        op = r.choice(['put', 'put', 'get', 'exists', 'remove', 'clear' if r.random() < .05 else 'exists', 'keys' if r.random() < .2 else 'get', 'inc'])
        if op == 'put':
            v = rndval(r, 'int')
            body.append(call('put', lit(r, k), lang_lit(v)))
            d[k] = v
        elif op == 'inc':
            body.append('if %s { %s }' % (call('exists', lit(r, k)), call('put', lit(r, k), '(%s & 65535) + 1' % call('get', lit(r, k)))))
            if k in d:
                d[k] = (d[k] & 65535) + 1
        elif op == 'get':
            if k in d:
                body.append('emit(%s + 0)' % call('get', lit(r, k)))
                ev.append(progs.emitted(d[k]))
        elif op == 'exists':
            body.append('emit(%s)' % call('exists', lit(r, k)))
            ev.append(progs.emitted(k in d))
        elif op == 'remove':
            body.append(call('remove', lit(r, k)))
            d.pop(k, None)
        elif op == 'clear':
            body.append(call('clear'))
            d.clear()
        else:
            q = len(body)
            body.append('ks%d := %s\nt%d := 0\nu%d := true\nfor i%d := 0; i%d < array_str_len(ks%d); i%d += 1 { t%d += dict_str_int_get(m, ks%d[i%d]) & 255 u%d = u%d && dict_str_int_exists(m, ks%d[i%d]) }\nemit(array_str_len(ks%d), t%d, u%d)' % (
                (q, call('keys')) + (q,) * 16))
            ev.append(progs.emitted(len(d), sum(v & 255 for v in d.values()), True))
    for k in keys:
        body.append('emit(%s)' % call('exists', lit(r, k)))
        ev.append(progs.emitted(k in d))
    src = 'use array("str") as array_str\n' + '\n'.join(body)
    yield progs.text_unit(src, ev, var=r.choice(['asan', 'fast']), gc=r.choice([0, 0, 1, 2]), seed=r.randrange(99))


def p_big(ctx):
    """Tens of thousands of entries; every operation terminates."""
    r = ctx.rng
    n = r.choice([500, 3000, 10000])
    step, mod = r.choice([(1, 1 << 40), (32, 1 << 40), (1024, 1 << 40), (7919, 4096), (65536, 1 << 50)])
    st = r.random() < .4
    key = 'strcat("k", int_to_str(%s))' if st else '%s'
    f = (lambda i: i * step % mod)
    rem = r.choice([2, 3, 5])
    src = '''d := dict()
for i := 0; i < %d; i += 1 { d -> dict_put(%s, i) }
for j := 0; j < %d; j += %d { d -> dict_remove(%s) }
sum := 0
found := 0
for k := 0; k < %d; k += 1 { if d -> dict_exists(%s) { found += 1 sum += cast(dict_get(d, %s), int) } }
emit(found, sum)
use array("any") as array_any
ks := dict_keys(d)
vs := dict_values(d)
emit(array_any_len(ks), array_any_len(vs))
sum = 0
found = 0
for q := 0; q < array_any_len(ks); q += 1 { sum += cast(vs[q], int) if cast(dict_get(d, ks[q]), int) == cast(vs[q], int) { found += 1 } }
emit(found, sum)
dict_clear(d)
emit(array_any_len(dict_keys(d)))
found = 0
for z := 0; z < %d; z += 1 { if d -> dict_exists(%s) { found += 1 } }
emit(found)
''' % (n, key % ('(i * %d) %% %d' % (step, mod)), n, rem, key % ('(j * %d) %% %d' % (step, mod)),
        n, key % ('(k * %d) %% %d' % (step, mod)), key % ('(k * %d) %% %d' % (step, mod)), n, key % ('(z * %d) %% %d' % (step, mod)))
    d = {}
    for i in range(n):
        d[f(i)] = i
    for j in range(0, n, rem):
        d.pop(f(j), None)
    found = sum(1 for k in range(n) if f(k) in d)
    tot = sum(d[f(k)] for k in range(n) if f(k) in d)
    if step % 32 == 0 and n > 3000:
        return      # quadratic by design of the hash
    c = progs.text_case(src)
    progs.begin(c)
    c.add('run', 0, 20000000)
    progs.finish(c)
    exp = ['compile 0 ok', progs.emitted(found, tot), progs.emitted(len(d), len(d)), progs.emitted(len(d), sum(d.values())), progs.emitted(0), progs.emitted(0), 'done 0 sp=0 fc=0']
    yield Unit([('fast', c)], lambda rs: diff(exp, rs[0].lines), src, src)


def p_gen(ctx):
    r = ctx.rng
    m = progs.make(ctx, 'heap', w={'dict': 8}, steps=8000)
    src = progs.source(m, r)
    c = progs.start(m, src, gc=r.choice([0, 1, 2]), seed=r.randrange(99))
    c.add('run', 0)
    progs.finish(c)
    yield progs.unit(m, src, [(r.choice(['asan', 'fast']), c)], [['compile 0 ok'] + m.it.ev + ['done 0 sp=0 fc=0']])


def families(tier):
    v = ('asan', 'fast')
    return [
        Fam('interface', p_capi, 900, 16000, v),
        Fam('scripts', p_script, 700, 14000, v),
        Fam('typed', p_typed, 200, 4000, v),
        Fam('large', p_big, 16, 200, ('fast',), cpu=60),
        Fam('programs', p_gen, 200, 5000, v),
    ]
