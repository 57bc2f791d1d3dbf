"""C28: 64-bit integer values."""
from vlib import progs, gen, lang
from vlib.core import Fam, Unit, diff
from vlib.run import Case
from vlib.lang import L64
from checks.c15 import lang_lit

SCALE = 6
RULE = ('Random expressions over the 64-bit integer functions (1 to 200 operands, nested, at the limits of the range, results that wrap) and random sequences of moves of such values between globals, locals, '
        'parameters, results, struct fields, arrays, dictionaries (as values and as keys), any-typed and nullable variables, foreign functions and the host, with collections in between; every number, text and '
        'equality observed must be the one Python integers give modulo 2^64. Distinct by program.')

M = 1 << 64


def wrap(v):
    v %= M
    return v - M if v >= M >> 1 else v


EDGE = [0, 1, -1, 2, -2, 10, 255, 256, (1 << 31) - 1, 1 << 31, -(1 << 31), (1 << 32) - 1, 1 << 32, (1 << 32) + 1, -(1 << 32), (1 << 53) + 1, (1 << 62), -(1 << 62), (1 << 63) - 1, -(1 << 63), (1 << 63) - 2,
        -(1 << 63) + 1, 1 << 47, (1 << 48) - 1, 0x7F7F7F7F7F7F7F7F, 10 ** 18, -10 ** 18, 999999999999999999, 3037000499, 3037000500, -3037000500, 6074001000]


def num(r):
    k = r.randrange(5)
    if k < 2:
        return r.choice(EDGE)
    if k == 2:
        return r.randrange(-100, 100)
    if k == 3:
        return wrap(r.randrange(M))
    return wrap(r.choice([1, -1]) * r.randrange(1 << r.randrange(1, 64)))


def ilit(v):
    if v == -(1 << 63):
        return '(-9223372036854775807 - 1)'
    return '-%d' % -v if v < 0 else '%d' % v


def prod(xs):
    p = 1
    for x in xs:
        p *= x
    return wrap(p)


WRAP = '''
func w_of(a: int): i64 { return int_to_i64(a) }
func w_add1(a: i64): i64 { return i64_add_many(a) }
func w_add2(a: i64, b: i64): i64 { return i64_add_many(a, b) }
func w_add3(a: i64, b: i64, c: i64): i64 { return i64_add_many(a, b, c) }
func w_add7(a: i64, b: i64, c: i64, d: i64, e: i64, f: i64, g: i64): i64 { return a -> i64_add_many(b, c, d, e, f, g) }
func w_mul1(a: i64): i64 { return i64_mul_many(a) }
func w_mul2(a: i64, b: i64): i64 { return i64_mul_many(a, b) }
func w_mul3(a: i64, b: i64, c: i64): i64 { return i64_mul_many(a, b, c) }
func w_mul7(a: i64, b: i64, c: i64, d: i64, e: i64, f: i64, g: i64): i64 { return i64_mul_many(a, b, c, d, e, f, g) }
func w_str(a: i64): str { return i64_to_string(a) }
func w_ostr(a: int): str { return i64_to_string(int_to_i64(a)) }
func w_eq(a: i64, b: i64): bool { return a == b }
func w_ne(a: i64, b: i64): bool { return a != b }
func w_anyeq(a: any, b: any): bool { return a == b }
func w_id(a: i64): i64 { x := a y := x return y }
func w_poly(a: i64, b: int): i64 { return i64_add_many(i64_mul_many(a, a, int_to_i64(b)), i64_mul_many(a, int_to_i64(-1)), int_to_i64(b)) }
'''


def one(r):
    k = r.randrange(12)
    a, b = num(r), num(r)
    if k == 0:
        return 'w_of', [a], L64(a), [int]
    if k in (1, 2, 3):
        n = r.choice([1, 2, 2, 3, 7])
        xs = [num(r) for _ in range(n)]
        return 'w_add%d' % n, xs, L64(wrap(sum(xs))), [L64] * n
    if k in (4, 5, 6):
        n = r.choice([1, 2, 2, 3, 7])
        xs = [r.choice([num(r), r.randrange(-9, 10), r.randrange(-3000, 3000)]) for _ in range(n)]
        return 'w_mul%d' % n, xs, L64(prod(xs)), [L64] * n
    if k == 7:
        return 'w_str', [a], b'%d' % a, [L64]
    if k == 8:
        return 'w_ostr', [a], b'%d' % a, [int]
    if k == 9:
        b = r.choice([a, a, wrap(a + (1 << 32)), wrap(a ^ (1 << 63)), wrap(-a), wrap(a + 1), b])
        f = r.choice(['w_eq', 'w_ne', 'w_anyeq'])
        return f, [a, b], (a == b) == (f != 'w_ne'), [L64] * 2
    if k == 10:
        return 'w_id', [a], L64(a), [L64]
    return 'w_poly', [a, b], L64(wrap(a * a * b - a + b)), [L64, int]


def p_host(ctx):
    r = ctx.rng
    c = Case(gen.setup())
    c.add('compile', 0, 'm', WRAP)
    progs.begin(c, gc=r.choice([0, 0, 1, 2]), seed=r.randrange(99))
    c.add('run', 0)
    exp = ['compile 0 ok', 'done 0 sp=0 fc=0']
    for _ in range(100):
        f, xs, v, ts = one(r)
        c.add('call', 0, f, *['l%x' % (x % M) if t is L64 else 'i%d' % x for x, t in zip(xs, ts)])
        exp.append('ret 0 ' + lang.ser(v))
    progs.finish(c)
    ctx.count('calls', 100)

    def judge(rs):
        l = rs[0].lines
        d = diff(exp, l)
        if d:
            k = next((i for i, (x, y) in enumerate(zip(exp, l)) if x != y), len(l))
            calls = [x for x in c.cmds if x.startswith('call ')]
            return '%s: %s' % (calls[k - 2][:300] if 2 <= k < len(calls) + 2 else '', d)
    yield Unit([(r.choice(['asan', 'fast', 'o0']), c)], judge, '\n'.join(c.cmds), None)


def expr(r, env, d):
    """(source, value)"""
    k = r.randrange(10)
    if d <= 0 or k < 2:
        if env and r.random() < .6:
            n = r.choice(sorted(env))
            return n, env[n]
        v = num(r)
        if r.random() < .3 and abs(v) < 1 << 40:
            w = r.randrange(-1000, 1000)
            return 'int_to_i64(%s + %s)' % (ilit(v - w), '(%s)' % ilit(w)), v
        return 'int_to_i64(%s)' % ilit(v), v
    n = r.choice([1, 2, 2, 2, 3, 3, 5]) if d < 4 else r.choice([1, 2, 2])
    if d == 1 and r.random() < .1:
        n = r.choice([17, 60, 127, 128, 200, 255])
    xs = [expr(r, env, d - 1 if n < 9 else 0) for _ in range(n)]
    f, v = ('i64_add_many', wrap(sum(x[1] for x in xs))) if r.random() < .55 else ('i64_mul_many', prod([x[1] for x in xs]))
    if r.random() < .2:
        return '%s -> %s(%s)' % (xs[0][0], f, ', '.join(x[0] for x in xs[1:])), v
    if r.random() < .1:
        y = expr(r, env, 0)
        c = r.random() < .5
        a, b = ((f + '(' + ', '.join(x[0] for x in xs) + ')', y[0]) if c else (y[0], f + '(' + ', '.join(x[0] for x in xs) + ')'))
        return '(if %s %s else %s)' % ('true' if c else '1 > 2', a, b), v
    return '%s(%s)' % (f, ', '.join(x[0] for x in xs)), v


def p_expr(ctx):
    """Expressions in program text."""
    r = ctx.rng
    L, ev, env = [], [], {}
    for j in range(30):
        s, v = expr(r, env, r.choice([0, 1, 2, 3, 4]))
        k = r.randrange(6)
        if k <= 2:
            n = 'v%d' % j
            L.append('%s := %s' % (n, s) if r.random() < .5 else '%s: i64 = %s' % (n, s))
            env[n] = v
            if k == 1:
                L.append('emit(%s, i64_to_string(%s))' % (n, n))
                ev.append(progs.emitted(L64(v), b'%d' % v))
        elif k == 3:
            L.append('emit(i64_to_string(%s))' % s)
            ev.append(progs.emitted(b'%d' % v))
        elif k == 4:
            L.append('emit(%s)' % s)
            ev.append(progs.emitted(L64(v)))
        else:
            w = r.choice([v, v, wrap(v + (1 << 32)), wrap(v ^ (1 << 63)), wrap(-v), wrap(v - 1)])
            t = 'int_to_i64(%s)' % ilit(w)
            a, b = (s, t) if r.random() < .5 else (t, s)
            L.append('emit(%s == %s, %s != %s)' % (a, b, a, b))
            ev.append(progs.emitted(v == w, v != w))
    for n in sorted(env):
        L.append('emit(%s)' % n)
        ev.append(progs.emitted(L64(env[n])))
    ctx.count('expressions', 30)
    yield progs.text_unit('\n'.join(L), ev, var=r.choice(['asan', 'fast', 'o0']), gc=r.choice([0, 0, 1, 2]), seed=r.randrange(99))


STORE = '''
use array("i64") as array_i64
use array("any") as array_any
struct P { a: i64 b: int c: i64 next: P? }
g0 := int_to_i64(0)
g1: i64 = int_to_i64(1)
ga := cast(int_to_i64(2), any)
gn: i64? = int_to_i64(3)
p := new P { int_to_i64(4), 77, int_to_i64(5), cast(null, P?) }
q := new P { .c = int_to_i64(7), .b = 88, .a = int_to_i64(6), .next = p }
xs := array_i64(int_to_i64(8), int_to_i64(9), int_to_i64(10))
ys := array_any(int_to_i64(11), 12, "y")
d := dict("k", int_to_i64(12), "m", 5)
ik := dict(int_to_i64(0), 100)
func id(a: i64): i64 { return a }
func pick(n: int, a: i64, b: i64, c: i64): i64 { if n == 0 { return a } if n == 1 { return b } return c }
func deep(n: int, a: i64): i64 { if n == 0 { return a } b := deep(n - 1, i64_add_many(a, int_to_i64(1))) garbage(1) return i64_add_many(b, int_to_i64(-1)) }
func loc(a: i64): i64 { x := a y := cast(x, any) z := cast(y, i64) w := new P { z, 1, a, cast(null, P?) } garbage(2) return w.a }
func swap(a: i64, b: i64): P { return new P { b, 0, a, cast(null, P?) } }
'''
SLOTS = ['g0', 'g1', 'ga', 'gn', 'p.a', 'p.c', 'q.a', 'q.c', 'xs[0]', 'xs[1]', 'xs[2]', 'ys[0]', 'd:k']
INIT = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12]


def read(s):
    if s in ('ga', 'gn', 'ys[0]'):
        return 'cast(%s, i64)' % s if s != 'gn' else 'cast(cast(gn, any), i64)'
    if s == 'd:k':
        return 'cast(dict_get(d, "k"), i64)'
    if s == 'xs[1]':
        return 'array_i64_get(xs, 1)'
    return s


def write(r, s, e):
    if s == 'd:k':
        return r.choice(['dict_put(d, "k", %s)' % e, 'd["k"] = %s' % e])
    if s == 'ga' or s == 'ys[0]':
        return '%s = %s' % (s, e)
    if s == 'xs[2]':
        return 'array_i64_set(xs, 2, %s)' % e
    return '%s = %s' % (s, e)


def p_store(ctx):
    """Values carried through every kind of storage."""
    r = ctx.rng
    val = dict(zip(SLOTS, INIT))
    keys = {0: 100}
    L, ev = [], []
    t = 0
    for j in range(r.choice([20, 60, 150])):
        s, s2 = r.choice(SLOTS), r.choice(SLOTS)
        k = r.randrange(12)
        if k <= 2:
            v = num(r)
            L.append(write(r, s, 'int_to_i64(%s)' % ilit(v)))
            val[s] = v
        elif k <= 4:
            L.append(write(r, s, read(s2)))
            val[s] = val[s2]
        elif k == 5:
            f = r.choice(['id(%s)', 'loc(%s)', 'deep(%d, %%s)' % r.randrange(20), 'cast(cast(%s, any), i64)', 'cast(idf(%s), i64)', 'swap(%s, int_to_i64(3)).c', '(new P { %s, 4, int_to_i64(5), cast(null, P?) }).a'])
            L.append(write(r, s, f % read(s2)))
            val[s] = val[s2]
        elif k == 6:
            a = [r.choice(SLOTS) for _ in range(3)]
            n = r.randrange(3)
            L.append(write(r, s, 'pick(%d, %s)' % (n, ', '.join(read(x) for x in a))))
            val[s] = val[a[n]]
        elif k == 7:
            a = [r.choice(SLOTS) for _ in range(r.randrange(1, 4))]
            f, v = ('i64_add_many', wrap(sum(val[x] for x in a))) if r.random() < .6 else ('i64_mul_many', prod([val[x] for x in a]))
            L.append(write(r, s, '%s(%s)' % (f, ', '.join(read(x) for x in a))))
            val[s] = v
        elif k == 8:
            L.append('garbage(%d)' % r.randrange(1, 12))
        elif k == 9:
            L.append('emit(%s == %s)' % (read(s), read(s2)))
            ev.append(progs.emitted(val[s] == val[s2]))
        elif k == 10:
            if r.random() < .6:
                w = r.randrange(1000)
                L.append('dict_put(ik, %s, %d)' % (read(s), w))
                keys[val[s]] = w
            else:
                kk = r.choice(sorted(keys) + [val[s]])
                L.append('emit(dict_exists(ik, int_to_i64(%s)))' % ilit(kk))
                ev.append(progs.emitted(kk in keys))
                if kk in keys and r.random() < .5:
                    L.append('dict_remove(ik, int_to_i64(%s))' % ilit(kk))
                    del keys[kk]
        else:
            t += 1
            L.append('t%d := %s' % (t, read(s)))
            L.append('emit(t%d, i64_to_string(t%d), %s)' % (t, t, read(s)))
            ev.append(progs.emitted(L64(val[s]), b'%d' % val[s], L64(val[s])))
    for s in SLOTS:
        L.append('emit(%s)' % read(s))
        ev.append(progs.emitted(L64(val[s])))
    for k in sorted(keys):
        L.append('emit(dict_get(ik, int_to_i64(%s)))' % ilit(k))
        ev.append(progs.emitted(keys[k]))
    L.append('emit(p.b, q.b, ys[1], ys[2], dict_get(d, "m"), array_any_len(dict_keys(ik)))')
    ev.append(progs.emitted(77, 88, 12, b'y', 5, len(keys)))
    body = '\n'.join(L)
    if r.random() < .4:
        body = 'func main_() {\n%s\n}\nmain_()' % body
    yield progs.text_unit(STORE + body, ev, var=r.choice(['asan', 'fast', 'o0']), gc=r.choice([0, 0, 1, 2]), check=r.choice(['', 'h', 'p']), seed=r.randrange(99),
                          extra=['bind 0 idf(any):%20any idf'])


def p_arrays(ctx):
    """Arrays of them as sequences, dictionaries keyed by them as maps."""
    r = ctx.rng
    L, ev = ['use array("i64") as ai', 'a := ai()', 'm := dict()'], []
    seq, mp = [], {}
    base = num(r)
    stride = r.choice([1, 32, 64, 1 << 32, 1 << 48, -1, 1 << 63])
    pool = [wrap(base + i * stride) for i in range(r.choice([5, 20, 60]))]
    for j in range(r.choice([30, 120])):
        k = r.randrange(8)
        v = r.choice(pool)
        e = 'int_to_i64(%s)' % ilit(v)
        if k <= 1:
            L.append('ai_push(a, %s)' % e)
            seq.append(v)
        elif k == 2 and seq:
            i = r.randrange(len(seq))
            L.append('ai_insert(a, %d, %s)' % (i, e))
            seq.insert(i, v)
        elif k == 3 and seq:
            i = r.randrange(len(seq))
            L.append('emit(a[%d], a[%d] == %s)' % (i, i, e))
            ev.append(progs.emitted(L64(seq[i]), seq[i] == v))
        elif k == 4 and seq:
            w = r.randrange(3)
            i = [len(seq) - 1, 0, r.randrange(len(seq))][w]
            if w == 2:
                L.append('ai_remove(a, %d)' % i)
            else:
                L.append('emit(%s(a))' % ['ai_pop', 'ai_shift'][w])
                ev.append(progs.emitted(L64(seq[i])))
            del seq[i]
        elif k == 5:
            L.append('dict_put(m, %s, %s)' % (e, 'int_to_i64(%s)' % ilit(wrap(-v))))
            mp[v] = wrap(-v)
        elif k == 6:
            L.append('dict_remove(m, %s)' % e if r.random() < .5 else 'emit(dict_exists(m, %s))' % e)
            if L[-1].startswith('emit'):
                ev.append(progs.emitted(v in mp))
            else:
                mp.pop(v, None)
        elif mp:
            v = r.choice(sorted(mp))
            L.append('emit(dict_get(m, int_to_i64(%s)))' % ilit(v))
            ev.append(progs.emitted(L64(mp[v])))
    L.append('emit(a)')
    ev.append('emit 0 1 A#0[%s]' % ','.join(lang.ser(L64(x)) for x in seq))
    for v in pool:
        L.append('emit(dict_exists(m, int_to_i64(%s)))' % ilit(v))
        ev.append(progs.emitted(v in mp))
    yield progs.text_unit('\n'.join(L), ev, var=r.choice(['asan', 'fast']), gc=r.choice([0, 1, 2]), check=r.choice(['', 'h']), seed=r.randrange(99))


def p_globals(ctx):
    """Values the host writes and reads."""
    r = ctx.rng
    n = 6
    src = ''.join('g%d := int_to_i64(%d)\n' % (i, i) for i in range(n)) + '''
func show(i: int): str { %s return "" }
func sum(): i64 { return i64_add_many(%s) }
func put(i: int, v: i64) { %s }
func through(f: str, v: i64): i64 { return cast(spy7(v), i64) }
''' % (' '.join('if i == %d { return i64_to_string(g%d) }' % (i, i) for i in range(n)), ', '.join('g%d' % i for i in range(n)), ' '.join('if i == %d { g%d = v }' % (i, i) for i in range(n)))
    c = Case(gen.setup(extra=['spy 7 a0', 'bind 0 spy7(any):%20any spy7']))
    c.add('compile', 0, 'm', src)
    progs.begin(c, gc=r.choice([0, 1]))
    c.add('run', 0)
    exp = ['compile 0 ok', 'done 0 sp=0 fc=0']
    g = list(range(n))
    for _ in range(40):
        i, v = r.randrange(n), num(r)
        k = r.randrange(6)
        if k == 0:
            c.add('setg', 0, 'g%d' % i, 'l%x' % (v % M))
            g[i] = v
        elif k == 1:
            c.add('getg', 0, 'g%d' % i)
            exp.append('glob 0 g%d ' % i + lang.ser(L64(g[i])))
        elif k == 2:
            c.add('call', 0, 'show', 'i%d' % i)
            exp.append('ret 0 ' + lang.ser(b'%d' % g[i]))
        elif k == 3:
            c.add('call', 0, 'sum')
            exp.append('ret 0 ' + lang.ser(L64(wrap(sum(g)))))
        elif k == 4:
            c.add('call', 0, 'put', 'i%d' % i, 'l%x' % (v % M))
            exp.append('ret 0')
            g[i] = v
        else:
            c.add('call', 0, 'through', 's:f', 'l%x' % (v % M))
            exp += ['spy7 0 1 ' + lang.ser(L64(v)), 'ret 0 ' + lang.ser(L64(v))]
    progs.finish(c)

    def judge(rs):
        l = ['ret 0' if e == 'ret 0' and x.startswith('ret 0') else x for e, x in zip(exp, rs[0].lines)] + rs[0].lines[len(exp):]
        return diff(exp, l)
    yield Unit([(r.choice(['asan', 'fast']), c)], judge, '\n'.join(c.cmds), None)


def families(tier):
    v = ('asan', 'fast', 'o0')
    return [
        Fam('host', p_host, 300, 6000, v),
        Fam('expr', p_expr, 500, 12000, v),
        Fam('store', p_store, 500, 12000, v),
        Fam('arrays', p_arrays, 300, 8000, v),
        Fam('globals', p_globals, 200, 4000, v),
    ]
