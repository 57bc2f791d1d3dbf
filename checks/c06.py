"""C06: garbage is reclaimed and every object is finalised exactly once."""
from vlib import lang, progs, gen
from vlib.core import Fam, Unit, expect, diff
from vlib.run import Case, cmd, f2hex
from vlib.lang import ser, escq

SCALE = 3
RULE = ('After every forced collection the number of objects left must equal the number reachable from the roots; loops that '
        'allocate for a long time must keep the peak of live blocks within a bound that does not grow with the length of the '
        'run; every native object reports its finalisation, which must happen exactly once, with its address and context, '
        'at the latest when the thread is destroyed at any point of execution. Distinct by source text and schedule.')


def p_exact(ctx):
    r = ctx.rng
    m = progs.make(ctx, r.choice(['heap', 'heap', 'struct', 'default', 'host']), steps=8000)
    src = progs.source(m, r)
    g = r.choice([1, 2, 1, 4])
    c = progs.start(m, src, gc=g, check='h', seed=ctx.i)
    c.add('run', 0)
    c.add('stats', 0)
    c.add('destroy', 0)
    c.add('fins')
    c.add('delstate', 0)
    nat = getattr(m.it, 'nats', 0)
    exp = ['compile 0 ok'] + m.it.ev + ['done 0 sp=0 fc=0']
    ctx.count('native objects', nat)

    def judge(rs):
        l = rs[0].lines
        st = [x for x in l if x.startswith('stats ')]
        fi = [x for x in l if x.startswith('fins ')]
        rest = [x for x in l if not x.startswith(('stats ', 'fins '))]
        d = diff(exp, rest)
        if d:
            return d
        if len(st) != 1 or 'gcs=0' in st[0] and g == 1:
            return 'no collection happened: %s' % st
        f = dict(p.split('=') for p in fi[0].split()[1:])
        if f['made'] != f['finalized'] or f['pending'] != '0' or int(f['made']) < nat:
            return 'native objects: %s, the program made %d' % (fi[0], nat)
    yield Unit([('asan', c)], judge, src + b'%d' % g, src.decode('latin-1'))


GARB = [
    ('strings', 'x := strcat("abc", int_to_str(i))'),
    ('structs', 'p := new P { i, strcat("s", int_to_str(i)) }'),
    ('cycles', 'c := new C { cast(null, C?), i } setn(c, c) d := new C { cast(cast(c, any), C?), i } setn(c, d)'),
    ('arrays', 'a := array_int(i, i + 1) a -> array_int_push(4) a -> array_int_push(5)'),
    ('anyarrays', 'b := aa(cast(strcat("x", "y"), any), cast(i, any)) aa_push(b, cast(b, any))'),
    ('dicts', 'd2 := dict(strcat("k", int_to_str(i % 7)), i) dict_put(d2, "z", cast(d2, any))'),
    ('natives', 'n := mknat(i % 100)'),
    ('addressless', 'n0 := mkanon(0) n3 := mkanon(0)'),
    ('propless', 'n1 := mkanon(1) n2 := mkanon(2)'),
    ('boxes', 'bx := box(cast(strcat("in", "box"), any)) setbox(bx, cast(bx, any))'),
    ('calls', 'u := work(i)'),
    ('callbacks', 'v := callback("work", i)'),
    ('garbage', 'garbage(3)'),
    ('json', 'j := P_to_json(new P { i, "q" })'),
    ('delegates', 'dd := mkd() uu := delegate_int_str_call(dd, i)'),
    ('arrgrow', 'ag := array_int() for q := 0; q < 20; q += 1 { ag -> array_int_push(q) } ag -> array_int_clear()'),
    ('dictgrow', 'dg := dict_str_int() for q := 0; q < 40; q += 1 { dict_str_int_put(dg, strcat("k", int_to_str(q)), q) } dict_str_int_clear(dg)'),
    ('reassign', 'keep = strcat("keep", int_to_str(i))'),
    ('field', 'kp.s = strcat("f", int_to_str(i))'),
    ('elem', 'ka[0] = strcat("e", int_to_str(i))'),
    ('dictput', 'dict_put(kd, strcat("k", int_to_str(i % 10)), cast(strcat("v", int_to_str(i)), any))'),
    ('dictputrm', 'dict_put(kd, strcat("r", int_to_str(i)), cast(i, any)) dict_remove(kd, strcat("r", int_to_str(i)))'),
    ('pushpop', 'ka -> array_str_push(strcat("p", "q")) pp := ka -> array_str_pop()'),
    ('pushshift', 'ka -> array_str_push(strcat("p", "q")) ps := ka -> array_str_shift() ka -> array_str_insert(0, ps) pr := ka -> array_str_pop()'),
    ('substr', 'ss := substr("hello world", i % 5, -1)'),
    ('castany', 'cs := cast(cast(new P { i, "z" }, any), P)'),
    ('keys', 'kk := dict_keys(kd) vv := dict_values(kd)'),
]


ANON = (cmd('bind', '0', 'mkanon(int): nat', 'mkanon'),)


def p_kinds(ctx):
    """Objects of every kind that survive some collections and are then dropped: the counts are exact after each collection, and every finaliser runs once."""
    r = ctx.rng
    makers = ['cast(mkanon(0), any)', 'cast(mkanon(1), any)', 'cast(mkanon(2), any)', 'cast(mknat(1), any)', 'cast(strcat("a", "b"), any)', 'cast(box(null), any)',
              'cast(new P { 1 }, any)', 'cast(aa(), any)', 'cast(ai(1, 2), any)', 'cast(dict("a", 1), any)', 'cast(mkstr(0, 1, 100), any)', 'cast(mkstr(2, 1, 5), any)',
              'cast(dict_str_int(), any)', 'cast(mkd(), any)', 'cast(box(cast(mkanon(0), any)), any)', 'cast(mkstr(4, 1, 5), any)']
    lines = []
    ev = []
    n = r.randrange(3, 9)
    for i in range(n):
        lines.append('v%d := cast(null, any)' % i)
    for step in range(r.randrange(20, 60)):
        i = r.randrange(n)
        k = r.random()
        if k < .55:
            lines.append('v%d = %s' % (i, r.choice(makers)))
        elif k < .75:
            lines.append('v%d = cast(null, any)' % i)
        elif k < .85:
            lines.append(r.choice(makers))
            if lines[-1].startswith('cast('):
                lines[-1] = 'x%d := %s x%d = null' % (step, lines[-1], step)
        elif k < .95:
            lines.append('gc() tint(1)')
            ev.append('spy0 0 1 i1')
        else:
            lines.append('garbage(%d)' % r.choice([1, 10, 40]))
    for i in range(n):
        lines.append('v%d = cast(null, any)' % i)
    src = '\n'.join(['use array("any") as aa', 'use array("int") as ai', 'use delegate("fn") as mkd', 'struct P { i: int }', 'func fn(i: int): int { return i }'] + lines)
    c = progs.text_case(src, extra=ANON)
    progs.begin(c, gc=r.choice([1, 3, 2]), check='h', seed=ctx.i)
    c.add('run', 0)
    c.add('destroy', 0)
    c.add('fins')
    c.add('delstate', 0)
    made = 0

    def judge(rs):
        l = rs[0].lines
        fi = [x for x in l if x.startswith('fins ')]
        d = diff(['compile 0 ok'] + ev + ['done 0 sp=0 fc=0'], [x for x in l if not x.startswith('fins ')])
        if d:
            return d
        f = dict(p.split('=') for p in fi[0].split()[1:])
        if f['made'] != f['finalized'] or f['pending'] != '0':
            return fi[0]
    yield Unit([('asan', c)], judge, src, src)


def p_shrink(ctx):
    """After a large live set has been dropped, memory is again bounded by the small one."""
    r = ctx.rng
    big = r.choice([3000, 10000, 20000])
    what, mk = r.choice([('strings', 'cast(strcat("x", int_to_str(i)), any)'), ('structs', 'cast(new P { i }, any)'), ('natives', 'cast(mkanon(0), any)'),
                         ('propless', 'cast(mkanon(1), any)'), ('boxes', 'cast(box(null), any)')])
    wh = r.choice(['array', 'list', 'dict'])
    L = ['use array("any") as aa', 'struct P { i: int }', 'struct N { n: any v: any }', 'hold := cast(null, any)',
         'func waste(n: int): int { for i := 0; i < n; i += 1 { s := strcat("w", int_to_str(i)) } return n }']
    if wh == 'array':
        L.append('func grow(n: int): int { a := aa() for i := 0; i < n; i += 1 { a -> aa_push(%s) } hold = cast(a, any) return n }' % mk)
    elif wh == 'list':
        L.append('func grow(n: int): int { hold = null for i := 0; i < n; i += 1 { hold = cast(new N { hold, %s }, any) } return n }' % mk)
    else:
        L.append('func grow(n: int): int { d := dict() for i := 0; i < n; i += 1 { dict_put(d, i, %s) } hold = cast(d, any) return n }' % mk)
    L.append('func drop(): int { hold = null return 0 }')
    src = '\n'.join(L)
    c = progs.text_case(src, extra=ANON)
    c.add('thread', 0, 0)
    c.add('start', 0)
    c.add('run', 0)
    rounds = r.choice([1, 2])
    for _ in range(rounds):
        c.add('call', 0, 'grow', 'i%d' % big)
        c.add('peak', 't0')
        c.add('call', 0, 'drop')
        # enough to reach any threshold the large set can have caused
        c.add('call', 0, 'waste', 'i%d' % (big * 8))
        c.add('call', 0, 'waste', 'i2000')
        c.add('peak', 't0')
        c.add('call', 0, 'waste', 'i%d' % (big * 4))
        c.add('peak', 't0')
    c.add('destroy', 0)
    c.add('fins')
    c.add('delstate', 0)

    def judge(rs):
        l = rs[0].lines
        pk = [int(x.split()[2]) for x in l if x.startswith('peak ')]
        if len(pk) != 3 * rounds:
            return 'unexpected course: %s' % l
        for k in range(rounds):
            if pk[3 * k] < big:
                return 'the workload did not build %d objects: %s' % (big, l)
            if pk[3 * k + 2] > 1000:
                return '%d blocks are live at the peak of a loop without live data, after %d %s in a %s were dropped' % (pk[3 * k + 2], big, what, wh)
        f = dict(p.split('=') for p in [x for x in l if x.startswith('fins ')][0].split()[1:])
        if f['made'] != f['finalized'] or f['pending'] != '0':
            return l[-1]
    ctx.count('large sets dropped', rounds)
    yield Unit([('fast', c)], judge, src + str(ctx.i), src)


def p_bound(ctx):
    r = ctx.rng
    pick = r.sample(GARB, r.choice([1, 1, 1, 2, 3]))
    if ctx.i < len(GARB):
        pick = [GARB[ctx.i]]
    where = r.choice(['func', 'loop', 'host'])
    head = '''use array("int") as array_int
use array("str") as array_str
use array("any") as aa
use json("P")
use delegate("work") as mkd
struct P { i: int s: str }
struct C { n: C? i: int }
func setn(c: C, n: C) { c.n = cast(cast(n, any), C?) }
func work(i: int): str { x := strcat("w", int_to_str(i)) return strcat(x, x) }
keep := "a"
kp := new P { 1, "a" }
ka := array_str("e0", "e1")
kd := dict()
'''
    body = '\n'.join(b for _, b in pick)
    head += 'func once(i: int): int {\n%s\nreturn i }\n' % body
    head += 'func many(a: int, n: int): int { s := 0 for k := a; k < a + n; k += 1 { s += once(k) } return s }\n'
    if where == 'loop':
        # everything happens in one activation
        head += 'func inloop(a: int, n: int): int { for i := a; i < a + n; i += 1 {\n%s\n} return n }\n' % body
    src = head
    c = progs.text_case(src, extra=ANON)
    c.add('thread', 0, 0)
    c.add('start', 0)
    c.add('run', 0)
    fn = 'inloop' if where == 'loop' else 'many'
    small, big = 300, (30000 if ctx.thorough else 6000)
    if any(n in ('arrgrow', 'dictgrow', 'keys') for n, _ in pick):
        big = 2000
    if where == 'host':
        c.add('calls', 0, small, 'once', 'i5')
        c.add('peak', 't0')
        c.add('calls', 0, big, 'once', 'i5')
        c.add('peak', 't0')
    else:
        c.add('call', 0, fn, 'i0', 'i%d' % small)
        c.add('peak', 't0')
        c.add('call', 0, fn, 'i%d' % small, 'i%d' % big)
        c.add('peak', 't0')
    c.add('objs', 0)
    c.add('destroy', 0)
    c.add('fins')
    c.add('delstate', 0)
    ctx.count('iterations', big)

    def judge(rs):
        l = rs[0].lines
        if l[:1] != ['compile 0 ok'] or 'done 0 sp=0 fc=0' not in l[:2]:
            return 'unexpected course: %s' % l[:3]
        pk = [x.split() for x in l if x.startswith('peak ')]
        if len(pk) != 2:
            return 'unexpected course: %s' % l
        for a, b, what in ((int(pk[0][2]), int(pk[1][2]), 'blocks'), (int(pk[0][3]), int(pk[1][3]), 'bytes')):
            if b > 3 * a + (400 if what == 'blocks' else 40000):
                return 'peak of live %s: %d after %d iterations, %d after %d more of %s' % (what, a, small, b, big, [n for n, _ in pick])
        fi = [x for x in l if x.startswith('fins ')][0]
        f = dict(p.split('=') for p in fi.split()[1:])
        if f['made'] != f['finalized'] or f['pending'] != '0':
            return fi
    yield Unit([('fast' if ctx.i % 2 else 'asan', c)], judge, src + where, src)


def p_fin(ctx):
    """Threads destroyed at any point; several threads; finalisers logged one by one."""
    r = ctx.rng
    src = '''struct H { n: nat o: H? }
use array("nat") as an
g0 := mknat(1)
g1 := array_of(2)
func array_of(k: int): an { return an(mknat(k), mknat(k + 1)) }
func hold(k: int): int { l := mknat(k) b := box(cast(l, any)) garbage(2) h := new H { l, cast(null, H?) } if k > 0 { return hold(k - 1) + natid(l) - k + natid(h.n) - k } gc() return natid(l) }
d := dict("a", mknat(5))
for i := 0; i < 40; i += 1 {
    t := mknat(100 + i)
    if i %% 3 == 0 { dict_put(d, int_to_str(i %% 5), mknat(200 + i)) }
    if i %% 4 == 0 { g1 -> an_push(mknat(300 + i)) }
    x := natid(t) + natid(mknat(400 + i))
    if i %% 10 == 0 { h9 := hold(%d) emit(h9) }
    if i %% 7 == 0 { z := callback("hold", 2) }
}
emit(natid(g0))''' % r.randrange(0, 6)
    src = src.replace('%%', '%')
    if r.random() < .3:
        # no global variable: a thread may own objects before (or without ever) being started
        src = 'use array("nat") as an\n' + '\n'.join(l for l in src.split('\n') if l.startswith(('func', 'struct')))
    nt = r.choice([1, 1, 2, 4])
    c = progs.text_case(src, extra=())
    c.cmds.insert(0, 'opt fin 1')
    for t in range(nt):
        c.add('thread', t, 0)
        c.add('gcmode', t, r.choice([0, 0, 1, 2, 3, 4]), r.randrange(1 << 30))
        if r.random() < .5:
            c.add('check', t, 'h')
    alive = list(range(nt))
    started = set()
    for _ in range(r.randrange(1, 14)):
        if not alive:
            break
        t = r.choice(alive)
        k = r.random()
        if t not in started and k < .9:
            c.add('start', t)
            started.add(t)
        elif k < .6:
            c.add('steps', t, r.choice([1, 5, 17, 60, 300, 1500, 4000]))
        elif k < .75 and (t in started or r.random() < .5):
            c.add('call', t, 'hold', 'i%d' % r.randrange(6))
        elif k < .85:
            c.add('forcegc', t)
        elif k < .95:
            c.add('destroy', t)
            alive.remove(t)
        elif t in started:
            c.add('run', t)
            c.add('start', t)
    for t in alive:
        c.add('destroy', t)
    c.add('fins')
    c.add('delstate', 0)
    if nt > 1:
        pass

    def judge(rs):
        l = rs[0].lines
        fi = [x for x in l if x.startswith('fins ')]
        if len(fi) != 1:
            return 'unexpected course: %s' % l[-3:]
        f = dict(p.split('=') for p in fi[0].split()[1:])
        logged = sum(1 for x in l if x.startswith('fin '))
        if f['made'] != f['finalized'] or f['pending'] != '0' or logged != int(f['finalized']):
            return '%s, %d finalisations logged' % (fi[0], logged)
    yield Unit([('asan', c)], judge, '\n'.join(c.cmds[20:]), '\n'.join(c.cmds[-30:]))


def p_now(ctx):
    """An object that became unreachable is finalised by the very next collection; a reachable one is not."""
    r = ctx.rng
    src = ['use array("nat") as an', 'struct H { n: nat }', 'a := an()', 'd := dict()', 'h := new H { cast(null, nat) }', 'v := cast(null, nat)', 'b := box(null)']
    ids = []
    live = {}
    ev = []
    lines = []
    arr = []
    for k in range(1, r.randrange(8, 30)):
        p = r.choice(['v', 'h', 'a', 'd', 'b', 'none', 'pop', 'rm', 'local'])
        if p == 'v':
            lines.append('v = mknat(%d)' % k)
            live['v'] = k
        elif p == 'h':
            lines.append('h.n = mknat(%d)' % k)
            live['h'] = k
        elif p == 'a':
            lines.append('a -> an_push(mknat(%d))' % k)
            arr.append(k)
        elif p == 'd':
            q = r.randrange(3)
            lines.append('dict_put(d, int_to_str(%d), mknat(%d))' % (q, k))
            live['d%d' % q] = k
        elif p == 'b':
            lines.append('setbox(b, mknat(%d))' % k)
            live['b'] = k
        elif p == 'none':
            lines.append('mknat(%d)' % k)
        elif p == 'local':
            lines.append('loc(%d)' % k)
        elif p == 'pop':
            if not arr:
                continue
            if r.random() < .5:
                lines.append('p%d := a -> an_pop() p%d = cast(null, nat)' % (k, k))
                arr.pop()
            else:
                lines.append('an_remove(a, 0)')
                arr.pop(0)
            ids.append(None)
            lines.append('gc() emit(0)')
            ev.append(('gc', set(arr) | set(live.values())))
            continue
        elif p == 'rm':
            q = r.randrange(3)
            lines.append('dict_remove(d, int_to_str(%d))' % q)
            live.pop('d%d' % q, None)
            lines.append('gc() emit(0)')
            ev.append(('gc', set(arr) | set(live.values())))
            continue
        ids.append(k)
        # a call without heap values clears what the last call returned
        lines.append('tint(1) gc() emit(0)')
        ev.append(('made', k, set(arr) | set(live.values())))
    src += lines + ['func loc(k: int) { x := mknat(k) y := an(x) }']
    text = '\n'.join(src)
    if r.random() < .08:
        # among many live objects
        n = r.choice([1100, 6000, 20000])
        src.insert(0, 'use array("str") as bulks\nbulk := bulks()\nfor bi := 0; bi < %d; bi += 1 { bulk -> bulks_push(strcat("b", int_to_str(bi))) }' % n)
        text = '\n'.join(src)
        ctx.count('large heaps')
    c = progs.text_case(text)
    c.cmds.insert(0, 'opt fin 1')
    c.add('thread', 0, 0)
    c.add('gcmode', 0, 3)
    if r.random() < .5:
        c.add('check', 0, 'h')
    c.add('start', 0)
    c.add('run', 0)
    c.add('destroy', 0)
    c.add('fins')
    c.add('delstate', 0)

    def judge(rs):
        l = rs[0].lines
        if l[0] != 'compile 0 ok':
            return l[0]
        cur = set()
        k = 0
        made = set()
        order = []
        for x in l:
            if x.startswith('fin '):
                n = int(x.split()[2])
                order.append(n)
                cur.add(n)
            elif x.startswith('emit 0 1 i0'):
                e = ev[k]
                k += 1
                if e[0] == 'made':
                    made.add(e[1])
                alive = e[-1]
                if cur & alive:
                    return 'object %s was finalised although it is reachable (after step %d)' % (sorted(cur & alive), k)
                missing = made - alive - cur
                if missing:
                    return 'object %s is unreachable but was not finalised by the collection after step %d' % (sorted(missing), k)
        if k != len(ev):
            return 'only %d of %d steps were seen' % (k, len(ev))
        if len(order) != len(set(order)) or set(order) != made:
            return 'finalised %s, made %s' % (sorted(order), sorted(made))
    yield Unit([('asan', c)], judge, text, text)


def families(tier):
    v = ('asan', 'fast')
    return [
        Fam('exact', p_exact, 700, 12000, v),
        Fam('kinds', p_kinds, 200, 4000, v),
        Fam('dropped-peak', p_shrink, 16, 120, v, shard=2, cpu=60),
        Fam('bounded', p_bound, 80, 400, v, shard=2, cpu=60),
        Fam('destroy', p_fin, 400, 8000, v),
        Fam('at-once', p_now, 300, 6000, v),
    ]
