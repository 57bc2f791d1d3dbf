"""C14: OS threads can run one compiled state concurrently without races."""
from vlib import progs, gen, lang, fuzz
from vlib.core import Fam, Unit, diff
from vlib.run import Case
from checks.c07 import MODS, macros

RULE = ('Under ThreadSanitizer, 2 to 8 operating-system threads, each with script threads of its own on one compiled state, run generated programs in random chunks with yields, call functions, collect, '
        'read globals, disassemble and query symbols and positions; others create, compile (also wrongly), run and destroy independent states at the same time. Any reported race is a violation, '
        'and each lane must give exactly the trace predicted for it alone. Distinct by program and lane scripts.')

LIB = '''
use array("int") as array_int
struct LP { v: int s: str n: LP? }
use json("LP2")
struct LP2 { a: int b: str }
func dl(n: int): int { return n * 3 }
use delegate("dl") as mkdl
lg := 0
ls := "x"
LK :: 7
LS :: "const"
func work(n: int): int {
    a := array_int()
    for i := 0; i < n; i += 1 { a -> array_int_push(i * LK) ls = strcat(ls, int_to_str(i)) }
    d := dict("n", n, "s", ls)
    p := new LP { n, strcat("a", LS), cast(null, LP?) }
    t := 0
    while a -> array_int_len() > 0 { t += array_int_pop(a) }
    lg += t
    if n > 3 { return t + work(n - 3) + delegate_int_int_call(mkdl(), n) + strlen(p.s) }
    return t + cast(d["n"], int)
}
func js(n: int): str { return LP2_to_json(new LP2 { n, "q" }) }
'''


def work(st, n):
    t = 0
    for i in range(n):
        st['ls'] += len(str(i))
        t += i * 7
    st['lg'] += t
    if n > 3:
        return t + work(st, n - 3) + n * 3 + 6
    return t + n


def p_shared(ctx):
    r = ctx.rng
    m = progs.make(ctx, r.choice(['default', 'calls', 'heap', 'struct', 'flow', 'host']), steps=r.choice([800, 3000]))
    src = progs.source(m, r)
    lib = r.random() < .7
    c = Case(gen.setup(0))
    c.add('compile', 0, 'main', src)
    if lib:
        c.add('compile', 0, 'lib', LIB.replace('use array("int") as array_int', '') if b'as array_int' in src.replace(b'array_int_', b'') and b'array("int")' in src or ('A', 'int') in m.gen.arr_types else LIB)
    k = r.choice([2, 3, 4, 8])
    names = sorted(m.prog.funcs) + sorted(m.gen.gl) + ['nosuch', 'work', 'lg', 'emit', 'strlen']
    c.cmds.append('par')
    exp = []
    for L in range(k):
        e = []

        def a(*t):
            c.add(L, *t)
        a('thread', L, 0)
        a('gcmode', L, r.choice([0, 0, 1, 2]), r.randrange(999))
        if r.random() < .3:
            for _ in range(r.randrange(1, 20)):
                a('yield')
        a('start', L)
        st = {'ls': 1, 'lg': 0}
        main = r.random() < .8
        if main:
            for _ in range(r.choice([0, 3, 10, 30])):
                a('steps', L, r.randrange(1, 300))
                x = r.randrange(8)
                if x == 0:
                    a('yield')
                elif x == 1:
                    a('forcegc', L)
                elif x == 2:
                    a('fidx', 0, r.choice(names))
                elif x == 3:
                    a('gidx', 0, r.choice(names))
                elif x == 4:
                    a('where', L)
                elif x == 5:
                    a('getg', L, r.choice(names))
                elif x == 6 and r.random() < .2 and len(src) < 3000:
                    a('disasm', 0)
                elif x == 7:
                    a('refl', 0, r.choice(names + ['LP', 'LK']))
            a('run', L)
            e += progs.retid(m.it.ev, L) + ['done %d sp=0 fc=0' % L]
        if lib and main:
            for _ in range(r.randrange(0, 6)):
                n = r.randrange(0, 14)
                if r.random() < .75:
                    a('call', L, 'work', 'i%d' % n)
                    e.append('ret %d i%d' % (L, work(st, n)))
                else:
                    a('call', L, 'js', 'i%d' % n)
                    e.append('ret %d s"{%%22a%%22:%d,%%22b%%22:%%22q%%22}"' % (L, n))
            a('getg', L, 'lg')
            e.append('glob %d lg i%d' % (L, st['lg']))
        a('destroy', L)
        exp.append(e)
    c.cmds.append('endpar')
    c.add('delstate', 0)
    ctx.count('lanes', k)
    yield Unit([('tsan', c)], lane_judge(exp, {'compile': 1}), '\n'.join(c.cmds), src.decode('latin-1'))


QUERY = ('fidx', 'gidx', 'at ', 'dis', 'refl', 'forcegc', 'pc ', 'macro', 'try ', 'stats', 'objs')


def lane_judge(exp, opts):
    def judge(rs):
        cur = None
        got = {}
        for x in rs[0].lines:
            if x.startswith('lane '):
                cur = int(x[5:])
                got[cur] = []
            elif x.startswith('endlane'):
                cur = None
            elif cur is None:
                if x.startswith('compile') and not x.endswith(' ok'):
                    return x[:300]
            elif not x.startswith(QUERY):
                got[cur].append(x)
        for L, e in enumerate(exp):
            g = got.get(L, [])
            if not opts.get('keepglob'):
                g = [x for x in g if not (x.startswith('glob ') and ' lg ' not in x)]
                g = [x for i, x in enumerate(g) if not (x.startswith('glob ') and i + 1 < len(g))]
            d = diff([str(x) for x in e], g)
            if d:
                return 'lane %d: %s' % (L, d)
    return judge


def p_indep(ctx):
    """Each lane has its own state from creation to destruction."""
    r = ctx.rng
    k = r.choice([2, 4, 8])
    ms = [progs.make(ctx, r.choice(['default', 'struct', 'heap', 'calls', 'types']), steps=1500, main=6) for _ in range(min(k, 3))]
    c = Case()
    c.cmds.append('par')
    exp = []
    for L in range(k):
        e = []
        m = r.choice(ms)
        src = progs.source(m, r)

        def a(*t):
            c.add(L, *t)
        for rep in range(r.choice([1, 1, 2])):
            for x in gen.setup(L, std='lad6'):
                if not x.startswith('spy '):     # the modes of the spies are common to all
                    c.cmds.append('%d %s' % (L, x))
            for n, kd in (('log', 'log'), ('comp', 'comp'), ('try', 'try')):
                a('macro', L, n, kd)
            if r.random() < .5:
                a('compile', L, 'bad', src + b'\nzz9 := nosuch')
                e.append(('err', L))
            a('compile', L, 'main', src)
            e.append('compile %d ok' % L)
            if r.random() < .5:
                a('compile', L, 'bad', fuzz.mutate(r, MODS) + b' @')
                e.append(('err', L))
            if r.random() < .3:
                a('disasm', L)
            a('thread', L, L)
            a('gcmode', L, r.choice([0, 1, 2]), 5)
            a('start', L)
            if r.random() < .3:
                a('steps', L, 50)
                a('yield')
            a('run', L)
            e += progs.retid(m.it.ev, L) + ['done %d sp=0 fc=0' % L]
            a('destroy', L)
            a('delstate', L)
        exp.append(e)
    c.cmds.append('endpar')
    for k2, v in lang.SPYMODES.items():
        c.cmds.insert(0, 'spy %d %s' % (k2, v))
    ctx.count('lanes', k)

    def judge(rs):
        cur = None
        got = {}
        for x in rs[0].lines:
            if x.startswith('lane '):
                cur = int(x[5:])
                got[cur] = []
            elif x.startswith('endlane'):
                cur = None
            elif cur is not None and not x.startswith(QUERY):
                got[cur].append(x)
        for L, e in enumerate(exp):
            g = got.get(L, [])
            for i, y in enumerate(e):
                if i >= len(g):
                    return 'lane %d: incomplete: %s' % (L, g[-2:])
                if isinstance(y, tuple):
                    if not g[i].startswith('compile %d err' % y[1]):
                        return 'lane %d: wrong text: %s' % (L, g[i][:200])
                elif y != g[i]:
                    return 'lane %d: line %d: expected %s, observed %s' % (L, i, y[:400], g[i][:400])
            if len(g) > len(e):
                return 'lane %d: more output: %s' % (L, g[len(e)])
    yield Unit([('tsan', c)], judge, '\n'.join(c.cmds), None)


def p_lib(ctx):
    """All lanes hammer the standard modules on one state: strings, arrays, dictionaries, delegates, json, 64-bit integers."""
    r = ctx.rng
    c = Case(gen.setup(0))
    more = '''
use array("str") as array_str
use array("float") as array_float
use array("bool") as array_bool
use array("any") as array_any
func all(n: int): int {
    t := 0
    fs := array_float(1.5, 2.5) bs := array_bool(true, false) ss := array_str("a", "b")
    for i := 0; i < n; i += 1 {
        fs -> array_float_push(ceil(cast(fs[i], float) if false else fs[i] + 0.5)) 
        ss -> array_str_push(substr("hello world", i % 5, i % 5 + 3))
        if stridx("abc", i % 3) == 'b' { t += 1 }
        t += str_to_int(int_to_str(i)) + stoi(int_to_str(i), 10) + strlen(ntos(1.5)) + int(floor(2.7)) + strchr("xyz", 'z')
    }
    m := dict_str_int("a", 1, "b", 2)
    m -> dict_str_int_put("c", n)
    x := i64_add_many(int_to_i64(n), int_to_i64(5))
    t += strlen(i64_to_string(x)) + dict_str_int_get(m, "c") + (fs -> array_float_len()) + (ss -> array_str_len())
    return t
}
'''.replace("ceil(cast(fs[i], float) if false else fs[i] + 0.5)", "ceil(fs[i] + 0.5)")
    c.add('compile', 0, 'lib', LIB)
    c.add('compile', 0, 'more', more)
    k = r.choice([2, 4, 8])
    c.cmds.append('par')
    exp = []
    for L in range(k):
        c.add(L, 'thread', L, 0)
        c.add(L, 'start', L)
        c.add(L, 'gcmode', L, r.choice([0, 1]), 3)
        c.add(L, 'run', L)
        e = ['done %d sp=0 fc=0' % L]
        for _ in range(r.randrange(2, 8)):
            n = r.randrange(0, 20)
            c.add(L, 'call', L, 'all', 'i%d' % n)
            t = 0
            for i in range(n):
                t += 1 if i % 3 == 1 else 0
                t += 2 * i + 3 + 2 + 2
            t += len(str(n + 5)) + n + (2 + n) * 2
            e.append('ret %d i%d' % (L, t))
        c.add(L, 'destroy', L)
        exp.append(e)
    c.cmds.append('endpar')
    c.add('delstate', 0)
    ctx.count('lanes', k)
    yield Unit([('tsan', c)], lane_judge(exp, {}), '\n'.join(c.cmds), more)


def families(tier):
    v = ('tsan',)
    return [
        Fam('shared', p_shared, 220, 5000, v, shard=4, cpu=40),
        Fam('independent', p_indep, 70, 1500, v, shard=2, cpu=40),
        Fam('modules', p_lib, 50, 800, v, shard=2, cpu=40),
    ]
