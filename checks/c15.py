"""C15: calls from the host (and from foreign functions) into script functions."""
import struct
from vlib import progs, gen, lang
from vlib.core import Fam, Unit, diff
from vlib.run import Case, f2hex

SCALE = 2
RULE = ('Script functions called from the host on fresh, started, paused (at every kind of instruction), finished and restarted threads, and from foreign functions while a call is in progress, nested to many '
        'levels, with collections at any point: results, events and later globals must be those a reference model gives, the interrupted execution must continue as predicted, and pc, fp, sp and fc '
        'must be as before the call. Lookups by name of declared and undeclared functions and globals. Distinct by program and calls.')


def hv(v):
    """host value token"""
    if v is None:
        return 'n'
    if v is True or v is False:
        return 'b%d' % v
    if isinstance(v, int):
        return 'i%d' % v
    if isinstance(v, float):
        return 'f' + f2hex(v)
    return b's:' + v


def rndval(r, t):
    if t == 'int':
        return r.choice([0, 1, -1, 2, 3, 7, 100, r.randrange(-1000, 1000), 1 << 40, -(1 << 35), lang.INT_MAX])
    if t == 'float':
        return r.choice([0.0, 1.0, -2.5, 1e10, 0.1, r.uniform(-100, 100)])
    if t == 'bool':
        return r.random() < .5
    if t == 'str':
        return r.choice([b'', b'a', b'hello', bytes(r.randrange(1, 256) for _ in range(r.randrange(0, 20))), b'x' * r.randrange(300)])
    if t[0] == 'any':
        return rndval(r, t[1]) if t[1] in ('int', 'float', 'bool', 'str') else NotImplemented
    if t[0] == 'opt':
        return None
    return NotImplemented


def callable_(m, r):
    fs = []
    for f in m.prog.funcs.values():
        a = []
        for n, t in f.params:
            v = r.randrange(0, 4) if n == 'fuel' else rndval(r, t)
            if v is NotImplemented:
                break
            a.append(v)
        else:
            fs.append((f, a))
    return fs


def p_finished(ctx):
    """Generated functions called after the program has run."""
    r = ctx.rng
    for _ in range(20):
        m = progs.make(ctx, r.choice(['calls', 'default', 'expr', 'scope', 'host', 'heap', 'struct', 'flow', 'types']), steps=4000, funcs=6)
        if m.prog.funcs:
            break
    else:
        return
    it = m.it
    src = progs.source(m, r)
    c = progs.start(m, src, gc=r.choice([0, 0, 1, 2, 3]), seed=r.randrange(1000))
    c.add('run', 0)
    exp = ['compile 0 ok'] + it.ev + ['done 0 sp=0 fc=0']
    n = 0
    it.max_steps = 8000
    for _ in range(r.choice([3, 10, 40])):
        fs = callable_(m, r)
        if not fs:
            break
        f, a = r.choice(fs)
        k = len(it.ev)
        it.steps = 0
        it.depth = 0
        try:
            v = it.callf(f.name, list(a))
        except (lang.Unclaimed, lang.TooLong, RecursionError):
            break
        c.add('call', 0, f.name, *[hv(x) for x in a])
        exp += it.ev[k:]
        exp.append('ret 0 ' + (lang.ser(v) if f.ret != 'void' else 'n'))
        n += 1
    c.add('isdone', 0)
    exp.append('isdone 0 1')
    progs.finish(c)
    ctx.count('calls', n)
    void = {i for i, x in enumerate(exp) if x.startswith('ret ') and x.endswith(' n')}

    def judge(rs):
        # what a call of a function without a result gives back is not specified
        l = [x if i not in void else exp[i] if x.startswith('ret ') else x for i, x in enumerate(rs[0].lines)]
        return diff(exp, l)
    yield Unit([(r.choice(['fast', 'asan']), c)], judge, '\n'.join(c.cmds), src.decode('latin-1'), trivial=n == 0)


# ---------------------------------------------------------------- a library with a model

LIB = '''
hcount := 0
hlog := "s"
htot := 0.5
struct HNode { v: int s: str next: HNode? }
hlist := cast(null, HNode?)
hkeep := cast(0, any)
use array("int") as array_int
harr := array_int()

func h_add(a: int, b: int): int { return a + b }
func h_sub3(a: int, b: int, c: int): int { return a - b * c }
func h_mix(a: int, f: float, s: str, b: bool): str {
    if b { return strcat(s, int_to_str(a)) }
    return strcat(s, "-", int_to_str(int(f)))
}
func h_count(n: int): int { hcount += n return hcount }
func h_log(s: str): str { hlog = strcat(hlog, s) return hlog }
func h_tot(f: float): float { htot += f return htot }
func h_push(v: int, s: str): int {
    hlist = cast(cast(new HNode { v, strcat(s, "!"), hlist }, any), HNode?)
    t := 0
    n := hlist
    while n != cast(null, HNode?) {
        m := cast(cast(n, any), HNode)
        t += m.v + strlen(m.s)
        n = m.next
    }
    return t
}
func h_fib(n: int): int { if n < 2 { return n } return h_fib(n - 1) + h_fib(n - 2) }
func h_deep(n: int): int { if n <= 0 { return 0 } return 1 + h_deep(n - 1) }
func h_void(x: int) { hcount += x }
func h_arr(v: int): int { harr -> array_int_push(v) t := 0 for i := 0; i < array_int_len(harr); i += 1 { t += harr[i] * (i + 1) } return t }
func h_id(v: any): any { return v }
func h_keep(v: any): any { old := hkeep hkeep = v return old }
func h_emit(a: any, b: any): int { emit(a, b) return 2 }
func h_garbage(n: int): str { s := "" for i := 0; i < n; i += 1 { s = strcat(s, int_to_str(i % 10)) } return s }
func h_nest(n: int): int {
    if n <= 0 { return 1 }
    x := n * 10
    s := strcat("n", int_to_str(n))
    y := cast(callback("h_nest", n - 1), int)
    if strlen(s) < 2 { return 0 }
    return x + y
}
func h_nest2(n: int, s: str): str {
    if n <= 0 { return s }
    return strcat(int_to_str(n), cast(callback("h_nest2", n - 1, strcat(s, ".")), str), int_to_str(h_fib(n % 6)), cast(callback("h_garbage", n), str))
}
func h_cf(n: int): any { return call_function(get_function_index("h_fib"), n) }
func h_cf2(a: int, b: int): int { return h_add(cast(call_function(get_function_index("h_add"), a, b), int), cast(call_function(get_function_index("h_sub3"), a, b, 2), int)) }
'''


class Model:
    def __init__(self):
        self.count = 0
        self.log = b's'
        self.tot = 0.5
        self.list = []
        self.arr = []
        self.keep = 0

    def call(self, r, ev):
        """random call: (name, args, result)"""
        def i():
            return r.choice([0, 1, -1, 5, r.randrange(-10 ** 6, 10 ** 6)])

        def s():
            return bytes(r.randrange(1, 256) for _ in range(r.randrange(0, 12)))
        k = r.randrange(18)
        if k == 0:
            a, b = i(), i()
            return 'h_add', [a, b], a + b
        if k == 1:
            a, b, c = i(), i(), i()
            return 'h_sub3', [a, b, c], a - b * c
        if k == 2:
            a, f, t, b = i(), round(r.uniform(-50, 50), 2), s(), r.random() < .5
            return 'h_mix', [a, f, t, b], t + (b'%d' % a if b else b'-%d' % int(f))
        if k == 3:
            n = i()
            self.count += n
            return 'h_count', [n], self.count
        if k == 4:
            t = s()
            self.log += t
            return 'h_log', [t], self.log
        if k == 5:
            f = r.choice([0.25, 1.5, -3.0, 1000.125])
            self.tot += f
            return 'h_tot', [f], self.tot
        if k == 6:
            v, t = r.randrange(100), s()
            self.list.append((v, len(t) + 1))
            return 'h_push', [v, t], sum(a + b for a, b in self.list)
        if k == 7:
            n = r.randrange(0, 11)
            a, b = 0, 1
            for _ in range(n):
                a, b = b, a + b
            return 'h_fib', [n], a
        if k == 8:
            n = r.choice([0, 1, 10, 40])
            return 'h_deep', [n], n
        if k == 9:
            n = i()
            self.count += n
            return 'h_void', [n], NotImplemented
        if k == 10:
            v = r.randrange(100)
            self.arr.append(v)
            return 'h_arr', [v], sum(x * (j + 1) for j, x in enumerate(self.arr))
        if k == 11:
            v = rndval(r, r.choice(['int', 'float', 'bool', 'str']))
            return 'h_id', [v], v
        if k == 12:
            v = rndval(r, r.choice(['int', 'float', 'bool', 'str']))
            o, self.keep = self.keep, v
            return 'h_keep', [v], o
        if k == 13:
            a, b = i(), s()
            ev.append(progs.emitted(a, b))
            return 'h_emit', [a, b], 2
        if k == 14:
            n = r.choice([0, 5, 50, 200])
            return 'h_garbage', [n], b''.join(b'%d' % (x % 10) for x in range(n))
        if k == 15:
            n = r.randrange(0, 12)
            return 'h_nest', [n], 1 + sum(x * 10 for x in range(1, n + 1))
        if k == 16:
            n, t = r.randrange(0, 8), s()
            return 'h_nest2', [n, t], nest2(n, t)
        a, b = i(), i()
        return 'h_cf2', [a, b], (a + b) + (a - b * 2)

    def globs(self):
        return [('hcount', lang.ser(self.count)), ('hlog', lang.ser(self.log)), ('htot', lang.ser(self.tot)), ('hkeep', lang.ser(self.keep)),
                ('harr', None), ('hlist', None)]


FIB = [0, 1, 1, 2, 3, 5, 8, 13]


def nest2(n, s):
    if n <= 0:
        return s
    return b'%d' % n + nest2(n - 1, s + b'.') + b'%d' % FIB[n % 6] + b''.join(b'%d' % (x % 10) for x in range(n))


def docall(c, md, r, t=0):
    ev = []
    n, a, v = md.call(r, ev)
    c.add('call', t, n, *[hv(x) for x in a])
    e = [('x', x) for x in progs.retid(ev, t)]
    e.append(('v', n) if v is NotImplemented else ('x', 'ret %d %s' % (t, lang.ser(v))))
    return e


def match(exp, lines, what='host'):
    for k, y in enumerate(exp):
        if k >= len(lines):
            return '%s: incomplete, expected %s' % (what, y[1])
        if y[0] == 'x' and y[1] != lines[k] or y[0] == 'v' and not lines[k].startswith('ret '):
            return '%s: expected %s, observed %s' % (what, y[1][:300], lines[k][:300])
    if len(lines) > len(exp):
        return '%s: unexpected %s' % (what, lines[len(exp)][:300])


def p_fresh(ctx):
    r = ctx.rng
    md = Model()
    c = Case(gen.setup())
    c.add('compile', 0, 'lib', LIB)
    c.add('thread', 0, 0)
    c.add('gcmode', 0, r.choice([0, 1, 2]), r.randrange(99))
    exp = [('x', 'compile 0 ok')]
    st = r.choice(['init', 'init', 'start', 'run', 'part'])
    pure = ('h_add', 'h_sub3', 'h_mix', 'h_fib', 'h_deep', 'h_id', 'h_emit', 'h_garbage', 'h_nest', 'h_nest2', 'h_cf2')

    def pures(k):
        out = []
        for _ in range(k):
            while True:
                ev = []
                n, a, v = Model().call(r, ev)
                if n in pure:
                    break
            c.add('call', 0, n, *[hv(x) for x in a])
            out += [('x', x) for x in ev] + [('x', 'ret 0 ' + lang.ser(v))]
        return out
    c.add('isdone', 0)
    exp.append(('x', 'isdone 0 1'))
    exp += pures(r.randrange(0, 6))
    c.add('isdone', 0)
    exp.append(('x', 'isdone 0 1'))
    c.add('step', 0)
    exp.append(('x', 'step 0 0 done=1'))
    c.add('start', 0)
    c.add('isdone', 0)
    exp.append(('x', 'isdone 0 0'))
    exp += pures(r.randrange(0, 4))
    if r.random() < .5:
        c.add('steps', 0, r.randrange(1, 12))
        exp += pures(r.randrange(0, 4))
    c.add('isdone', 0)
    exp.append(('x', 'isdone 0 0'))
    c.add('run', 0)
    exp.append(('x', 'done 0 sp=0 fc=0'))
    for rep in range(r.choice([1, 2, 3])):
        for _ in range(r.randrange(1, 15)):
            exp += docall(c, md, r)
        for g, v in md.globs():
            if v is not None:
                c.add('getg', 0, g)
                exp.append(('x', 'glob 0 %s %s' % (g, v)))
        if r.random() < .5:
            g, v = r.choice([('hcount', 1 << 33), ('hlog', b'new'), ('hkeep', 7), ('htot', 2.0)])
            c.add('setg', 0, g, hv(v))
            setattr(md, g[1:], v)
        if r.random() < .3:   # restart
            c.add('start', 0)
            exp += pures(2)
            c.add('run', 0)
            exp.append(('x', 'done 0 sp=0 fc=0'))
            md = Model()
    progs.finish(c)
    yield Unit([(r.choice(['fast', 'asan']), c)], lambda rs: match(exp, rs[0].lines), '\n'.join(c.cmds), None)


def p_paused(ctx):
    """Calls in the pauses of a generated program: both traces must be as predicted."""
    r = ctx.rng
    small = r.random() < .5
    if small:
        m = progs.make(ctx, r.choice(['calls', 'exprb', 'expr', 'host']), steps=120, main=5, globals=2, funcs=3)
    else:
        m = progs.make(ctx, r.choice(['default', 'calls', 'host', 'struct', 'heap', 'scope', 'flow']), steps=3000)
    src = progs.source(m, r)
    lib = LIB
    if ('A', 'int') in m.gen.arr_types:
        lib = lib.replace('use array("int") as array_int\n', '')
    md = Model()
    c = Case(gen.setup())
    c.add('compile', 0, 'lib', lib if lib is LIB else 'use array("int") as array_int\n' + lib)
    c.add('compile', 0, 'main', src if lib is LIB else src.replace(b'use array("int") as array_int', b''))
    first = 150
    t = 0
    progs.begin(c, 0, t, gc=r.choice([0, 0, 1, 2, 3]), seed=r.randrange(1000))
    c.add('steps', 0, first)
    hexp = []
    k = 0
    calls = ('h_void',)
    for _ in range(r.choice([20, 60]) if small else r.choice([5, 20])):
        c.add('steps', 0, 1 if small else r.randrange(1, 300))
        for _ in range(r.choice([1, 1, 2, 4])):
            c.add('note', 'call')
            e = docall(c, md, r)
            c.add('note', 'endcall')
            hexp.append(e)
            k += 1
        if r.random() < .1:
            c.add('forcegc', 0)
    c.add('run', 0)
    gl = []
    for g, v in md.globs():
        if v is not None:
            c.add('getg', 0, g)
            gl.append('glob 0 %s %s' % (g, v))
    progs.finish(c)
    ctx.count('calls in pauses', k)
    exp = ['compile 0 ok', 'compile 0 ok'] + m.it.ev + ['done 0 sp=0 fc=0'] + gl

    def judge(rs):
        main, host, cur = [], [], None
        for x in rs[0].lines:
            if x == 'note call':
                cur = []
            elif x == 'note endcall':
                host.append(cur)
                cur = None
            elif cur is not None:
                cur.append(x)
            else:
                main.append(x)
        for j, e in enumerate(hexp):
            d = match(e, host[j] if j < len(host) else [], 'host call %d' % j)
            if d:
                return d
        return diff(exp, main)
    yield Unit([(r.choice(['fast', 'asan']), c)], judge, '\n'.join(c.cmds), src.decode('latin-1'))


def p_nested(ctx):
    """Generated programs whose functions are called back by foreign functions."""
    r = ctx.rng
    m = progs.make(ctx, 'calls', callbacks=1.0, steps=6000)
    src = progs.source(m, r)
    c = progs.start(m, src, gc=r.choice([0, 1, 2]), seed=r.randrange(1000))
    c.add('run' if r.random() < .8 else 'runraw', 0)
    progs.finish(c)
    exp = ['compile 0 ok'] + m.it.ev + ['done 0 sp=0 fc=0']
    yield progs.unit(m, src, [(r.choice(['fast', 'asan']), c)], [exp])


def p_args(ctx):
    """Any number of arguments, each passed in its place, from the host and from foreign functions."""
    r = ctx.rng
    n = r.choice([0, 1, 2, 3, 10, 50, 100, 200, 250, 255]) if ctx.i > 3 else [0, 1, 254, 255][ctx.i]
    kinds = [r.choice(['int', 'float', 'bool', 'str']) for _ in range(n)]
    # the function emits its arguments in groups, then a local and an intermediate value
    body = ''
    for lo in range(0, n, 40):
        body += '    emit(%s)\n' % ', '.join('a%d' % j for j in range(lo, min(n, lo + 40)))
    ret = r.randrange(n) if n else None
    rt = kinds[ret] if n else 'int'
    src = 'func f(%s): %s {\n    loc := 12\n%s    emit(loc)\n    return %s\n}\n' % (
        ', '.join('a%d: %s' % (j, k) for j, k in enumerate(kinds)), rt, body, 'a%d' % ret if n else '77')
    src += 'func g(): int { return 5 }\n'
    vals = [rndval(r, k) for k in kinds]
    through = r.random() < .4 and n <= 200
    if through:
        src += 'func via(x: int): any { y := x + 1 z := callback("f"%s) emit(y) return z }\n' % ''.join(
            ', ' + lang_lit(v) for v in vals)
    c = Case(gen.setup())
    c.add('compile', 0, 'm', src.encode('latin-1'))
    progs.begin(c, gc=r.choice([0, 1]))
    exp = ['compile 0 ok']
    if r.random() < .5:
        c.add('run', 0)
        exp.append('done 0 sp=0 fc=0')
    body = []
    for lo in range(0, n, 40):
        body.append(progs.emitted(*vals[lo:lo + 40]))
    body.append(progs.emitted(12))
    rv = lang.ser(vals[ret]) if n else 'i77'
    for _ in range(2):
        c.add('call', 0, 'f', *[hv(v) for v in vals])
        exp += body + ['ret 0 ' + rv]
        c.add('call', 0, 'g')
        exp.append('ret 0 i5')
        if through:
            c.add('call', 0, 'via', 'i3')
            exp += body + [progs.emitted(4), 'ret 0 ' + rv]
    progs.finish(c)
    yield Unit([(r.choice(['asan', 'fast']), c)], lambda rs: diff(exp, rs[0].lines), src, src)


def lang_lit(v):
    """Source text of a value."""
    if v is True:
        return 'true'
    if v is False:
        return 'false'
    if isinstance(v, int):
        return str(v) if v >= 0 else '(0 - %d)' % -v
    if isinstance(v, float):
        t = '%.20f' % abs(v)
        return t if v >= 0 else '-' + t
    out = ''
    for ch in v:
        if ch in (34, 92):
            out += '\\' + chr(ch)
        elif ch == 10:
            out += '\\n'
        else:
            out += chr(ch)
    return '"' + out + '"'


def p_repeat(ctx):
    """Very many calls leave nothing behind."""
    r = ctx.rng
    n = r.choice([3000, 20000])
    c = Case(gen.setup())
    c.add('compile', 0, 'lib', LIB)
    progs.begin(c)
    where = r.choice(['fresh', 'paused', 'done'])
    if where == 'paused':
        c.add('steps', 0, 200)
    if where == 'done':
        c.add('run', 0)
    # h_void sums in a global, h_id returns its argument, h_garbage makes garbage
    c.add('steps', 0, 1000)
    c.add('calls', 0, n, 'h_count', 'i3')
    c.add('call', 0, 'h_count', 'i0')
    c.add('calls', 0, n // 10, 'h_garbage', 'i12')
    c.add('calls', 0, n // 10, 'h_nest', 'i5')
    c.add('run', 0)
    c.add('objs', 0)
    progs.finish(c)

    def judge(rs):
        l = rs[0].lines
        exp = ['compile 0 ok'] + (['done 0 sp=0 fc=0'] if where == 'done' else []) + [
            'ret 0 i%d' % (3 * n), 'ret 0 i%d' % (3 * n), 'ret 0 s"012345678901"', 'ret 0 i151', 'done 0 sp=0 fc=0']
        return diff(exp, l[:-1])
    yield Unit([('fast' if n > 5000 else 'asan', c)], judge, '\n'.join(c.cmds), None)


def p_lookup(ctx):
    """Names find exactly what is declared; indexes stay the same while more is compiled."""
    r = ctx.rng
    m = progs.make(ctx, r.choice(['default', 'scope', 'calls', 'struct']), steps=3000)
    src = progs.source(m, r)
    fs, gs = sorted(m.prog.funcs), sorted(m.gen.gl)
    # names which are equal over a long stretch, begin one another, or differ in one place only
    lf, lg, lc = [], [], []
    for _ in range(r.choice((0, 1, 1, 2))):
        n = r.choice((1, 3, 7, 15, 16, 31, 32, 33, 63, 64, 65, 127, 128, 200))
        w = 'zw%s' % ''.join(r.choice('abcXYZ_') for _ in range(n))
        ks = [w, w + 'a', w + 'b', w + 'ab', 'zv' + w[2:], 'zV' + w[2:], w[:-1] + '9', w + '_' + w]
        r.shuffle(ks)
        for k in ks:
            if k not in lf + lg + lc:
                r.choice((lf, lf, lg, lg, lc)).append(k)
    if r.random() < .2:       # more than one byte counts
        for i in range(r.choice([130, 260, 300, 520])):
            r.choice((lf, lf, lg)).append('zm%d' % i)
    src += ''.join(r.sample(['\nfunc %s(): int { return %d }' % (k, i) for i, k in enumerate(lf)] +
                            ['\n%s := %d' % (k, 1000 + i) for i, k in enumerate(lg)] +
                            ['\n%s :: %d' % (k, 2000 + i) for i, k in enumerate(lc)], len(lf + lg + lc))).encode()
    fs, gs = fs + lf, gs + lg
    c = Case(gen.setup())
    c.add('compile', 0, 'm', src)
    pool = fs + gs
    r.shuffle(pool)
    bad = ['', 'nosuch', 'emit', 'strlen', 'int', 'str', 'array', 'dict', 'main', '_', 'return', 'x' * 300, 'emit ', ' emit']
    for n in pool[:20]:
        bad += [n + 'x', n[:-1], n.upper(), n + ' ', 'a' + n, n + '0']
    q = []
    import re
    ids = set(re.findall(r'\w+', src.decode('latin-1')))
    bad = [n for n in bad if n not in ids]
    for n in pool + bad + lc:
        if n in lf + lg + lc or r.random() < .9:
            q.append(n)
    r.shuffle(q)
    for n in q:
        c.add('fidx', 0, n)
        c.add('gidx', 0, n)
    c.add('compile', 0, 'bad', 'zq := 1\nfunc zf() { }\nzq = nosuchq')
    c.add('compile', 0, 'more', 'zq2 := 1\nfunc zf2(): int { return 77 }\nfunc zf3(): int { return 78 }\nzq3 := 2\nfunc zf4(zp4: int) { zl4 := zp4 }\nZC4 :: 4\nstruct ZS4 { zf5: int }')
    for n in q + ['zq', 'zf', 'zq2', 'zq3', 'zf2', 'zf3', 'zp4', 'zl4', 'ZC4', 'ZS4', 'zf5', 'zf4']:
        c.add('fidx', 0, n)
        c.add('gidx', 0, n)
    c.add('thread', 0, 0)
    c.add('call', 0, 'zf2')
    c.add('call', 0, 'zf3')
    c.add('call', 0, 'zf')
    for k in lf:
        c.add('call', 0, k)
    progs.finish(c)

    def judge(rs):
        l = rs[0].lines
        if l[0] != 'compile 0 ok':
            return l[0][:300]
        f, g = {}, {}
        for x in l[1:]:
            k = x.split(' ')
            if k[0] == 'fidx' or k[0] == 'gidx':
                # an empty or blank name is printed as it is
                nm = x[5:x.rindex(' ')]
                v = int(k[-1])
                d = f if k[0] == 'fidx' else g
                yes = nm in (fs + ['zf2', 'zf3', 'zf4'] if d is f else gs + ['zq2', 'zq3'])
                if v < -1:
                    return '%s %r gives %d' % (k[0], nm, v)
                # the name of a function may also be that of a variable in a block at top level
                if yes != (v >= 0) and not (d is g and nm in fs):
                    return '%s %r gives %d' % (k[0], nm, v)
                if d.setdefault(nm, v) != v:
                    return '%s %r gives %d, before it was %d' % (k[0], nm, v, d[nm])
        for d, what in ((f, 'functions'), (g, 'globals')):
            used = [v for v in d.values() if v >= 0]
            if len(set(used)) != len(used):
                return 'two %s have the same index' % what
        tail = [x for x in l if x.startswith('ret ')]
        if tail != ['ret 0 i77', 'ret 0 i78', 'ret 0 missing zf'] + ['ret 0 i%d' % i for i in range(len(lf))]:
            return str(tail)
    yield Unit([('asan', c)], judge, src, None)


def p_globals(ctx):
    """Hundreds of functions and global variables, used from the host and the script alike."""
    r = ctx.rng
    n = r.choice([40, 130, 257, 300, 700])
    L = ['t%d := %d' % (i, i * 3) for i in range(n)] + ['g%d: any = "v%d"' % (i, i) for i in range(min(n, 300))]
    L += ['func get%d(): int { return t%d }' % (i, i) for i in range(n)] + ['func put%d(v: any): any { o := g%d g%d = v return o }' % (i, i, i) for i in range(min(n, 300))]
    r.shuffle(L)
    L = [l for l in L if not l.startswith('func')] + [l for l in L if l.startswith('func')]
    src = '\n'.join(L)
    c = Case(gen.setup())
    c.add('compile', 0, 'm', src)
    progs.begin(c, gc=r.choice([0, 1]))
    c.add('run', 0)
    exp = ['compile 0 ok', 'done 0 sp=0 fc=0']
    T = [i * 3 for i in range(n)]
    V = [lang.ser(b'v%d' % i) for i in range(min(n, 300))]
    for _ in range(120):
        i = r.choice([n - 1, 255, 256, 127, 128, 0, r.randrange(n), r.randrange(n)]) % n
        k = r.randrange(6)
        if k == 0:
            T[i] = r.randrange(10 ** 9)
            c.add('setg', 0, 't%d' % i, 'i%d' % T[i])
        elif k == 1:
            c.add('getg', 0, 't%d' % i)
            exp.append('glob 0 t%d i%d' % (i, T[i]))
        elif k == 2:
            c.add('call', 0, 'get%d' % i)
            exp.append('ret 0 i%d' % T[i])
        else:
            i %= len(V)
            if k == 3:
                c.add('getg', 0, 'g%d' % i)
                exp.append('glob 0 g%d %s' % (i, V[i]))
            else:
                s = b'w%d' % r.randrange(99)
                if k == 4:
                    c.add('call', 0, 'put%d' % i, hv(s))
                    exp.append('ret 0 ' + V[i])
                else:
                    c.add('setg', 0, 'g%d' % i, hv(s))
                V[i] = lang.ser(s)
    for i in r.sample(range(n), min(n, 40)):
        c.add('getg', 0, 't%d' % i)
        exp.append('glob 0 t%d i%d' % (i, T[i]))
    progs.finish(c)
    ctx.count('globals', n + len(V))
    yield Unit([(r.choice(['asan', 'fast']), c)], lambda rs: diff(exp, rs[0].lines), '\n'.join(c.cmds), src)


def families(tier):
    v = ('asan', 'fast')
    return [
        Fam('finished', p_finished, 500, 12000, v),
        Fam('fresh', p_fresh, 300, 6000, v),
        Fam('paused', p_paused, 500, 12000, v),
        Fam('nested', p_nested, 400, 8000, v),
        Fam('arguments', p_args, 120, 2000, v),
        Fam('globals', p_globals, 40, 600, v),
        Fam('repeat', p_repeat, 8, 60, v, cpu=40),
        Fam('lookup', p_lookup, 150, 2500, ('asan',)),
    ]
