"""C13: execution is independent of how and with whom a thread is driven."""
from vlib import progs, gen, lang, split
from vlib.core import Fam, Unit, diff
from vlib.run import Case, cmd, unesc

SCALE = 2
RULE = ('Generated programs run to completion, by single cycles, in random chunks with queries, host reads, collections and disassembly in the pauses, interleaved at random with other threads '
        'of the same and of other states, driven on by a foreign function they call (also by debug_break, with commands on standard input), and restarted after they have finished; each thread must give the trace predicted for it alone. While threads run, allocation from the state is '
        'forbidden and the memory of the compiled state must not change. Each cycle must report execution exactly when the thread was not finished. Distinct by program and schedule.')


def prog(ctx, steps=8000, **over):
    r = ctx.rng
    return progs.make(ctx, r.choice(['default', 'calls', 'flow', 'scope', 'struct', 'heap', 'exprb', 'host']), steps=steps, **over)


def p_chunks(ctx):
    r = ctx.rng
    m = prog(ctx)
    src = progs.source(m, r)
    c = progs.start(m, src, gc=r.choice([0, 0, 1, 2, 3]), seed=r.randrange(1000))
    c.add('savehash', 0, 's')
    c.add('forbid', 0, 1)
    g = sorted(m.gen.gl)
    n = 0
    how = r.random()
    if how < .1:
        c.add('runraw', 0)
    elif how < .2:
        c.add('run', 0)
    else:
        mc = r.choice([1, 2, 10, 100, 1000])
        for _ in range(r.choice([5, 30, 100])):
            c.add('steps', 0, r.randrange(1, mc + 1))
            k = r.randrange(9)
            if k == 0:
                c.add('where', 0)
            elif k == 1:
                c.add('pc', 0)
            elif k == 2 and g:
                c.add('getg', 0, r.choice(g))
            elif k == 3:
                c.add('forcegc', 0)
            elif k == 4:
                c.add('isdone', 0)
            elif k == 5:
                c.add('step', 0)
            elif k == 6 and r.random() < .2:
                c.add('disq', 0)
            elif k == 7:
                c.add('stats', 0)
            n += 1
        c.add('run', 0)
    c.add('isdone', 0)
    c.add('step', 0)
    c.add('steps', 0, 3)
    c.add('isdone', 0)
    c.add('savehash', 0, 'c')
    c.add('forbid', 0, 0)
    progs.finish(c)
    ctx.count('pauses', n)
    exp = ['compile 0 ok'] + m.it.ev + ['done 0 sp=0 fc=0']

    def judge(rs):
        l = rs[0].lines
        tail = l[-3:]
        if tail != ['isdone 0 1', 'step 0 0 done=1', 'isdone 0 1']:
            return 'the finished thread is not reported as finished: %s' % tail
        drop = ('at ', 'pc ', 'glob ', 'isdone', 'step ', 'disq', 'stats', 'forcegc', 'objs')
        return diff(exp, [x for x in l if not x.startswith(drop)])
    yield Unit([(r.choice(['fast', 'asan']), c)], judge, '\n'.join(c.cmds), src.decode('latin-1'))


def p_shapes(ctx):
    """Deep recursion, programs that begin with a loop, long straight lines: driven in single cycles, chunks and at once."""
    r = ctx.rng
    k = r.randrange(5)
    t = r.randrange(2, 6)
    if k == 0:
        d = r.choice([10, 150, 200, 250, 300, 500, 900])
        src = 'func f(n: int, s: str): int { if n == 0 { return 7 } x := f(n - 1, strcat(s, "x")) return x + n }\nemit(f(%d, ""))' % d
        ev = [progs.emitted(7 + d * (d + 1) // 2)]
    elif k == 1:          # the first instruction is the target of the jump
        src = 'while more(%d) { emit("in") }\nemit("out")' % t
        ev = [progs.emitted(b'in')] * (t - 1) + [progs.emitted(b'out')]
    elif k == 2:
        src = 'while more(%d) { if x0() { continue } emit(1) }\nfunc x0(): bool { return false }\nfor i := 0; i < 3; i += 1 { emit(i) }' % (2 * t)
        ev = [progs.emitted(1)] * (2 * t - 1) + [progs.emitted(i) for i in range(3)]
    elif k == 3:
        d = r.choice([100, 400, 900])
        src = 'func f(n: int): str { if n == 0 { return "." } y := strcat(int_to_str(n %% 10), f(n - 1)) return y }\nfunc g(n: int): int { if n > 0 { g(n - 1) } return n }\nemit(f(%d))\nemit(g(%d))' % (d, d)
        ev = [progs.emitted(''.join(str(i % 10) for i in range(d, 0, -1)).encode() + b'.'), progs.emitted(d)]
    else:
        n = r.choice([100, 1000, 3000])
        src = 'x := 0\n' + '\n'.join('x += %d' % (i % 7) for i in range(n)) + '\nemit(x)'
        ev = [progs.emitted(sum(i % 7 for i in range(n)))]
    c = Case(gen.setup(extra=(cmd('bind', '0', 'more(int): bool', 'more'),)))
    c.add('compile', 0, 'm', src)
    progs.begin(c, gc=r.choice([0, 0, 2]), seed=r.randrange(99))
    how = r.choice(['run', 'runraw', 'steps', 'chunks'])
    if how == 'chunks':
        for _ in range(r.choice([10, 100])):
            c.add('steps', 0, r.choice([1, 2, 3, 50, 300]))
            if r.random() < .1:
                c.add('forcegc', 0)
    elif how == 'steps':
        c.add('steps', 0, 10 ** 6)
    c.add('runraw' if how == 'runraw' else 'run', 0)
    progs.finish(c)

    def judge(rs):
        return diff(['compile 0 ok'] + ev + ['done 0 sp=0 fc=0'], [x for x in rs[0].lines if not x.startswith(('forcegc', 'objs'))])
    yield Unit([(r.choice(['fast', 'asan']), c)], judge, '\n'.join(c.cmds), src[:3000])


def p_single(ctx):
    """Single cycles, each reported."""
    r = ctx.rng
    m = prog(ctx, steps=60, main=4, globals=1, funcs=1)
    src = progs.source(m, r)
    c = progs.start(m, src)
    for _ in range(500):
        c.add('step', 0)
    c.add('run', 0)
    progs.finish(c)
    exp = ['compile 0 ok'] + m.it.ev + ['done 0 sp=0 fc=0']

    def judge(rs):
        st = [x for x in rs[0].lines if x.startswith('step ')]
        seen = False
        for x in st:
            _, _, r_, d = x.split(' ')
            if seen and (r_ != '0' or d != 'done=1'):
                return 'after the end: ' + x
            if not seen and r_ != '1':
                return 'before the end: ' + x
            if d == 'done=1':
                seen = True
        return diff(exp, [x for x in rs[0].lines if not x.startswith('step ')])
    yield Unit([('fast', c)], judge, src, src.decode('latin-1'))


def p_inter(ctx):
    r = ctx.rng
    ns = r.choice([1, 1, 2, 3])
    ms = [prog(ctx, steps=4000) for _ in range(ns)]
    c = Case()
    for s, m in enumerate(ms):
        c.cmds += gen.setup(s)
        c.add('compile', s, 's%d' % s, progs.source(m, r))
    exp = {}
    nt = r.choice([2, 3, 4, 8])
    for t in range(nt):
        s = r.randrange(ns)
        exp[t] = progs.retid(ms[s].it.ev, t)
        progs.begin(c, s, t, gc=r.choice([0, 0, 1, 2]), seed=r.randrange(1000))
    for s in range(ns):
        c.add('savehash', s, 's')
        c.add('forbid', s, 1)
    c.add('interleave', r.randrange(10 ** 6), r.choice([1, 1, 2, 7, 50, 1000]), *range(nt))
    for s in range(ns):
        c.add('savehash', s, 'c')
        c.add('forbid', s, 0)
    for t in range(nt):
        c.add('destroy', t)
    for s in range(ns):
        c.add('delstate', s)
    ctx.count('threads interleaved', nt)

    def judge(rs):
        got = {t: [] for t in range(nt)}
        for x in rs[0].lines:
            k = x.split(' ', 2)
            if x.startswith('compile'):
                if k[2] != 'ok':
                    return x
            elif k[0] == 'interleave':
                return 'does not end'
            else:
                got[int(k[1])].append(x)
        for t in range(nt):
            d = diff(exp[t] + ['done %d sp=0 fc=0' % t], got[t])
            if d:
                return 'thread %d: %s' % (t, d)
    yield Unit([(r.choice(['fast', 'asan']), c)], judge, '\n'.join(c.cmds), None)


def p_restart(ctx):
    r = ctx.rng
    for _ in range(20):
        m = prog(ctx, steps=3000)
        it = m.it
        ev = list(it.ev)
        segs = [ev]
        try:
            for _ in range(r.randrange(1, 4)):
                k = len(it.ev)
                it.steps = 0
                it.run()
                segs.append(it.ev[k:])
        except (lang.Unclaimed, lang.TooLong, RecursionError):
            if len(segs) < 2:
                continue
        break
    else:
        return
    src = progs.source(m, r)
    c = progs.start(m, src, gc=r.choice([0, 1, 2]), seed=r.randrange(1000))
    exp = ['compile 0 ok']
    for k, e in enumerate(segs):
        if k:
            c.add('start', 0)
        if r.random() < .3:
            c.add('steps', 0, r.randrange(1, 200))
        c.add('run', 0)
        exp += e + ['done 0 sp=0 fc=0']
    progs.finish(c)
    ctx.count('restarts', len(segs) - 1)
    yield Unit([(r.choice(['fast', 'asan']), c)], lambda rs: diff(exp, rs[0].lines), src, src.decode('latin-1'), trivial=len(ev) < 2)


def p_isolated(ctx):
    """Threads of one state share no variable: each counts on its own, whatever the host sets in others."""
    r = ctx.rng
    nt = r.choice([2, 3, 5])
    k = r.randrange(2, 30)
    src = '''x := 0
s := strcat("st", "art")
struct P { v: int next: P? }
p := new P { 0, cast(null, P?) }
use array("int") as array_int
a := array_int()
func work(n: int): int {
    x += n
    s = strcat(s, int_to_str(n))
    p = new P { p.v + n, cast(cast(p, any), P?) }
    a -> array_int_push(x)
    return x
}
for i := 0; i < %d; i += 1 { work(i) emit(x, p.v, array_int_len(a), strlen(s)) }
emit(s)
''' % k
    c = Case(gen.setup())
    c.add('compile', 0, 'm', src)
    exp = {}
    seq = {}
    for t in range(nt):
        progs.begin(c, 0, t, gc=r.choice([0, 1, 2]), seed=r.randrange(99))
        ev = []
        x, n, sl, st = 0, 0, 5, b'start'
        for i in range(k):
            x += i
            st += b'%d' % i
            ev.append(progs.emitted(x, x, i + 1, len(st), t=t))
        ev.append(progs.emitted(st, t=t))
        exp[t] = ev
        seq[t] = x
    c.add('savehash', 0, 's')
    c.add('interleave', r.randrange(10 ** 6), r.choice([1, 3, 20]), *range(nt))
    # host calls on one thread change only that thread
    add = {}
    for _ in range(r.randrange(1, 6)):
        t = r.randrange(nt)
        v = r.randrange(100)
        c.add('call', t, 'work', 'i%d' % v)
        seq[t] += v
        exp[t] = exp[t] + ['ret %d i%d' % (t, seq[t])]
    d = r.randrange(nt)
    c.add('destroy', d)
    for t in range(nt):
        if t != d:
            c.add('getg', t, 'x')
            exp[t] = exp[t] + ['glob %d x i%d' % (t, seq[t])]
            c.add('forcegc', t)
            c.add('getg', t, 'x')
            exp[t] = exp[t] + ['glob %d x i%d' % (t, seq[t])]
            c.add('destroy', t)
    c.add('savehash', 0, 'c')
    c.add('delstate', 0)

    def judge(rs):
        got = {t: [] for t in range(nt)}
        for x in rs[0].lines:
            k = x.split(' ', 2)
            if k[0] in ('emit', 'ret', 'glob'):
                got[int(k[1])].append(x)
        for t in range(nt):
            e = diff(exp[t], got[t])
            if e:
                return 'thread %d: %s' % (t, e)
    yield Unit([('asan', c)], judge, '\n'.join(c.cmds), src)


def p_nested(ctx):
    """A thread paused inside calls, loops and expressions while the host calls functions on other threads."""
    r = ctx.rng
    m = prog(ctx, steps=3000)
    fs = [f for f in m.prog.funcs.values() if not f.params]
    src = progs.source(m, r)
    c = progs.start(m, src, gc=r.choice([0, 2]))
    progs.begin(c, 0, 1)
    for _ in range(r.choice([5, 20])):
        c.add('steps', 0, r.randrange(1, 200))
        k = r.randrange(4)
        if k == 0:
            c.add('steps', 1, r.randrange(1, 200))
        elif k == 1:
            c.add('note', 'begin')
            c.add('thread', 2, 0)
            c.add('start', 2)
            c.add('steps', 2, r.randrange(1, 500))
            c.add('destroy', 2)
        elif k == 2:
            c.add('forcegc', 1)
    c.add('run', 0)
    c.add('run', 1)
    c.add('destroy', 1)
    progs.finish(c)

    def judge(rs):
        got = {0: [], 1: [], 2: []}
        two = progs.retid(m.it.ev, 2)
        for x in rs[0].lines:
            k = x.split(' ', 2)
            if k[0] == 'note':
                got[2] = []
                continue
            if k[0] in ('compile', 'forcegc'):
                continue
            got[int(k[1])].append(x)
            if k[1] == '2' and k[0] != 'done':
                # partial runs in between are prefixes of the same trace
                n = len(got[2])
                if n > len(two) or two[n - 1] != x:
                    return 'a thread run for a while in between observed %s as event %d' % (x, n)
        for t in (0, 1):
            d = diff(progs.retid(m.it.ev, t) + ['done %d sp=0 fc=0' % t], got[t])
            if d:
                return 'thread %d: %s' % (t, d)
    yield Unit([(r.choice(['fast', 'asan']), c)], judge, '\n'.join(c.cmds), src.decode('latin-1'))


def p_driven(ctx):
    """A foreign function that the program calls executes the rest of the program, in cycles or at once."""
    r = ctx.rng
    m = prog(ctx)
    ts = split.texts(split.split(m, r, most=r.choice([2, 4, 8])), r, style='normal')
    debug = r.random() < .5
    at = sorted(r.sample(range(len(ts) + 1), 1 if debug else r.randrange(1, min(3, len(ts)) + 1)))
    src, data, cmds, plain = b'', b'', [], True
    for i in range(len(ts) + 1):
        if i in at:
            if debug:
                src += b'debug_break()\n'
                for _ in range(r.choice([0, 1, 3, 20, 100])):
                    x = r.choice([b's'] * 12 + [b'x', b'', b'step', b'top2'])
                    plain = plain and x != b'top2'
                    cmds.append(x)
                cmds.append(b'c')
                data = b'\n'.join(cmds) + b'\n'
            else:
                src += b'drive(%d)\n' % r.choice([0, 1, 2, 5, 17, 100, 1000])
        if i < len(ts):
            src += ts[i] + b'\n'
    c = Case(gen.setup(extra=(cmd('bind', '0', 'drive(int): int', 'drive'),)))
    if debug:
        c.add('tmpdir')
        c.add('stdin', data)
    c.add('compile', 0, 'm', src)
    progs.begin(c, gc=r.choice([0, 0, 1, 2, 3]), seed=r.randrange(1000))
    c.add('savehash', 0, 's')
    c.add('run', 0)
    c.add('out')
    if debug:
        progs.begin(c, 0, 1, gc=3)
        c.add('exectrace', 1, 3000)
        c.add('savehash', 0, 'c')
        c.add('destroy', 1)
    progs.finish(c)
    ctx.count('commands of a debugger' if debug else 'threads driven by a function of theirs', len(cmds) or len(at))

    def judge(rs):
        l = rs[0].lines
        ex = [x for x in l if x.startswith('ex ')]
        out = [x for x in l if x.startswith('out ')]
        n = l.index(out[0]) if out else len(l)
        d = diff(['compile 0 ok'] + m.it.ev + ['done 0 sp=0 fc=0'], [x for x in l[:n] if not x.startswith('savehash')])
        if d or not debug or not plain:
            return d
        dis = [unesc(x.split(' "', 1)[1].rsplit('" ', 1)[0]).decode('latin-1') for x in ex]
        k = [i for i, x in enumerate(dis) if 'CALLF debug_break(' in x]
        if not k:
            return None
        dis = dis[k[0] + 1:]
        want, pos = '', 0
        for x in cmds:
            if pos >= len(dis):
                return None
            want += dis[pos] + '\n> ' + ('' if x in (b's', b'c') else 'no such command\n')
            pos += x == b's'
        got = unesc(out[0][5:-1]).decode('latin-1')
        if got != want:
            i = next((i for i, (p, q) in enumerate(zip(got, want)) if p != q), min(len(got), len(want)))
            return 'stepping shows %r where %r is executed next' % (got[max(0, i - 60):i + 60], want[max(0, i - 60):i + 60])
    yield Unit([(r.choice(['fast', 'asan']), c)], judge, src + data, src.decode('latin-1'))


def families(tier):
    v = ('asan', 'fast')
    return [
        Fam('chunks', p_chunks, 500, 12000, v),
        Fam('shapes', p_shapes, 120, 2000, v),
        Fam('single', p_single, 150, 3000, ('fast',)),
        Fam('interleave', p_inter, 400, 10000, v),
        Fam('restart', p_restart, 300, 8000, v),
        Fam('driven', p_driven, 300, 6000, v),
        Fam('isolated', p_isolated, 100, 1500, ('asan',)),
        Fam('paused', p_nested, 250, 6000, v),
    ]
