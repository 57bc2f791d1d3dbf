"""C02: control flow, calls and recursion follow the program text."""
import itertools
from vlib import lang, progs, gen
from vlib.core import Fam, Unit, expect, diff
from vlib.run import Case
from checks import c30
from vlib.lang import binop, call, ident, lit, unop, N, Interp, Unclaimed, Func

RULE = ('Random programs rich in control flow and calls, plus every nesting of three constructs with every kind of exit, '
        'are run to the end and their complete effect trace is compared with the reference interpreter; the thread must '
        'finish by itself with an empty stack. Non-trivial: at least two events; distinct by source text. Edited programs (see C30) that still compile must run as predicted.')


def prog(ctx, preset, **over):
    m = progs.make(ctx, preset, **over)
    src = progs.source(m, ctx.rng)
    var = 'asan' if ctx.i % 2 else 'fast'
    c = progs.start(m, src)
    how = ctx.rng.choice(['run', 'run', 'runraw'])
    c.add(how, 0)
    progs.finish(c)
    ctx.count('deepest call chain', 0)
    ctx.stats['deepest call chain'] = max(ctx.stats['deepest call chain'], m.it.maxdepth)
    yield progs.unit(m, src, [(var, c)], [['compile 0 ok'] + m.it.ev + ['done 0 sp=0 fc=0']])


def p_flow(ctx):
    yield from prog(ctx, 'flow')


def p_calls(ctx):
    yield from prog(ctx, 'calls', fuel=ctx.rng.choice([2, 3, 5, 9]))


def p_bulk(ctx):
    yield from prog(ctx, ctx.rng.choice(['flow', 'calls', 'default']), pad=1.0, padmax=3, steps=150000)


# ---- systematic nestings

CON = ['if', 'ifelse', 'elif', 'while', 'for', 'block', 'for-nobrace', 'while-block']
EXIT = ['none', 'break', 'continue', 'return', 'returnv', 'cond-break', 'cond-continue', 'cond-return']


def emit(*a):
    return N('expr', e=call('emit', [lit('int', x) if isinstance(x, int) else x for x in a], 'void'))


class Skel:
    def __init__(self, r):
        self.r = r
        self.n = 0
        self.k = 0

    def leaf(self, ex, inloop):
        b = [emit(self.tag())]
        cond = ex.startswith('cond-')
        e = ex[5:] if cond else ex
        if e in ('break', 'continue') and not inloop:
            e = 'return'
        if e == 'none':
            return b
        st = N('return', e=lit('int', 77)) if e in ('return', 'returnv') else N(e)
        if cond:
            b.append(N('if', c=binop('>', call('tick', [], 'int'), lit('int', 2), 'bool'), a=N('block', body=[st]), b=None))
            b.append(emit(self.tag()))
        else:
            b.append(st)
        return b

    def tag(self):
        self.n += 1
        return self.n

    def build(self, cons, ex, inloop=False):
        if not cons:
            return self.leaf(ex, inloop)
        c, rest = cons[0], cons[1:]
        pre, post = [emit(self.tag())], [emit(self.tag())]
        loop = inloop or c.startswith(('while', 'for'))
        body = self.build(rest, ex, loop)
        blk = N('block', body=body)
        v = 'v%d' % self.k
        self.k += 1
        if c == 'if':
            s = [N('if', c=call('tbool', [lit('bool', True)], 'bool'), a=blk, b=None)]
        elif c == 'ifelse':
            s = [N('if', c=call('tbool', [lit('bool', False)], 'bool'), a=N('block', body=[emit(self.tag())]), b=blk)]
        elif c == 'elif':
            s = [N('if', c=lit('bool', False), a=N('block', body=[emit(self.tag())]),
                   b=N('if', c=call('tbool', [lit('bool', True)], 'bool'), a=blk,
                       b=N('block', body=[emit(self.tag())])))]
        elif c in ('while', 'while-block'):
            inc = N('assign', lhs=ident(v, 'int'), op='+=', e=lit('int', 1))
            b = N('block', body=[inc] + (body if c == 'while' else [blk]))
            s = [N('decl', name=v, ty=None, e=lit('int', 0)), N('while', c=binop('<', ident(v, 'int'), lit('int', 3), 'bool'), body=b)]
        elif c in ('for', 'for-nobrace'):
            b = blk
            if c == 'for-nobrace' and len(body) == 1:
                b = body[0]
            s = [N('for', init=N('decl', name=v, ty=None, e=lit('int', 0)), c=binop('<', ident(v, 'int'), lit('int', 3), 'bool'),
                   step=N('assign', lhs=ident(v, 'int'), op='+=', e=lit('int', 1)), body=b)]
        else:
            s = [blk]
        return pre + s + post


COMBOS = [(c, e) for n in (1, 2, 3) for c in itertools.product(CON, repeat=n) for e in EXIT]


def p_skel(ctx):
    r = ctx.rng
    per = 24
    part = COMBOS[ctx.i * per:(ctx.i + 1) * per]
    if not part:
        return
    p = lang.Program()
    foreign = {n: h[2] for n, h in lang.HOST.items()}
    p.items = []
    main = []
    sk = Skel(r)
    for k, (cons, ex) in enumerate(part):
        sk.k = 0
        body = sk.build(list(cons), ex) + [N('return', e=lit('int', k))]
        f = Func('s%d' % k, [('a', 'int')], 'int', body)
        p.funcs[f.name] = f
        main.append(emit(call(f.name, [lit('int', k)], 'int')))
        # the same construct at the top level, where leaving is by break/continue only
        if 'return' not in ex and any(c.startswith(('while', 'for')) for c in cons):
            sk.k = 1000 + k * 10
            main += sk.build(list(cons), ex)
    fs = list(p.funcs.values())
    p.items = fs + main if ctx.i % 2 else main[:5] + fs + main[5:]
    it = Interp(p, foreign)
    it.run()
    src = lang.render(p, r.choice(['normal', 'tight', 'wild']), r).encode('latin-1')
    ctx.count('nestings', len(part))
    c = Case(gen.setup()).add('compile', 0, 'skel', src).add('thread', 0, 0).add('start', 0).add('run', 0).add('destroy', 0).add('delstate', 0)
    yield Unit([('asan', c)], expect(['compile 0 ok'] + it.ev + ['done 0 sp=0 fc=0']), src, src.decode('latin-1'))


# ---- recursion with pending operands

def p_rec(ctx):
    """Deep and mutual recursion whose results depend on every pending operand."""
    r = ctx.rng
    n = r.choice([0, 1, 2, 5, 10, 30, 60, 200, 900, 1500])
    lines = ['func down(n: int, a: int): int { if n <= 0 { return a } x := n * 2 y := down(n - 1, a + 1) return y + x - n }']
    ev = []

    def down(n, a):
        s = 0
        for k in range(n):
            s += (n - k)
        return a + n + s
    lines.append('emit(down(%d, %d))' % (n, 5))
    ev.append('emit 0 1 i%d' % down(n, 5))
    lines.append('func even(n: int): bool { if n == 0 { return true } return odd(n - 1) } func odd(n: int): bool { if n == 0 { return false } return even(n - 1) }')
    lines.append('emit(even(%d), odd(%d))' % (n, n))
    ev.append('emit 0 2 b%d b%d' % (n % 2 == 0, n % 2 == 1))
    f = r.randrange(1, 16)
    lines.append('func fib(n: int): int { return if n < 2 n else fib(n - 1) + fib(n - 2) }')
    a, b = 0, 1
    for _ in range(f):
        a, b = b, a + b
    lines.append('emit(1, fib(%d), 2 + fib(%d) * 3, fib(fib(4)))' % (f, f))
    ev.append('emit 0 4 i1 i%d i%d i2' % (a, 2 + a * 3))
    x, y = r.randrange(0, 3), r.randrange(0, 4)
    lines.append('func ack(m: int, n: int): int { if m == 0 { return n + 1 } if n == 0 { return ack(m - 1, 1) } return ack(m - 1, ack(m, n - 1)) }')

    def ack(m, n):
        return n + 1 if m == 0 else ack(m - 1, 1) if n == 0 else ack(m - 1, ack(m, n - 1))
    lines.append('emit(ack(%d, %d))' % (x, y))
    ev.append('emit 0 1 i%d' % ack(x, y))
    k = r.randrange(1, 40)
    lines.append('func loop(n: int): int { s := 0 for i := 0; i < n; i += 1 { if i %% 3 == 0 { continue } s += loop(i / 4) + i if s > %d { break } } return s }' % k)

    def loop(n):
        s = 0
        for i in range(n):
            if i % 3 == 0:
                continue
            s += loop(i // 4) + i
            if s > k:
                break
        return s
    q = r.randrange(0, 30)
    lines.append('emit(%d -> loop(), loop(%d) + (%d -> loop()))' % (q, q, q))
    ev.append('emit 0 2 i%d i%d' % (loop(q), 2 * loop(q)))
    r.shuffle(ev) if False else None
    src = '\n'.join(lines).encode()
    c = Case(gen.setup()).add('compile', 0, 'rec', src).add('thread', 0, 0).add('start', 0).add('run', 0).add('destroy', 0).add('delstate', 0)
    yield Unit([('asan', c)], expect(['compile 0 ok'] + ev + ['done 0 sp=0 fc=0']), src, src.decode())


# ---- statements without braces, chains of else, steps that are calls

def p_ladder(ctx):
    r = ctx.rng
    n = [0]
    gs = ['ga', 'gb', 'gc_', 'gd']

    def stmt(d, vs, loop, fn):
        k = r.random()
        n[0] += 1
        if d <= 0 or k < .2:
            return r.choice(['emit(%d, %s)' % (n[0], r.choice(vs)), 'emit(%d, %s)' % (n[0], r.choice(vs))] + (['break', 'continue'] if loop else []) + ([fn and 'return %d' % n[0] or 'return;'] if fn is not None else []))
        if k < .55:
            c = cond(vs)
            a = body(d - 1, vs, loop, fn)
            if r.random() < .75:
                return 'if %s %s else %s' % (c, a, body(d - 1, vs, loop, fn, .5))
            return 'if %s %s' % (c, a)
        if k < .65:
            return '{ %s }' % seq(d - 1, vs, loop, fn)
        if k < .8:
            v = 'v%d' % n[0]
            return 'for %s := %d; %s < %d; %s += %d %s' % (v, r.randrange(2), v, r.randrange(1, 5), v, r.choice([1, 1, 2]), body(d - 1, vs + [v], True, fn))
        g = [x for x in gs if x not in vs]
        if k < .93 and g:
            g = g[0]
            return 'for %s = 0; %s < %d; %s %s' % (g, g, r.randrange(1, 5), r.choice(['inc_%s()' % g, 'inc_%s()' % g, '%s += 1' % g, 'noted(inc_%s())' % g, '%s -> add_%s()' % (r.choice(['1', '2', '(1 + 1)']), g)]), body(d - 1, vs + [g], True, fn))
        if g:
            g = g[0]
            return '{ %s = 0 while %s < %d { %s += 1 %s } }' % (g, g, r.randrange(1, 5), g, seq(d - 1, vs + [g], True, fn))
        return 'emit(%d)' % n[0]

    def cond(vs):
        v = r.choice(vs)
        return r.choice(['%s == %d' % (v, r.randrange(4)), '%s < %d' % (v, r.randrange(4)), 'true', 'false', '%s %% 2 == %d' % (v, r.randrange(2)), 'tbool(%s != %d)' % (v, r.randrange(3)),
                         '!(%s > 1)' % v, '%s > 0 && %s < 3' % (v, r.choice(vs)), '%s == 0 || tbool(%s > 1)' % (v, r.choice(vs))])

    def body(d, vs, loop, fn, bare=.4):
        if r.random() < bare:
            return stmt(d, vs, loop, fn)
        return '{ %s }' % seq(d, vs, loop, fn)

    def seq(d, vs, loop, fn):
        return ' '.join(stmt(d, vs, loop, fn) for _ in range(r.choice([0, 1, 1, 2, 3])))
    out = [' '.join('%s := 0 func inc_%s(): int { %s += 1 return %s } func add_%s(n: int): int { %s += n return %s }' % ((g,) * 7) for g in gs), 'func noted(x: int) { emit(x) }']
    for j in range(r.choice([3, 6, 10])):
        ty = r.random() < .6
        # loops with globals in functions called from such loops would go on for ever
        out.append('func f%d(a: int)%s { %s %s }' % (j, ': int' if ty else '', ' '.join(stmt(r.choice([2, 3, 4]), ['a'], False, ty) for _ in range(r.choice([1, 2, 3]))), 'return 0' if ty else ''))
        for a in r.sample(range(4), 2):
            out.append(('emit(f%d(%d))' if ty else 'f%d(%d)') % (j, a))
        if r.random() < .5:
            out.append('m%d := %d' % (j, r.randrange(4)) + ' ' + stmt(r.choice([2, 3]), ['m%d' % j], False, None))
    src = r.choice([' ', '\n']).join(out)
    q = c30.one(ctx, src.encode(), None, 60000)
    if q and q[2] is not None:
        raise RuntimeError('front end refuses a generated program: %s\n%s' % (q[2], src))
    yield from c30.unit(ctx, [q])


ARM = ['emit(K)', 'break', 'continue', '{ }', '{ break }', '{ continue }', '{ emit(K) continue }', '{ emit(K) break }', 'return K', '{ return K }', 'if i == 1 break', 'if i == 1 continue else emit(K)', '{ if i != 1 { break } emit(K) }', 'for q := 0; q < 2; q += 1 break',
       'while true { emit(K) break }', '{ { continue } }']
LOOP = ['for i := 0; i < 4; i += 1 BODY', 'i := 0 - 1 while i < 3 { i += 1 BODY emit(i) }', 'for i := 0; i < 4; i += 1 { BODY emit(i) }', 'for g = 0; g < 4; inc() { i := g BODY }', 'for g = 0; g < 4; inc() { i := g BODY emit(i) }']
LADDERS = [(a, b, c, l) for a in ARM for b in ARM for c in ARM + [None] for l in range(len(LOOP))]


def p_ladders(ctx):
    """Every chain of three arms in every loop."""
    global LADDERS
    if isinstance(LADDERS, list):
        import random
        random.Random(3).shuffle(LADDERS)
        LADDERS = tuple(LADDERS)
    r = ctx.rng
    per = 40
    n = (len(LADDERS) + per - 1) // per
    k = ctx.i if ctx.thorough else (ctx.i + (ctx.seed - 1) * n) % n
    out = ['g := 0 func inc() { g += 1 }']
    for j, (a, b, c, l) in enumerate(LADDERS[k * per:(k + 1) * per]):
        body = 'if i == 0 %s else if i %s 2 %s' % (a.replace('K', '1'), r.choice(['<', '<=', '==']), b.replace('K', '2'))
        if c is not None:
            body += ' else ' + c.replace('K', '3')
        if 'BODY e' in LOOP[l] and r.random() < .3:
            body = '{ %s }' % body
        out.append('func f%d(): int { %s return 9 } emit(%d, f%d())' % (j, LOOP[l].replace('BODY', body), j, j))
    src = '\n'.join(out)
    q = c30.one(ctx, src.encode(), None, 60000)
    if q and q[2] is not None:
        raise RuntimeError('front end refuses a generated program: %s\n%s' % (q[2], src))
    yield from c30.unit(ctx, [q])


p_edited = c30.mixed(lambda why, exp: exp is not None and len(exp) > 1, ['flow', 'flow', 'calls', 'default'])


def p_far(ctx):
    """Loops and branches with bodies of up to hundreds of kilobytes of code: every jump is a far one."""
    r = ctx.rng
    src, ev = [], []
    env = {'p': 0}

    def pad():
        n = r.choice([0, 1, 3, 40, 200, 700, 3000])
        tot[0] += n
        return ('pad', n) if tot[0] < 12000 else ('pad', 1)

    def text(b, ind):
        o = []
        for s in b:
            if s[0] == 'pad':
                o.append('p += 3 ' * s[1])
            elif s[0] == 'add':
                o.append('t += %s * %d' % (ind, s[1]))
            elif s[0] == 'if':
                o.append('if %s %% %d == %d {\n%s\n}' % (ind, s[1], s[2], text(s[3], ind)) + (' else {\n%s\n}' % text(s[4], ind) if s[4] else ''))
            elif s[0] in ('break', 'continue'):
                o.append(s[0])
            elif s[0] == 'return':
                o.append('return t')
            else:
                k, v, n, body = s
                if k == 'while':
                    o.append('%s := 0 while %s < %d {\n%s += 1\n%s\n}' % (v, v, n, v, text(body, v)))
                else:
                    o.append('for %s := 0; %s < %d; %s += 1 {\n%s\n}' % (v, v, n, v, text(body, v)))
        return '\n'.join(o)

    def body(d):
        b = []
        for _ in range(r.randrange(1, 4)):
            b.append(pad())
            k = r.randrange(6)
            m = r.randrange(2, 5)
            if k == 0:
                b.append(('if', m, r.randrange(m), [pad(), (r.choice(['break', 'continue', 'continue'] + (['return'] if infn else [])),)], None))
            elif k == 1:
                b.append(('if', m, r.randrange(m), [pad(), ('add', r.randrange(1, 99)), pad()], [pad(), ('add', r.randrange(1, 99)), (r.choice(['break', 'continue']),)]))
            elif k == 2:
                b.append(('if', m, r.randrange(m), [pad(), ('add', 7)], [pad(), ('add', 5)]))
            elif k == 3 and d < 2:
                nv[0] += 1
                b.append((r.choice(['while', 'for']), 'i%d' % nv[0], r.choice([0, 1, 4]), body(d + 1)))
            else:
                b.append(('add', r.randrange(1, 99)))
        return b

    def go(b, i, st):
        for s in b:
            if s[0] == 'pad':
                st['p'] += 3 * s[1]
            elif s[0] == 'add':
                st['t'] += i * s[1]
            elif s[0] == 'if':
                x = go(s[3] if i % s[1] == s[2] else s[4] or [], i, st)
                if x:
                    return x
            elif s[0] in ('break', 'continue', 'return'):
                return s[0]
            else:
                k, v, n, bd = s
                c = 0
                while c < n:
                    if k == 'while':
                        c += 1
                    x = go(bd, c, st)
                    if x == 'break':
                        break
                    if x == 'return':
                        return x
                    if k == 'for':
                        c += 1
        return None
    nv, tot = [0], [0]
    infn = r.random() < .5
    st = {'p': 0, 't': 0}
    prog_ = []
    for _ in range(r.choice([1, 2])):
        nv[0] += 1
        prog_.append((r.choice(['while', 'for']), 'i%d' % nv[0], r.choice([3, 7, 12]), body(0)))
    tx = text(prog_, 'p')
    go(prog_, 0, st)
    if infn:
        src = 'p := 0\nfunc far(): int { t := 0\n%s\nreturn t }\nr := far()\nemit(r, p)\n' % tx
    else:
        src = 'p := 0\nt := 0\n%s\nemit(t, p)\n' % tx
    c = progs.text_case(src)
    progs.begin(c)
    c.add('run', 0, 20000000)
    progs.finish(c)
    ctx.count('statements in far loops', tot[0])
    exp = ['compile 0 ok', progs.emitted(st['t'], st['p']), 'done 0 sp=0 fc=0']
    yield Unit([(r.choice(['fast', 'asan']), c)], lambda rs: diff(exp, rs[0].lines), src, src[:3000])


def families(tier):
    v = ('asan', 'fast')
    return [
        Fam('flow', p_flow, 3000, 40000, v),
        Fam('calls', p_calls, 800, 12000, v),
        Fam('bulk', p_bulk, 200, 4000, v),
        Fam('nestings', p_skel, (len(COMBOS) + 23) // 24, (len(COMBOS) + 23) // 24, v),
        Fam('recursion', p_rec, 120, 1000, v),
        Fam('chains', p_ladder, 500, 12000, ('fast', 'asan')),
        Fam('far', p_far, 200, 3000, ('fast', 'asan'), cpu=60),
        Fam('ladders', p_ladders, (len(LADDERS) + 39) // 40, (len(LADDERS) + 39) // 40, ('fast', 'asan')),
        Fam('edited programs', p_edited, 60, 1800, ('fast', 'asan'), shard=4),
    ]
