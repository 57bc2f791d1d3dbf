"""C03: names denote the declaration the scoping rules select."""
from vlib import lang, progs, gen, mutate
from vlib.core import Fam, Unit, expect, diff
from vlib.run import Case, cmd, f2hex
from checks import c30
from vlib.lang import binop, call, ident, lit, unop, N, Interp, Unclaimed, Func, ScopeError, TooLong, ser, Program, _Res

RULE = ('Random programs over few names with nested blocks, loops, shadowing parameters, globals and constants: the reference '
        'resolver decides whether a program is legal and the interpreter predicts every value read; globals are also read and '
        'written by the host by name and index. Cases are distinct by source text. Edited programs (see C30): names must be refused or denote what the reference says.')


def p_scope(ctx):
    r = ctx.rng
    m = progs.make(ctx, 'scope')
    src = progs.source(m, r)
    c = progs.start(m, src).add('run', 0)
    ev = ['compile 0 ok'] + m.it.ev + ['done 0 sp=0 fc=0']
    names = [n for n in m.it.g]
    r.shuffle(names)
    for n in names[:12]:
        c.add('getg', 0, n)
        ev.append('glob 0 %s %s' % (lang.escq(n.encode()), ser(m.it.g[n], {})))
    c.add('getg', 0, 'nosuchname')
    ev.append('glob 0 nosuchname missing')
    progs.finish(c)
    yield progs.unit(m, src, [('asan' if ctx.i % 2 else 'fast', c)], [ev])


def p_pad(ctx):
    r = ctx.rng
    m = progs.make(ctx, 'scope', pad=1.0, padmax=3, steps=120000)
    src = progs.source(m, r)
    c = progs.finish(progs.start(m, src).add('run', 0))
    yield progs.unit(m, src, [('asan' if ctx.i % 2 else 'fast', c)], [['compile 0 ok'] + m.it.ev + ['done 0 sp=0 fc=0']])


# ---- all-int programs over a tiny pool of names ----------------------------------------------

class Mini:
    def __init__(self, r, wrong):
        self.r = r
        self.pool = r.choice([['a', 'b', 'c'], ['a', 'b', 'c', 'd', 'e'], ['a', 'aa', 'aaa', 'ab'], ['x', 'y', 'X', 'x1', 'x_']])
        self.wrong = wrong
        self.p = Program()
        self.consts = {}
        self.funcs = []
        self.live = [{}]      # scopes of locals
        self.fn = None
        self.gl = set()
        self.t = 0

    def known(self):
        k = set(self.gl) | set(self.consts)
        if self.fn is not None:
            k |= set(n for n, _ in self.fn.params)
            for s in self.live:
                k |= set(s)
        return sorted(k)

    def use(self):
        if self.r.random() < self.wrong:
            return ident(self.r.choice(self.pool), 'int')
        k = [n for n in self.known() if n != getattr(self, 'own', None)]
        if not k:
            return lit('int', self.r.randrange(100))
        return ident(self.r.choice(k), 'int')

    def ex(self, d=2):
        k = self.r.random()
        if d <= 0 or k < .55:
            return self.use()
        if k < .65:
            return lit('int', self.r.randrange(100))
        if k < .75 and self.funcs and self.fn is None:
            f = self.r.choice(self.funcs)
            return call(f.name, [self.ex(d - 1) for _ in f.params], 'int')
        return binop(self.r.choice(['+', '-', '+', '|', '&']), self.ex(d - 1), self.ex(d - 1), 'int')

    def emit(self):
        self.t += 1
        return N('expr', e=call('emit', [lit('int', self.t)] + [self.use() for _ in range(self.r.randrange(1, 4))], 'void'))

    def decl(self):
        """declares a name that is free by the rules (or any with probability wrong)"""
        r = self.r
        if r.random() < self.wrong:
            n = r.choice(self.pool)
        else:
            if self.fn is None:
                free = [n for n in self.pool if n not in self.gl and n not in self.consts]
            else:
                free = [n for n in self.pool if not any(n in s for s in self.live)]
            if not free:
                return self.emit()
            n = r.choice(free)
        self.own = n
        e = self.ex()
        self.own = None
        if self.mentions(e, n):
            e = lit('int', 5)
        if self.fn is None:
            self.gl.add(n)
        else:
            self.live[-1][n] = 1
        return N('decl', name=n, ty='int' if r.random() < .3 else None, e=e)

    def mentions(self, e, n):
        if e.k == 'id':
            return e.name == n
        return any(self.mentions(x, n) for x in ([e.a, e.b] if e.k == 'bin' else e.args if e.k == 'call' else []))

    def assign(self):
        k = [n for n in self.known() if n not in self.consts or any(n in s for s in self.live)]
        if self.r.random() < self.wrong:
            k = self.pool
        k = [n for n in k if not n.startswith('loop')]
        if not k:
            return self.emit()
        return N('assign', lhs=ident(self.r.choice(k), 'int'), op=self.r.choice(['=', '=', '+=', '-=']), e=self.ex())

    def block(self, n, nest):
        self.live.append({})
        b = [self.st(nest) for _ in range(n)]
        self.live.pop()
        return N('block', body=b)

    def st(self, nest):
        r = self.r
        k = r.random()
        if k < .28:
            return self.decl()
        if k < .45:
            return self.assign()
        if k < .68 or nest <= 0:
            return self.emit()
        n = r.randrange(1, 5)
        if k < .78:
            return self.block(n, nest - 1)
        c = binop('>', self.ex(1), lit('int', r.randrange(60)), 'bool')
        if k < .88:
            a = self.block(n, nest - 1)
            b = self.block(n, nest - 1) if r.random() < .5 else None
            return N('if', c=c, a=a, b=b)
        # a loop that runs a few times: counter with a name of its own or from the pool
        self.live.append({})
        cn = None
        if r.random() < .7:
            if self.fn is None:
                free = [x for x in self.pool if x not in self.gl and x not in self.consts]
            else:
                free = [x for x in self.pool if not any(x in s for s in self.live)]
            cn = r.choice(free) if free else None
        if cn is None:
            self.t += 1
            cn = 'loop%d' % self.t
        if self.fn is None:
            self.gl.add(cn)
        else:
            self.live[-1][cn] = 1
        lim = r.randrange(1, 4)
        init = N('decl', name=cn, ty=None, e=lit('int', 0))
        # bounded whatever the body does to the counter
        self.t += 1
        cond = binop('&&', binop('<', ident(cn, 'int'), lit('int', lim), 'bool'), binop('<', call('tick', [], 'int'), lit('int', 25), 'bool'), 'bool')
        body = self.block(n, nest - 1)
        self.live.pop()
        return N('for', init=init, c=cond, step=N('assign', lhs=ident(cn, 'int'), op='+=', e=lit('int', 1)), body=body)

    def make(self):
        r = self.r
        items = self.p.items
        nf = 0
        for _ in range(r.randrange(4, 12)):
            k = r.random()
            if k < .2:
                free = [n for n in self.pool if n not in self.gl and n not in self.consts]
                if r.random() < self.wrong:
                    free = self.pool
                if free:
                    n = r.choice(free)
                    v = r.randrange(1000, 2000)
                    items.append(N('const', name=n, e=lit('int', v)))
                    self.consts[n] = v
            elif k < .5:
                ps = []
                for _ in range(r.randrange(0, 4)):
                    n = r.choice(self.pool)
                    if n not in [x for x, _ in ps] or r.random() < self.wrong * .2:
                        ps.append((n, 'int'))
                # names of functions live apart from names of variables
                fname = r.choice(self.pool) if r.random() < .3 else 'f%d' % nf
                if fname in self.p.funcs:
                    fname = 'f%d' % nf
                nf += 1
                f = Func(fname, ps, 'int', [])
                self.fn = f
                self.live = [{}]
                f.body = [self.st(3) for _ in range(r.randrange(1, 8))]
                f.body.append(N('return', e=self.ex()))
                self.fn = None
                self.live = [{}]
                self.p.funcs[fname] = f
                self.funcs.append(f)
                items.append(f)
            else:
                items.append(self.st(2))
        for f in self.funcs:
            items.append(N('expr', e=call('emit', [call(f.name, [lit('int', 7 + i) for i in range(len(f.params))], 'int')], 'void')))
        for n in self.known():
            items.append(N('expr', e=call('emit', [ident(n, 'int')], 'void')))
        return self.p


def mini(ctx, wrong):
    r = ctx.rng
    foreign = {n: h[2] for n, h in lang.HOST.items()}
    done = 0
    for _ in range(60):
        p = Mini(r, wrong).make()
        src = lang.render(p, r.choice(['normal', 'tight', 'wild']), r).encode('latin-1')
        legal = True
        try:
            it = Interp(p, foreign, max_steps=6000)
            it.run()
        except ScopeError as e:
            legal = False
            why = str(e)
        except (Unclaimed, TooLong):
            continue
        if legal and wrong and r.random() < .5:
            continue
        done += 1
        if legal:
            ctx.count('legal programs')
            c = progs.text_case(src)
            progs.begin(c)
            c.add('run', 0)
            exp = ['compile 0 ok'] + it.ev + ['done 0 sp=0 fc=0']
            for n in sorted(it.g):
                c.add('getg', 0, n)
                exp.append('glob 0 %s %s' % (n, ser(it.g[n], {})))
            progs.finish(c)
            yield Unit([('fast', c)], expect(exp), src, src.decode('latin-1'))
        else:
            ctx.count('illegal programs')
            yield progs.reject_unit(src, 'a name is used or declared against the rules (%s)' % why)
        if done >= 6:
            break


def p_mini(ctx):
    yield from mini(ctx, 0)


def p_miniw(ctx):
    yield from mini(ctx, ctx.rng.choice([.02, .05, .1]))


# ---- errors planted into generated programs ---------------------------------------------------

def p_err(ctx):
    r = ctx.rng
    m = progs.make(ctx, r.choice(['scope', 'default', 'flow']), main=6, steps=5000)
    for _ in range(5):
        p = mutate.clone(m.prog)
        w = mutate.Walk(p)
        kind = r.choice(['unknown', 'unknown', 'assign-unknown', 'out-of-scope', 'dup-local', 'dup-global', 'dup-const', 'assign-const', 'dup-param',
                         'fn-unknown', 'local-outside', 'later-global', 'const-over-global'])
        tops = [i for i, it in enumerate(p.items) if isinstance(it, N)]
        if kind == 'unknown':
            ss = [s for s in w.slots if s.ctx != 'stmt']
            s = r.choice(ss)
            s.set(ident(r.choice(['nosuch', 'no_such_2', 'q' * r.choice([1, 64, 255, 256, 300]) + 'Z9']), s.get().t))
        elif kind == 'assign-unknown':
            b = r.choice([b for b, f, l in w.blocks] + [p.items])
            b.insert(r.randrange(len(b) + 1), N('assign', lhs=ident('nosuch', 'int'), op=r.choice(['=', '+=']), e=lit('int', 1)))
        elif kind == 'out-of-scope':
            fb = [(b, f) for b, f, l in w.blocks if f is not None]
            if not fb:
                continue
            b, f = r.choice(fb)
            k = r.randrange(len(b) + 1)
            inner = N('block', body=[N('decl', name='scoped9', ty=None, e=lit('int', 1))])
            loop = r.random()
            if loop < .3:
                inner = N('for', init=N('decl', name='scoped9', ty=None, e=lit('int', 0)), c=binop('<', ident('scoped9', 'int'), lit('int', 2), 'bool'),
                          step=N('assign', lhs=ident('scoped9', 'int'), op='+=', e=lit('int', 1)), body=N('block', body=[]))
            elif loop < .5:
                inner = N('while', c=lit('bool', False), body=inner)
            b[k:k] = [inner, N('expr', e=call('emit', [ident('scoped9', 'int')], 'void'))]
        elif kind == 'dup-local':
            fb = [(b, f) for b, f, l in w.blocks if f is not None]
            if not fb:
                continue
            b, f = r.choice(fb)
            k = r.randrange(len(b) + 1)
            second = N('decl', name='twice9', ty=r.choice([None, 'int']), e=lit('int', 2))
            for _ in range(r.randrange(0, 4)):
                second = N('block', body=[second])
            b[k:k] = [N('decl', name='twice9', ty=None, e=lit('int', 1)), second]
        elif kind == 'dup-global':
            gs = [it.name for it in p.items if isinstance(it, N) and it.k == 'decl']
            if not gs:
                continue
            p.items.append(N('decl', name=r.choice(gs), ty=None, e=r.choice([lit('int', 1), lit('str', b'')])))
        elif kind == 'dup-const':
            gs = [it.name for it in p.items if isinstance(it, N) and it.k == 'const']
            if not gs:
                continue
            p.items.append(N(r.choice(['const', 'decl']), name=r.choice(gs), ty=None, e=lit('int', 1)))
        elif kind == 'const-over-global':
            gs = [it.name for it in p.items if isinstance(it, N) and it.k == 'decl']
            if not gs:
                continue
            p.items.append(N('const', name=r.choice(gs), e=lit('int', 1)))
        elif kind == 'assign-const':
            p.items.insert(0, N('const', name='Konst9', e=lit('int', 1)))
            bs = [b for b, f, l in w.blocks] + [p.items]
            b = r.choice(bs)
            k = r.randrange(1 if b is p.items else 0, len(b) + 1)
            b.insert(k, N('assign', lhs=ident('Konst9', 'int'), op=r.choice(['=', '+=', '*=', '|=']), e=lit('int', 2)))
        elif kind == 'dup-param':
            n = r.choice([2, 2, 3, 5, 9, 17, 40, 100])
            ps = [('%s%d' % (r.choice(['u9_', 'u9_' * 30]), i), r.choice(['int', 'str'])) for i in range(n)]
            ps.insert(r.randrange(n + 1), (r.choice(ps)[0], r.choice(['int', 'str'])))
            f = Func('dupp', ps, 'void', [])
            p.items.insert(r.randrange(len(p.items) + 1), f)
        elif kind == 'fn-unknown':
            ss = [s for s in w.slots if s.ctx != 'stmt']
            s = r.choice(ss)
            s.set(call(r.choice(['nofunction', 'emi', 'emitt', 'Emit']), [], s.get().t))
        elif kind == 'local-outside':
            f = Func('loc9', [('par9', 'int')], 'void', [N('decl', name='in9', ty=None, e=lit('int', 1))])
            k = r.randrange(len(p.items) + 1)
            p.items[k:k] = [f, N('expr', e=call('emit', [ident(r.choice(['in9', 'par9']), 'int')], 'void'))]
        elif kind == 'later-global':
            k = r.randrange(len(p.items) + 1)
            d = N('decl', name='late9', ty=None, e=lit('int', 1))
            u = N('expr', e=call('emit', [ident('late9', 'int')], 'void'))
            if r.random() < .5:
                u = Func('usel9', [], 'void', [u])
            p.items[k:k] = [u, d]
        src = lang.render(p, r.choice(['normal', 'tight', 'wild']), r).encode('latin-1')
        ctx.count('planted ' + kind)
        yield progs.reject_unit(src, 'it contains the planted error ' + kind)


# ---- many names, most of them out of scope -------------------------------------------------------

def p_many(ctx):
    """Functions with up to 240 locals spread over nested and neighbouring blocks; names come and go."""
    r = ctx.rng
    total = r.choice([20, 60, 65, 70, 100, 128, 130, 200, 240])
    pool = ['%s%d' % (r.choice(['n', 'name_that_is_longer_']), i) for i in range(r.choice([3, 10, 40, 240]))]
    pool = list(dict.fromkeys(pool))
    par = r.sample(pool, min(len(pool) - 1, r.randrange(0, 4)))
    glob = r.sample(pool, min(len(pool), r.randrange(0, 6)))
    live = [{}]
    env = {g: 7000 + i for i, g in enumerate(glob)}
    pv = {p: 8000 + i for i, p in enumerate(par)}
    ev = []
    st = dict(n=0, t=0)
    bad = []       # (line number, replacement) that would be illegal

    def look(n):
        for s in reversed(live):
            if n in s:
                return s
        if n in pv:
            return pv
        if n in env:
            return env
    lines = []

    def show(n):
        st['t'] += 1
        lines.append('emit(%d, %s)' % (st['t'], n))
        ev.append(progs.emitted(st['t'], look(n)[n]))

    def block(d):
        k = r.choice([1, 3, 10, 30, 70, 130])
        for _ in range(k):
            if st['n'] >= total or len(lines) > 900:
                break
            x = r.random()
            if x < .1 and d < 6:
                lines.append(r.choice(['{', 'if true {', 'if gt {']))
                live.append({})
                block(d + 1)
                live.pop()
                lines.append('}')
                continue
            free = [n for n in pool if not any(n in s for s in live)]
            if free and x < .75:
                n = r.choice(free)
                st['n'] += 1
                v = st['n'] * 3
                live[-1][n] = v
                lines.append('%s := %d' % (n, v))
            else:
                k2 = [n for n in pool if look(n) is not None]
                if k2:
                    n = r.choice(k2)
                    if r.random() < .4:
                        s = look(n)
                        s[n] += 100000
                        lines.append('%s += 100000' % n)
                    show(n)
            un = [n for n in pool if look(n) is None]
            if un and r.random() < .3:
                bad.append((len(lines), r.choice(['emit(%s)', '%s = 1', '%s += 1', 'if true { emit(%s) }']) % r.choice(un)))
            op = [n for s in live for n in s]
            if op and r.random() < .3:
                bad.append((len(lines), r.choice(['%s := 1', '%s: int = 2', '{ %s := 3 }', 'if true { { %s := 1 } }', 'for %s := 0; false; gi += 1 { }']) % r.choice(op)))
        for n in r.sample(sorted(live[-1]), min(len(live[-1]), 4)):
            show(n)

    while st['n'] < total and len(lines) < 900:
        lines.append('{')
        live.append({})
        block(1)
        live.pop()
        lines.append('}')
        if r.random() < .3:
            block(0)
    pre = ['gt := true', 'gi := 0'] + ['%s := %d' % (g, env0) for g, env0 in zip(glob, range(7000, 7100))]
    sig = 'func many(%s) {' % ', '.join('%s: int' % p for p in par)
    call_ = 'many(%s)' % ', '.join(str(8000 + i) for i in range(len(par)))
    src = '\n'.join(pre + [sig] + lines + ['}', call_])
    ctx.count('locals', st['n'])
    yield progs.text_unit(src, ev, r.choice(['asan', 'fast']))
    for at, b in r.sample(bad, min(len(bad), 12)):
        l2 = list(lines)
        l2.insert(at, b)
        yield progs.reject_unit('\n'.join(pre + [sig] + l2 + ['}', call_]), 'the inserted line `%s` uses a name out of scope or declares it again' % b)


# ---- the host reads and writes globals ---------------------------------------------------------

def hostval(r):
    k = r.randrange(6)
    if k == 0:
        return 'b%d' % r.randrange(2), None
    if k == 1:
        v = r.choice([0, 1, -1, 255, 65536, -(1 << 40), (1 << 63) - 1, -(1 << 63)])
        return 'i%d' % v, 'i%d' % v
    if k == 2:
        v = r.choice([0.0, 1.5, -2.25, 1e300])
        return 'f' + f2hex(v), 'f' + f2hex(v)
    if k == 3:
        s = bytes(r.randrange(256) for _ in range(r.choice([0, 1, 3, 50])))
        return b's:' + s, 's"%s"' % lang.escq(s)
    if k == 4:
        return 'n', 'n'
    s = b'own' + bytes(r.randrange(65, 90) for _ in range(r.randrange(20)))
    return b'o:' + s, 's"%s"' % lang.escq(s)


def p_host(ctx):
    r = ctx.rng
    ng = r.choice([1, 2, 5, 20, 100, 300, 600]) if r.random() < .5 else r.randrange(1, 12)
    pre = r.choice(['g', 'name_', 'G' * 70])
    names = ['%s%d' % (pre, i) for i in range(ng)]
    r.shuffle(names)
    consts = {}
    c = Case(gen.setup())
    for i in range(r.randrange(0, 6)):
        k = r.randrange(4)
        n = 'HC%d' % i
        if k == 0:
            v = r.random() < .5
            c.add('constb', 0, n, int(v))
            consts[n] = 'b%d' % v
        elif k == 1:
            v = r.choice([0, 1, -1, 127, 128, 255, 256, 65535, -65536, 1 << 31, (1 << 63) - 1, -(1 << 63)])
            c.add('consti', 0, n, v)
            consts[n] = 'i%d' % v
        elif k == 2:
            v = r.choice([0.0, 1.0, -0.5, 3.25e10])
            c.add('constf', 0, n, f2hex(v))
            consts[n] = 'f' + f2hex(v)
        else:
            s = bytes(r.randrange(1, 256) for _ in range(r.choice([0, 1, 5, 90])))
            c.add('consts', 0, n, s)
            consts[n] = 's"%s"' % lang.escq(s)
    src = []
    for n in names:
        src.append('%s: any = %d' % (n, r.randrange(1000)))
    fn = {}
    for n in r.sample(names, min(len(names), 8)):
        src.append('func get_%s(): any { return %s }' % (n, n))
        src.append('func set_%s(v: any): any { old := %s %s = v return old }' % (n, n, n))
        fn[n] = 1
    for n in consts:
        src.append('func const_%s(x: int): any { return %s }' % (n, n))
        src.append('emit(%s)' % n)
    text = '\n'.join(src).encode()
    c.add('compile', 0, 'host', text)
    exp = ['compile 0 ok']
    nt = r.choice([1, 1, 2, 3])
    vals = []
    for t in range(nt):
        c.add('thread', t, 0)
        c.add('start', t)
        c.add('run', t)
        for n in consts:
            exp.append('emit %d 1 %s' % (t, consts[n]))
        exp.append('done %d sp=0 fc=0' % t)
        vals.append({})
        for l in src:
            if ': any = ' in l:
                a, b = l.split(': any = ')
                vals[t][a] = 'i' + b
    for _ in range(60):
        t = r.randrange(nt)
        k = r.random()
        if k < .3:
            n = r.choice(names)
            spec, out = hostval(r)
            c.add('setg', t, n, spec)
            vals[t][n] = out or spec
        elif k < .55:
            n = r.choice(names)
            c.add('getg', t, n)
            exp.append('glob %d %s %s' % (t, n, vals[t][n]))
        elif k < .75 and fn:
            n = r.choice(sorted(fn))
            c.add('call', t, 'get_' + n)
            exp.append('ret %d %s' % (t, vals[t][n]))
        elif k < .9 and fn:
            n = r.choice(sorted(fn))
            spec, out = hostval(r)
            c.add('call', t, 'set_' + n, spec)
            exp.append('ret %d %s' % (t, vals[t][n]))
            vals[t][n] = out or spec
        elif consts and k < .95:
            n = r.choice(sorted(consts))
            c.add('call', t, 'const_' + n, 'i1')
            exp.append('ret %d %s' % (t, consts[n]))
        else:
            n = r.choice(['nosuch', names[0] + 'x', names[0][:-1], 'HC0', 'get_' + names[0]])
            if n not in names:
                c.add('getg', t, n)
                exp.append('glob %d %s missing' % (t, n))
    for t in range(nt):
        for n in names[:100]:
            c.add('getg', t, n)
            exp.append('glob %d %s %s' % (t, n, vals[t][n]))
        c.add('destroy', t)
    c.add('delstate', 0)
    ctx.count('host reads and writes of globals', 60)
    yield Unit([('asan', c)], expect(exp), '\n'.join(c.cmds), text.decode())


NEAR = ['V', 'VV', 'V_', 'V_get', 'V_set', 'V_get_index', 'V_set_index', 'v', 'W', 'V_get_inde', 'index', 'get_index', 'set', 'VW', 'Vec', 'Vec2', 'nat', 'box', 'strx', 'integer', 'int8', 'floaty', 'anyone', 'voids', 'boolean', 'string', 'INT', 'Str', 'natx', 'boxes', 'as', 'in', 'st']
SUFFIX = ['_get_indexes', '_get_inde', '_set_index2', '_set_inde', '_getindex', '_get_Index', '_index', 'get_index', '_GET_INDEX', '_get_index_', '_set_index_', '_get', '_set', '_get_ind', '2_get_index', '2_set_index', '__get_index', '_get_index_get_index',
          '_set_index_set_index', '_set_index_get_index', 'x_set_index']


def p_near(ctx):
    """[] calls the functions whose names are exactly the type's, whatever else is called nearly that; so do plain calls."""
    r = ctx.rng
    types = r.sample(NEAR, r.choice([2, 3, 4, 6]))
    fs = {}
    for t in types:
        if r.random() < .8:
            fs[t + '_get_index'] = (t, 'get')
        if r.random() < .7:
            fs[t + '_set_index'] = (t, 'set')
    for t in types:
        for x in r.sample(SUFFIX, r.choice([0, 2, 5, len(SUFFIX)])):
            if t + x not in fs:
                u = t if r.random() < .7 else r.choice(types)
                fs[t + x] = (u, 'set' if 'set' in x else 'get')
    # a name may begin in the same way and be of another function altogether
    names = list(fs)
    r.shuffle(names)
    val = {}
    parts = ['struct %s { q: int }' % t for t in types if t not in ('nat', 'box')]
    mk = {t: 'mknat(%d)' % r.randrange(99) if t == 'nat' else 'box(%d)' % r.randrange(99) if t == 'box' else 'new %s { %d }' % (t, r.randrange(99)) for t in types}
    for i, n in enumerate(names):
        t, k = fs[n]
        val[n] = 100 + i
        parts.append('func %s(v: %s, i: int): int { emit("%s", i) return %d }' % (n, t, n, val[n]) if k == 'get' else 'func %s(v: %s, i: int, x: int) { emit("%s", i, x) }' % (n, t, n))
    if r.random() < .6:
        r.shuffle(parts)
    pieces = [parts]
    if r.random() < .4:
        # structs must be there when a text that names them ends
        st = [x for x in parts if x.startswith('struct')]
        fn = [x for x in parts if not x.startswith('struct')]
        k = r.randrange(len(fn) + 1)
        pieces = [st + fn[:k], fn[k:]]
    c = Case(gen.setup())
    exp = []
    for x in pieces:
        c.add('compile', 0, 'd', '\n'.join(x))
        exp.append('compile 0 ok')
    tests = []
    for t in types:
        i, x = r.randrange(9), r.randrange(9)
        g, st = t + '_get_index', t + '_set_index'
        ok = g in fs and fs[g] == (t, 'get')
        oks = ok and st in fs and fs[st] == (t, 'set')
        tests.append(('a := %s emit(a[%d])' % (mk[t], i), ok, ['emit 0 2 s"%s" i%d' % (g, i), 'emit 0 1 i%d' % val.get(g, 0)]))
        tests.append(('a := %s a[%d] = %d' % (mk[t], i, x), oks, ['emit 0 3 s"%s" i%d i%d' % (st, i, x)]))
    for n in r.sample(names, min(len(names), 8)):
        t, k = fs[n]
        i, x = r.randrange(9), r.randrange(9)
        if k == 'get':
            tests.append(('a := %s emit(a -> %s(%d))' % (mk[t], n, i) if i % 2 else 'emit(%s(%s, %d))' % (n, mk[t], i), True, ['emit 0 2 s"%s" i%d' % (n, i), 'emit 0 1 i%d' % val[n]]))
        else:
            tests.append(('%s(%s, %d, %d)' % (n, mk[t], i, x), True, ['emit 0 3 s"%s" i%d i%d' % (n, i, x)]))
    # and names nobody has
    for _ in range(3):
        n = r.choice(types) + r.choice(SUFFIX + ['_get_index', '_set_index'])
        if n not in fs:
            tests.append(('emit(%s(%s, 1))' % (n, mk[types[0]]), False, []))
    r.shuffle(tests)
    for i, (t, ok, e) in enumerate(tests):
        c.add('compile', 0, 't', 'func t%d(): void { %s }' % (i, t))
        exp.append('compile 0 ok' if ok else None)
    progs.begin(c)
    c.add('run', 0)
    exp.append('done 0 sp=0 fc=0')
    for i, (t, ok, e) in enumerate(tests):
        c.add('call', 0, 't%d' % i)
        if ok:
            exp += e + ['ret 0 n']
        else:
            exp.append('ret 0 missing t%d' % i)
    progs.finish(c)
    ctx.count('near names', len(tests))

    def judge(rs):
        l = rs[0].lines
        e = list(exp)
        for i, x in enumerate(e):
            if x is None:
                if i < len(l) and not l[i].startswith('compile 0 err '):
                    return 'accepted without the function it needs (line %d): %s' % (i, l[i])
                e[i] = l[i] if i < len(l) else ''
        return diff(e, l)
    yield Unit([(r.choice(['asan', 'fast']), c)], judge, '\n'.join(c.cmds), '\n'.join(parts[:8] + [t[0] for t in tests[:6]]))


p_edited = c30.mixed(lambda why, exp: exp is not None and len(exp) > 1 or why is not None and c30.NAMES.match(why), ['scope', 'scope', 'default', 'flow', 'struct'])


def families(tier):
    v = ('asan', 'fast')
    return [
        Fam('scope', p_scope, 1500, 25000, v),
        Fam('bulk', p_pad, 160, 3000, v),
        Fam('tiny-pool', p_mini, 500, 9000, v),
        Fam('tiny-pool-errors', p_miniw, 500, 9000, v),
        Fam('planted-errors', p_err, 350, 6000, v),
        Fam('many', p_many, 60, 1500, v),
        Fam('near names', p_near, 400, 8000, v),
        Fam('host', p_host, 160, 3000, v),
        Fam('edited programs', p_edited, 120, 3600, ('fast', 'asan'), shard=4),
    ]
