"""C04: structs are mutable references with independent named fields."""
from vlib import lang, progs, gen, mutate
from vlib.core import Fam, Unit, expect
from vlib.run import Case
from checks import c30
from vlib.lang import binop, call, ident, lit, unop, N, Interp, Unclaimed, Func, Struc

RULE = ('Random struct-heavy programs, random operation sequences over aliased objects of generated struct types (1 to 255 '
        'fields) checked against a heap model, and planted initialiser errors that must be rejected. Distinct by source text. Edited programs (see C30) that still compile must run as predicted.')


def p_prog(ctx):
    m = progs.make(ctx, 'struct')
    src = progs.source(m, ctx.rng)
    c = progs.start(m, src, gc=ctx.rng.choice([0, 1, 2]), check='h' if ctx.i % 3 == 0 else '')
    c.add('run', 0)
    progs.finish(c)
    yield progs.unit(m, src, [('asan' if ctx.i % 2 else 'fast', c)], [['compile 0 ok'] + m.it.ev + ['done 0 sp=0 fc=0']])


def nm(r, used, pre):
    while True:
        if used and r.random() < .3:
            # nearly the name of another field
            n = r.choice(sorted(used))
            n = r.choice([n.swapcase(), n.capitalize(), n + '_', n + n[-1], n + 'long_tail_that_goes_on', n[:-1] + r.choice('abXY_'), n.upper(), n[:200] + 'x' * 40 + r.choice('ab')])[:255]
            if n in used or not n[0].isalpha() or n in ('if', 'as', 'int', 'IF'):
                continue
            used.add(n)
            return n
        n = r.choice([pre, pre + str(r.randrange(1000)), r.choice('xyzabcdefn') + r.choice(['', '_', '1', 'x' * r.choice([1, 63, 127, 255])])])
        if n not in used:
            used.add(n)
            return n


PLAIN = ['int', 'float', 'bool', 'str', 'any']


def p_ops(ctx):
    """Straight-line sequences of creations, reads, writes, comparisons and nested accesses with aliases."""
    r = ctx.rng
    ns = r.randrange(1, 5)
    snames = ['S%d' % i for i in range(ns)]
    defs = {}
    for s in snames:
        nf = r.choice([1, 1, 2, 3, 4, 5, 8, 16, 17]) if r.random() < .85 else r.choice([31, 64, 100, 127, 128, 129, 200, 253, 254, 255])
        used = set()
        fs = []
        for i in range(nf):
            t = r.choice(PLAIN) if r.random() < (.6 if nf < 10 else 1 - 3.0 / nf) else (r.choice(snames), r.random() < .5)
            fs.append((nm(r, used, 'f%d' % i), t))
        defs[s] = fs
    heap = []      # (struct, [values])
    lines, ev = [], []
    # values: ('int', v) ... ; references are indices into heap or None
    cnt = [0]

    def tn(t):
        return t if isinstance(t, str) else t[0] + ('?' if t[1] else '')

    def plain(t):
        if t == 'any':
            t = r.choice(['int', 'float', 'bool', 'str'])
        if t == 'int':
            v = r.randrange(-5, 100000)
            return '%d' % v if v >= 0 else '(-%d)' % -v, v
        if t == 'float':
            v = r.randrange(1000) / 8
            return repr(v), v
        if t == 'bool':
            v = r.random() < .5
            return 'true' if v else 'false', v
        v = b'str%d' % r.randrange(100)
        return '"%s"' % v.decode(), v

    vars_ = {}      # name -> (struct, nullable, heap index or None)
    anys = {}

    def ref(s, nullable, d=2):
        """expression of type s (or s?) and heap index"""
        cand = [(n, v[2]) for n, v in vars_.items() if v[0] == s and (v[1] == nullable)]
        if cand and r.random() < .6:
            return r.choice(cand)
        # through a field of a variable
        cand = []
        for n, (s2, nu, h) in vars_.items():
            if nu or h is None:
                continue
            for k, (fn, ft) in enumerate(defs[s2]):
                if ft == (s, nullable) and heap[h][1][k] != 'unset':
                    cand.append(('%s.%s' % (n, fn), heap[h][1][k]))
        if cand and r.random() < .7:
            return r.choice(cand)
        if nullable:
            if r.random() < .5 or d <= 0:
                return 'cast(null, %s?)' % s, None
            return 'cast(cast(%s, any), %s?)' % ((lambda e: (e[0], s))(ref2(s, d))), last[0]
        return ref2(s, d)
    last = [None]

    def ref2(s, d):
        e, h = new(s, d) if d > 0 else (None, None)
        if e is None:
            cand = [(n, v[2]) for n, v in vars_.items() if v[0] == s and not v[1]]
            if cand:
                e, h = r.choice(cand)
            else:
                e, h = 'cast(null, %s)' % s, None
        last[0] = h
        return e, h

    def new(s, d):
        fs = defs[s]
        order = list(range(len(fs)))
        named = r.random() < .5
        vals = {}
        # initialisers are evaluated in field order; plain values have no effects, new objects get ids when shown
        ex = {}
        for k in order:
            ft = fs[k][1]
            if isinstance(ft, str):
                ex[k], vals[k] = plain(ft)
            else:
                if d <= 1 and not ft[1]:
                    cand = [(n, v[2]) for n, v in vars_.items() if v[0] == ft[0] and not v[1] and v[2] is not None]
                    if cand:
                        ex[k], vals[k] = r.choice(cand)
                    else:
                        ex[k], vals[k] = 'cast(null, %s)' % ft[0], None
                else:
                    ex[k], vals[k] = ref(ft[0], ft[1], d - 1)
        if named:
            r.shuffle(order)
            e = 'new %s { %s }' % (s, ', '.join('.%s = %s' % (fs[k][0], ex[k]) for k in order))
        else:
            e = 'new %s { %s }' % (s, ', '.join(ex[k] for k in order))
        heap.append((s, [vals[k] for k in range(len(fs))]))
        return e, len(heap) - 1

    def shape(v, ft, seen):
        if isinstance(ft, str):
            return lang.ser(v, {})
        if v is None:
            return 'n'
        if v in seen:
            return 'S#%d' % seen[v]
        seen[v] = len(seen)
        k = seen[v]
        s, vals = heap[v]
        return 'S#%d{%s}' % (k, ','.join(shape(x, f[1], seen) for x, f in zip(vals, defs[s])))

    def show(e, v, ft):
        lines.append('emit(%s)' % e)
        ev.append('emit 0 1 ' + shape(v, ft, {}))
    total = sum(len(d) for d in defs.values())
    for _ in range(60 if total < 60 else 25):
        k = r.random()
        live = [(n, v) for n, v in vars_.items() if not v[1] and v[2] is not None]
        if k < .22 or not live:
            s = r.choice(snames)
            nu = r.random() < .15
            e, h = ref(s, nu, 2) if nu else new(s, 2)
            n = 'v%d' % cnt[0]
            cnt[0] += 1
            lines.append('%s%s %s' % (n, ': %s =' % (s + ('?' if nu else '')) if nu or r.random() < .5 else ' :=', e))
            vars_[n] = (s, nu, h)
        elif k < .55:
            n, (s, nu, h) = r.choice(live)
            fi = r.randrange(len(defs[s]))
            fn, ft = defs[s][fi]
            path = n
            # write through a path of fields
            if isinstance(ft, str):
                e, v = plain(ft)
                if ft == 'int' and r.random() < .3:
                    old = heap[h][1][fi]
                    lines.append('%s.%s %s= %s' % (path, fn, r.choice(['+']), e))
                    heap[h][1][fi] = old + v
                    continue
            else:
                e, v = ref(ft[0], ft[1], 1)
            lines.append('%s.%s = %s' % (path, fn, e))
            heap[h][1][fi] = v
        elif k < .63:
            # a nested path
            n, (s, nu, h) = r.choice(live)
            path = n
            for _ in range(r.randrange(1, 4)):
                nx = [(f, heap[h][1][i], ft) for i, (f, ft) in enumerate(defs[s]) if not isinstance(ft, str) and not ft[1] and heap[h][1][i] is not None]
                if not nx:
                    break
                f, h, ft = r.choice(nx)
                s = ft[0]
                path += '.' + f
            fi = r.randrange(len(defs[s]))
            fn, ft = defs[s][fi]
            if r.random() < .5:
                show('%s.%s' % (path, fn), heap[h][1][fi], ft)
            else:
                e, v = plain(ft) if isinstance(ft, str) else ref(ft[0], ft[1], 1)
                lines.append('%s.%s = %s' % (path, fn, e))
                heap[h][1][fi] = v
        elif k < .8:
            n, (s, nu, h) = r.choice(live)
            fi = r.randrange(len(defs[s]))
            fn, ft = defs[s][fi]
            show('%s.%s' % (n, fn), heap[h][1][fi], ft)
        elif k < .88:
            (a, va), (b, vb) = r.choice(list(vars_.items())), r.choice(list(vars_.items()))
            op = r.choice(['==', '!='])
            res = va[2] == vb[2]
            lines.append('emit(%s %s %s)' % (a, op, b))
            ev.append('emit 0 1 b%d' % (res == (op == '==')))
        elif k < .94:
            n, (s, nu, h) = r.choice(live)
            show('cast(cast(%s, any), %s)' % (n, s), h, (s, False))
        else:
            n, (s, nu, h) = r.choice(live)
            lines.append('emit(same_%s(%s) == %s)' % (s, n, n))
            ev.append('emit 0 1 b1')
    for n, (s, nu, h) in list(vars_.items())[:30]:
        if len(heap) < 40:
            show(n, h, (s, nu))
    dl = ['struct %s { %s }' % (s, ' '.join('%s: %s' % (f, tn(t)) for f, t in defs[s])) for s in snames]
    fl = ['func same_%s(p: %s): %s { q := p return q }' % (s, s, s) for s in snames]
    both = dl + fl
    r.shuffle(both)
    cut = r.randrange(len(both) + 1)
    body = lines
    if r.random() < .4:
        # the same inside a function: variables are locals
        if len(vars_) < 200:
            body = ['func body() {'] + lines + ['}', 'body()']
    src = '\n'.join(both[:cut] + body + both[cut:])
    yield progs.text_unit(src, ev, 'asan' if ctx.i % 2 else 'fast', gc=r.choice([0, 1, 2, 4]), check=r.choice(['', 'h']), seed=ctx.i)


def p_wide(ctx):
    """Every field of structs of every size: initialised, written and read one by one."""
    r = ctx.rng
    n = ctx.i % 255 + 1
    t = r.choice(['int', 'int', 'bool', 'str', 'float'])
    fs = ['f%d' % i for i in range(n)]
    vals = list(range(n))

    def sp(v):
        return {'int': '%d' % v, 'bool': 'true' if v % 2 else 'false', 'str': '"s%d"' % v, 'float': '%d.5' % v}[t]

    def sv(v):
        return lang.ser({'int': v, 'bool': v % 2 == 1, 'str': b's%d' % v, 'float': v + .5}[t], {})
    order = list(range(n))
    named = r.random() < .6
    if named:
        r.shuffle(order)
        init = ', '.join('.%s = %s' % (fs[k], sp(k)) for k in order)
    else:
        init = ', '.join(sp(k) for k in order)
    lines = ['struct W { %s }' % ' '.join('%s: %s' % (f, t) for f in fs), 'struct A { z: int }',
             'a := new W { %s }' % init, 'b := new W { %s }' % ', '.join(sp(k + 1000) for k in range(n)), 'c := a', 'emit(a)', 'emit(b)']
    ev = ['emit 0 1 S#0{%s}' % ','.join(sv(k) for k in range(n)), 'emit 0 1 S#0{%s}' % ','.join(sv(k + 1000) for k in range(n))]
    for _ in range(min(n, 12)):
        k = r.randrange(n)
        v = 2000 + r.randrange(500)
        vals[k] = v
        lines.append('%s.%s = %s' % (r.choice(['a', 'c']), fs[k], sp(v)))
    lines += ['emit(c)', 'emit(a == c, a == b)', 'emit(b)']
    ev += ['emit 0 1 S#0{%s}' % ','.join(sv(v) for v in vals), 'emit 0 2 b1 b0', ev[1]]
    for k in r.sample(range(n), min(n, 20)):
        lines.append('emit(a.%s, b.%s)' % (fs[k], fs[k]))
        ev.append('emit 0 2 %s %s' % (sv(vals[k]), sv(k + 1000)))
    ctx.count('struct sizes')
    yield progs.text_unit('\n'.join(lines), ev, 'asan')


def p_err(ctx):
    r = ctx.rng
    m = progs.make(ctx, 'struct', main=6, steps=5000)
    for _ in range(6):
        p = mutate.clone(m.prog)
        w = mutate.Walk(p)
        news = []

        def find(e):
            if e.k == 'new':
                news.append(e)
        seen = set()
        for s in w.slots:
            e = s.get()
            if id(e) not in seen:
                seen.add(id(e))
                find(e)
        dots = [s for s in w.slots if s.ctx == 'dotbase']
        kind = r.choice(['other', 'missing', 'extra', 'dupname', 'unknown', 'badfield', 'badassign', 'dupfield', 'missing-named', 'mixed', 'nostruct', 'redefine', 'wrongtype'])
        if kind in ('missing', 'extra', 'dupname', 'unknown', 'missing-named', 'wrongtype') and not news:
            kind = 'nostruct'
        if kind == 'missing':
            n = r.choice(news)
            n.args = n.args[:-1]
            if n.names is not None:
                n.names = n.names[:-1]
            if not p.structs[n.name].fields:
                continue
        elif kind == 'missing-named':
            n = r.choice(news)
            fs = [f for f, _ in p.structs[n.name].fields]
            if n.names is None:
                n.names = list(fs)
            k = r.randrange(len(n.args))
            del n.args[k]
            n.names = [x for i, x in enumerate(n.names) if i != k]
        elif kind == 'extra':
            n = r.choice(news)
            n.args = list(n.args) + [lit('int', 1)]
            if n.names is not None:
                n.names = list(n.names) + [r.choice(n.names)]
        elif kind == 'dupname':
            n = r.choice(news)
            if len(n.args) < 2:
                continue
            fs = [f for f, _ in p.structs[n.name].fields]
            n.names = list(n.names or fs)
            i, j = r.sample(range(len(n.names)), 2)
            n.names[i] = n.names[j]
        elif kind == 'unknown':
            n = r.choice(news)
            fs = [f for f, _ in p.structs[n.name].fields]
            n.names = list(n.names or fs)
            n.names[r.randrange(len(n.names))] = 'nofield9'
        elif kind == 'wrongtype':
            n = r.choice(news)
            fs = p.structs[n.name].fields
            k = r.randrange(len(n.args))
            ft = fs[k][1] if n.names is None else dict(fs)[n.names[k]]
            bad = [e for e in mutate.wrong_exprs(lang.Program()) if e.k != 'new' and not (e.k == 'cast' and 'Wrong' in str(e.t)) and not mutate.ok(e.t, ft)]
            n.args = list(n.args)
            n.args[k] = r.choice(bad)
        elif kind == 'badfield':
            ds = [s.owner for s in dots if s.owner.k == 'dot']
            if not ds:
                continue
            r.choice(ds).field = 'nofield9'
        elif kind == 'badassign':
            sts = [s for s in p.structs.values()]
            s = r.choice(sts)
            p.items.append(Func('bad9', [('q', ('S', s.name))], 'void', [N('assign', lhs=N('dot', a=ident('q', ('S', s.name)), field='nofield9', t='int'), op='=', e=lit('int', 1))]))
        elif kind == 'dupfield':
            s = r.choice(list(p.structs.values()))
            s.fields = list(s.fields) + [(r.choice(s.fields)[0], r.choice(['int', 'str']))]
            # every initialiser gets a value for it so that nothing else is wrong
            for it in p.items:
                pass
            n = r.choice([1, 2, 3, 10, 50, 90, 100, 101, 110, 150, 254])
            fs = ['%s%d' % (r.choice(['a', 'a_long_prefix_of_every_name_']), i) for i in range(n)]
            fs.insert(r.randrange(n + 1), r.choice(fs))
            src = 'struct D { %s }' % ' '.join('%s: %s' % (f, r.choice(['int', 'str', 'D?'])) for f in fs)
            yield progs.reject_unit(src, 'a field name is used twice')
            continue
        elif kind == 'other':
            # types of the same shape whose names have much in common
            base = 'T' * r.choice([1, 10, 23, 24, 30, 31, 32, 60, 63, 64, 127, 200, 254, 255, 256, 300])
            a, b = r.choice([('A', 'B'), ('', 'x'), ('x', ''), ('1', '2'), ('a', 'A')])
            A, B = base + a, base + b
            pre = 'struct %s { x: int }\nstruct %s { x: int }\nfunc fa(p: %s) { emit(p.x) }\nfunc fo(p: %s?) { emit(p == null) }\na := new %s { 1 }\nb := new %s { 2 }\nan: %s? = a\nstruct H { h: %s o: %s? }\n' % (A, B, A, A, A, B, A, A, A)
            good = r.choice(['fa(#)', 'fo(#)', 'a = #', 'an = #', 'h := new H { #, a }', 'h := new H { a, # }', 'h := new H { .o = #, .h = a }', 'q: @ = #', 'q: @? = #', 'q := if true a else #', 'func g(): @ { return # }', 'func g(): @? { return # }'])
            good = good.replace('@', A)
            yield progs.reject_unit(pre + good.replace('#', 'b'), 'a value of type %s stands for one of type %s' % (B, A))
            yield progs.accept_unit((pre + good.replace('#', 'a')).encode(), 'the types are the same')
            continue
        elif kind == 'mixed':
            src = 'struct D { a: int b: int } d := new D { %s }' % r.choice(['.a = 1, 2', '1, .b = 2', '.a 1, .b = 2', '.b = 1, .b = 2', '.a = 1', '1', '1, 2, 3', '', '.a = 1, .b = 2, .c = 3', '.c = 1, .a = 2', '.a = 1.0, .b = 2'])
            yield progs.reject_unit(src, 'the initialiser is not a proper list of all fields')
            continue
        elif kind == 'nostruct':
            p.items.append(N('expr', e=call('emit', [N('new', name=r.choice(['NoStruct9', 'int', 'nat', 'emit']), args=[lit('int', 1)], names=None, t=('S', 'x'))], 'void')))
        elif kind == 'redefine':
            s = r.choice(list(p.structs.values()))
            p.items.insert(r.randrange(len(p.items) + 1), Struc(s.name, list(s.fields) if r.random() < .5 else [('zz', 'int')]))
        src = lang.render(p, r.choice(['normal', 'tight', 'wild']), r).encode('latin-1')
        ctx.count('planted ' + kind)
        yield progs.reject_unit(src, 'it contains the planted error ' + kind)


def p_chain(ctx):
    """Fields of fields of fields, read and written through chains of any length."""
    r = ctx.rng
    n = r.choice([2, 3, 4, 5, 8])
    prim = {'int': ['1', '7', '(0 - 3)'], 'str': ['"a"', '"bc"'], 'float': ['1.5', '0.25'], 'bool': ['true', 'false'], 'any': ['cast(1, any)', 'cast("s", any)']}
    fs = []
    for k in range(n):
        f = [('v%d' % i, r.choice(sorted(prim))) for i in range(r.choice([0, 1, 2, 3]))]
        f.append(('n', r.choice(['int', 'int', 'str'])))
        if k + 1 < n:
            f.append(('s', 'S%d' % (k + 1)))
            if r.random() < .5:
                f.append(('t', 'S%d' % r.randrange(k + 1, n)))
        r.shuffle(f)
        fs.append(f)

    def new(k):
        v = [(a, new(int(t[1:])) if t[0] == 'S' else r.choice(prim[t])) for a, t in fs[k]]
        if r.random() < .4:
            r.shuffle(v)
            return 'new S%d { %s }' % (k, ', '.join('.%s = %s' % x for x in v))
        return 'new S%d { %s }' % (k, ', '.join(b for a, b in v))

    def chain(e, k, full):
        """(text, type) of a chain of fields from e, of type Sk"""
        while True:
            a, t = r.choice(fs[k])
            if full and any(x[1][0] == 'S' for x in fs[k]) and t[0] != 'S' and r.random() < .7:
                continue
            e += r.choice(['', '', '', ' ', '\n']) + '.' + a
            if t[0] != 'S':
                return e, t
            k = int(t[1:])
            if r.random() < .12:
                return e, t
    order = list(range(n))
    r.shuffle(order)
    L = ['struct S%d { %s }' % (k, ' '.join('%s: %s' % f for f in fs[k])) for k in order]
    L.append('use array("S0") as as0')
    L.append('a := %s' % new(0))
    L.append('b := %s' % new(0))
    L.append('ya := cast(a, any)')
    L.append('c := as0(a, b, %s)' % new(0))
    L.append('func mk(): S0 { return %s }' % new(0))
    L.append('func pick(x: S0, y: S0, w: bool): S0 { return if w x else y }')
    g = ['a', 'b', 'c[0]', 'c[1]', 'c[2]', 'as0_get(c, 1)', 'pick(a, b, false)', 'pick(b, c[2], true)', 'c -> as0_get(0)', '(a)', '(if true a else b)', 'cast(ya, S0)', 'cast(cast(b, any), S0)', 'cast(ya, S0)']
    for j in range(r.choice([8, 16, 30])):
        e, t = chain(r.choice(g), 0, r.random() < .8)
        k = r.random()
        if e.startswith('(') and k < .6:
            k = .8
        if k < .35:
            L.append('%s = %s' % (e, new(int(t[1:])) if t[0] == 'S' else r.choice(prim[t])))
        elif k < .5 and t in ('int', 'float'):
            if not e.startswith(('a', 'b', 'c[')) or e.startswith(('as0',)):
                continue
            L.append('%s %s %s' % (e, r.choice(['+=', '-=', '*=']), r.choice(prim[t])))
        elif k < .6:
            x, u = chain(r.choice(g), 0, True)
            if u == t:
                L.append('%s = %s' % (e, x))
        elif t[0] == 'S':
            L.append('emit(%s == %s)' % (e, chain('a', 0, True)[0]))
        else:
            L.append('emit(%d, %s, %s)' % (j, e, r.choice(['1', 'strlen("x")', chain('mk()', 0, True)[0] + ' == null'])))
    for x in ('a', 'b', 'c[2]'):
        for _ in range(4):
            e, t = chain(x, 0, True)
            L.append('emit(%s)' % e if t[0] != 'S' else 'emit(%s == %s)' % (e, e))
    src = '\n'.join(L)
    q = c30.one(ctx, src.encode(), None, 20000)
    if q and q[2] is not None:
        raise RuntimeError('front end refuses a generated program: %s\n%s' % (q[2], src))
    yield from c30.unit(ctx, [q])


p_edited = c30.mixed(lambda why, exp: exp is not None and len(exp) > 1 or why is not None and c30.STRUCTS.match(why), ['struct'])


def families(tier):
    v = ('asan', 'fast')
    return [
        Fam('programs', p_prog, 1000, 18000, v),
        Fam('operations', p_ops, 900, 16000, v),
        Fam('wide', p_wide, 255, 255 * 6, v),
        Fam('planted-errors', p_err, 260, 4000, v),
        Fam('chains', p_chain, 300, 9000, ('fast', 'asan')),
        Fam('edited programs', p_edited, 60, 1800, ('fast', 'asan'), shard=4),
    ]
