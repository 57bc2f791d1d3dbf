"""C24: arena memory is aligned, disjoint and lives until the arena is destroyed."""
from vlib import progs, gen, lang
from vlib.core import Fam, Unit, diff
from vlib.run import Case

SCALE = 3
RULE = ('Random and adversarial sequences of allocations (sizes from 0 to many pages, around page ends, all alignments up to 16) from several arenas at once over a tracking allocator under ASan and UBSan. Each block must be '
        'aligned, lie inside memory got from the allocator of its arena, overlap no other block and keep its pattern until the end; destroying gives every page back once; arenas are reused after it. '
        'Programs whose syntax trees need many pages check the parser arena. Distinct by sequence.')

PAGE = 4096


def sizes(r):
    k = r.randrange(8)
    if k == 0:
        return lambda: r.choice([0, 1, 2, 3, 7, 8, 9, 15, 16, 17])
    if k == 1:
        return lambda: r.randrange(1, 200)
    if k == 2:
        return lambda: r.choice([PAGE - 17, PAGE - 16, PAGE - 8, PAGE - 1, PAGE, PAGE + 1, PAGE + 8, PAGE * 2, 1, 8])
    if k == 3:
        return lambda: r.choice([40, 64, 72, 96, 104])
    if k == 4:
        return lambda: r.randrange(0, PAGE * 3)
    if k == 5:
        return lambda: r.choice([1, 1, 1, 8, PAGE + 1, 100000])
    if k == 6:
        return lambda: r.choice([PAGE // 2, PAGE // 2 + 1, PAGE // 2 - 1, PAGE // 4, PAGE // 3])
    return lambda: r.choice([r.randrange(1, 30), r.randrange(1, 30), r.randrange(PAGE - 40, PAGE + 40)])


def p_seq(ctx):
    r = ctx.rng
    na = r.choice([1, 1, 2, 3])
    c = Case()
    for k in range(na):
        c.add('arena', 'new', k)
    sz = [sizes(r) for _ in range(na)]
    al = r.choice([[1], [8], [1, 2, 4, 8, 16], [16], [1, 8], [1, 2], [16, 1]])
    cnt = [[0, 0] for _ in range(na)]
    exp = []
    total = 0
    for _ in range(r.choice([1, 5, 50, 400])):
        k = r.randrange(na)
        s, a = sz[k](), r.choice(al)
        if total > 3000000:
            break
        total += s
        c.add('arena', 'alloc', k, s, a)
        cnt[k][0] += 1
        cnt[k][1] += s
        if r.random() < .05:
            c.add('arena', 'verify', k)
            exp.append('arena ok blocks=%d bytes=%d' % tuple(cnt[k]))
        if r.random() < .01:
            c.add('arena', 'verify', k)
            exp.append('arena ok blocks=%d bytes=%d' % tuple(cnt[k]))
            c.add('arena', 'destroy', k)
            c.add('arena', 'new', k)
            cnt[k] = [0, 0]
    order = list(range(na))
    r.shuffle(order)
    for k in order:
        for j in range(na):
            if order.index(j) >= order.index(k):
                c.add('arena', 'verify', j)
                exp.append('arena ok blocks=%d bytes=%d' % tuple(cnt[j]))
        c.add('arena', 'destroy', k)
    ctx.count('allocations', sum(x[0] for x in cnt))
    yield Unit([(r.choice(['asan', 'asan', 'fast', 'msan']), c)], lambda rs: diff(exp, [l.split(' pages=')[0] for l in rs[0].lines]), '\n'.join(c.cmds), None)


def p_fill(ctx):
    """Fill a page to every distance from its end, then allocate around it."""
    r = ctx.rng
    c = Case()
    exp = []
    n = 0
    for rep in range(40):
        c.add('arena', 'new', 0)
        b = t = 0

        def alloc(s, a):
            nonlocal b, t
            c.add('arena', 'alloc', 0, s, a)
            b += 1
            t += s
        if r.random() < .3:
            alloc(r.choice([PAGE + 1, 9000]), 8)
        left = (ctx.i * 40 + rep) % 80
        chunk = r.choice([0, 1, 13, 64, 1000])
        used = 0
        if chunk:
            for _ in range(r.randrange(1, 5)):
                alloc(chunk, 1)
                used += chunk
        alloc(PAGE - left - used, r.choice([1, 1, 8]))
        for _ in range(r.randrange(1, 6)):
            alloc(r.choice([left, left + 1, max(left - 1, 0), max(left - 8, 0), 1, 8, 16, PAGE, PAGE + 1, 0, left // 2]), r.choice([1, 2, 4, 8, 16]))
        c.add('arena', 'verify', 0)
        exp.append('arena ok blocks=%d bytes=%d' % (b, t))
        c.add('arena', 'destroy', 0)
        n += b
    ctx.count('allocations', n)
    yield Unit([(r.choice(['asan', 'fast', 'msan']), c)], lambda rs: diff(exp, [l.split(' pages=')[0] for l in rs[0].lines]), '\n'.join(c.cmds), None)


def p_parser(ctx):
    """Trees that take many pages, with strings shorter and longer than a page."""
    r = ctx.rng
    L, ev = [], []
    v = 0
    for k in range(r.choice([20, 200, 800])):
        q = r.randrange(5)
        if q == 0:
            n = r.choice([1, 5, 60])
            xs = [r.randrange(100) for _ in range(n)]
            L.append('emit(%s)' % ' + '.join(map(str, xs)))
            ev.append(progs.emitted(sum(xs)))
        elif q == 1 and k % 20 == 0:
            s = 'q' * r.choice([4000, 4080, 4095, 4096, 4097, 5000, 20000])
            L.append('emit(strlen("%s"))' % s)
            ev.append(progs.emitted(len(s)))
        elif q == 2:
            nm = 'x' * r.choice([1, 30, 250]) + str(k)
            L.append('%s := %d' % (nm, k))
            L.append('emit(%s)' % nm)
            ev.append(progs.emitted(k))
        elif q == 3:
            d = r.randrange(1, 40)
            L.append('emit(%s%d%s)' % ('(' * d, k, ')' * d))
            ev.append(progs.emitted(k))
        else:
            nm = 'f%d' % k + 'y' * r.choice([0, 100])
            L.append('func %s(%s): int { if a0 > 0 { return a0 * 2 } return %d }' % (nm, ', '.join('a%d: int' % i for i in range(r.choice([1, 3]))) , k))
            n = L[-1].count(': int') - 1
            L.append('emit(%s(%s))' % (nm, ', '.join(['3'] + ['0'] * (n - 1))))
            ev.append(progs.emitted(6))
    yield progs.text_unit('\n'.join(L), ev, var=r.choice(['asan', 'fast', 'msan']))


def families(tier):
    v = ('asan', 'fast', 'msan')
    return [
        Fam('sequences', p_seq, 2500, 20000, v),
        Fam('page ends', p_fill, 200, 1500, v),
        Fam('parser', p_parser, 80, 600, v),
    ]
