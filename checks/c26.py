"""C26: limits are honoured: everything below works, everything above is refused."""
from vlib import progs, gen, lang
from vlib.core import Fam, Unit, diff
from vlib.run import Case, cmd
from checks.c07 import macros

SCALE = 2
RULE = ('Programs are generated around every limit: locals, parameters, arguments, fields, string constants, macro arguments, nested compiles, call depth and stack slots (with the default stack of 128 slots and 64 calls), '
        'reached through every construct that consumes the resource. Within the limit the complete effects are compared with the prediction; beyond a compile-time limit an error report is required, '
        'beyond a run-time limit the effects must be a prefix of the prediction and the process must end by the failed check, not by a sanitizer report, a crash or by going on. Counts without a documented limit '
        '(globals, functions, code size, data size) are pushed far beyond one and two byte encodings. Distinct by program.')
ASSUME = ['run-time limits are enforced by assertions, as in the build of the repository']

STACK, DEPTH = 128, 64


def E(*vals):
    return progs.emitted(*[v.encode() if isinstance(v, str) else v for v in vals])


def stopped(r):
    """The execution was ended by a failed assertion, nothing else."""
    return r.end == 'sig 6' and any('Assertion' in l for l in r.stderr) and \
        not any('Sanitizer' in l or 'runtime error' in l for l in r.stderr)


def run_judge(exp, must):
    """exp: complete lines; must: 'work', 'stop' or 'either'."""
    def judge(rs):
        r = rs[0]
        if r.clean:
            if must == 'stop':
                return 'went on beyond the limit: %s' % r.lines[-3:]
            return diff(exp, r.lines)
        if not stopped(r):
            return r.why()
        if must == 'work':
            return 'stopped within the limit (%s)' % r.why()
        if r.lines != exp[:len(r.lines)]:
            return 'before it was stopped: ' + diff(exp, r.lines)
    return judge


LIM = ('asan_lim', 'fast_lim')


# ---- call depth ----------------------------------------------------------------------------------

def p_depth(ctx):
    r = ctx.rng
    d = r.choice([1, 2, 5, 30, 62, 63, 64, 64, 65, 65, 66, 67, 70, 100, 127, 128, 129, 200, 255, 256, 257, 1000, 5000])
    kind = r.randrange(7)
    var = r.choice(LIM)
    down = [E(i) for i in range(d, 0, -1)]
    up = []
    host = False
    if kind == 0:
        src = 'func f(n: int): int { emit(n) if n <= 1 { return 0 } return f(n - 1) }\nemit("r", f(%d))' % d
        up = [E('r', 0)]
    elif kind == 1:
        src = 'func f(n: int) { emit(n) if n > 1 { g(n - 1) } emit(0 - n) }\nfunc g(n: int) { emit(n) if n > 1 { f(n - 1) } emit(0 - n) }\nf(%d)' % d
        up = [E(-i) for i in range(1, d + 1)]
    elif kind == 2:
        src = 'struct S { v: int }\nfunc f(s: S): S { emit(s.v) if s.v <= 1 { return s } s.v -= 1 return s->f() }\nx := new S { %d }\nemit(x->f().v)' % d
        up = [E(1)]
    elif kind == 3:   # no arguments at all
        src = 'n := %d\nfunc f() { emit(n) n -= 1 if n > 0 { f() } }\nf()\nemit("z")' % d
        up = [E('z')]
    elif kind == 4:   # called by the host
        src = 'func f(n: int): int { emit(n) if n <= 1 { return 7 } return f(n - 1) }'
        host = True
        up = ['ret 0 i7']
    elif kind == 5:   # many functions in a chain
        d = min(d, 400)
        down = [E(i) for i in range(d, 0, -1)]
        src = '\n'.join(['func f%d(): int { emit(%d) return f%d() }' % (i, i, i - 1) for i in range(d, 1, -1)] + ['func f1(): int { emit(1) return 5 }', 'emit(f%d())' % d])
        up = [E(5)]
    else:             # each level left before the next is entered: the depth is 1
        src = 'func f(n: int): int { emit(n) return n - 1 }\nn := %d\nwhile n > 0 { n = f(n) }\nemit("end")' % d
        up = [E('end')]
    must = 'work' if d <= DEPTH or kind == 6 else 'stop'
    c = Case(gen.setup())
    c.add('compile', 0, 'm', src)
    progs.begin(c, gc=r.choice([0, 1]))
    c.add('run', 0)
    exp = ['compile 0 ok'] + ([] if host else down + up) + ['done 0 sp=0 fc=0']
    if host:
        c.add('call', 0, 'f', 'i%d' % d)
        exp += down + up
    progs.finish(c)
    ctx.count('beyond' if must == 'stop' else 'within')
    yield Unit([(var, c)], run_judge(exp, must), '%d %d %s' % (kind, d, var), src[:3000], unclean=True)


def p_reenter(ctx):
    """Script and host calling each other: every call counts."""
    r = ctx.rng
    d = r.choice([3, 10, 20, 25, 40, 80, 100])
    src = 'func f(n: int): int { emit(n) if n <= 1 { return 100 } x := cast(callback("f", n - 1), int) return x + 1 }\nemit("r", f(%d))' % d
    c = Case(gen.setup())
    c.add('compile', 0, 'm', src)
    progs.begin(c)
    c.add('run', 0)
    progs.finish(c)
    must = 'work' if d <= 20 else 'stop' if d > DEPTH else 'either'
    exp = ['compile 0 ok'] + [E(i) for i in range(d, 0, -1)] + [E('r', 100 + d - 1), 'done 0 sp=0 fc=0']
    ctx.count('beyond' if must == 'stop' else 'within')
    yield Unit([(r.choice(LIM), c)], run_judge(exp, must), str(d), src, unclean=True)


# ---- stack ---------------------------------------------------------------------------------------

LEAF = [('7', 7), ('0', 0), ('1', 1), ('100000', 100000), ('-3', -3), ('1.5', 1.5), ('"abc"', 'abc'), ('true', True), ('false', False), ('null', None),
        ('g', 41), ('gs', 'glob'), ("'a'", 97), ('g + 1', 42), ('K', 12), ('KS', 'kk'), ('idf(9)', 9), ('h()', 77), ('h2(3, 4)', 7), ('p.a', 5), ('if g == 41 g else 0', 41),
        ('strlen("four")', 4), ('g == 41 && g > 0', True), ('!true', False), ('-g', -41), ('cast(g, any)', 41), ('int(2.5)', 2), ('new P { 1, 2 } != p', True), ('arr[1]', 20)]
EXACT = LEAF[:13] + [('K', 12), ('KS', 'kk')]
TOP = ['use array("int") as array_int', 'K :: 12', 'KS :: "kk"', 'struct P { a: int b: int }', 'g := 41', 'gs := "glob"', 'p := new P { 5, 6 }', 'arr := array_int(10, 20)',
       'func h(): int { return 77 }', 'func h2(a: int, b: int): int { return a + b }']
EXTRA_DEPTH = 3        # what evaluating a leaf may need at most beyond the slot of its value


def must_for(n, slack=0):
    """n slots are needed, or up to n + slack."""
    if n + slack <= STACK:
        return 'work'
    return 'stop' if n > STACK else 'either'


def p_stack(ctx):
    r = ctx.rng
    kind = r.randrange(11)
    n = r.choice([1, 10, 60, 100, 120, 124, 125, 126, 127, 128, 129, 130, 131, 132, 140, 150, 180, 200, 254])
    L = list(TOP)
    ev = []
    host = None
    e, v = r.choice(LEAF)
    if kind == 0:          # n arguments at the end of which one leaf of each sort
        L.append('emit(%s)' % ', '.join(['g'] * (n - 1) + [e]))
        ev.append(E(*([41] * (n - 1) + [v])))
        need, slack = n, EXTRA_DEPTH
    elif kind == 1:        # everywhere the same leaf
        L.append('emit(%s)' % ', '.join([e] * n))
        ev.append(E(*[v] * n))
        need, slack = n, EXTRA_DEPTH
    elif kind == 2:        # locals
        L.append('func f() { emit("in") %s emit(l%d, l0) }' % (' '.join('l%d := %d' % (i, i * 3) for i in range(n)), n - 1))
        L.append('f()\nemit("out")')
        ev += [E('in'), E((n - 1) * 3, 0), E('out')]
        need, slack = n + 2, 1
        if n + 1 > STACK:
            need = n + 1
    elif kind == 3:        # parameters
        L.append('func f(%s): int { return a%d }' % (', '.join('a%d: int' % i for i in range(n)), n - 1))
        L.append('emit(f(%s))' % ', '.join(str(i) for i in range(n)))
        ev.append(E(n - 1))
        need, slack = n, 3
    elif kind == 4:        # parameters and locals together with recursion
        a, b, d = r.choice([(1, 1, 5), (3, 4, 20), (10, 20, 4), (2, 30, 4), (30, 2, 4), (5, 5, 12), (5, 5, 13), (1, 9, 12), (1, 9, 13)])
        L.append('func f(%s): int { %s if a0 <= 1 { return %s } return f(%s) }' % (
            ', '.join('a%d: int' % i for i in range(a)), ' '.join('l%d := a0 + %d' % (i, i) for i in range(b)),
            'l%d' % (b - 1), ', '.join(['a0 - 1'] + ['a%d' % i for i in range(1, a)])))
        L.append('emit(f(%s))' % ', '.join([str(d)] + ['5'] * (a - 1)))
        ev.append(E(1 + b - 1))
        need, slack = (a + b) * d, a + 4
    elif kind == 5:        # operands waiting for their right hand sides
        t = e if isinstance(v, int) and not isinstance(v, bool) and e[0] not in 'ci-n' else 'g'
        val = v if t == e else 41
        L.append('emit(%s%s%s)' % ('g + (' * (n - 1), t, ')' * (n - 1)))
        ev.append(E(41 * (n - 1) + val))
        need, slack = n, EXTRA_DEPTH
    elif kind == 6:        # nested calls whose earlier arguments wait
        m = min(n, 125)
        L.append('emit(%s1%s)' % ('h2(1, ' * (m - 1), ')' * (m - 1)))
        ev.append(E(m))
        need, slack = m, 4
    elif kind == 7:        # a host call with locals
        m = min(n, 200)
        a = r.randrange(1, m + 1)
        b = m - a
        L.append('func f(%s): int { %s return a%d%s }' % (', '.join('a%d: int' % i for i in range(a)), ' '.join('l%d := %d' % (i, i) for i in range(b)), a - 1, ' + l%d' % (b - 1) if b else ''))
        host = ['call', 0, 'f'] + ['i%d' % i for i in range(a)]
        ev.append('ret 0 i%d' % (a - 1 + (b - 1 if b else 0)))
        need, slack = m, 3
    elif kind >= 9:        # one instruction for every slot: the limit is exact
        a, b = r.choice([(0, 0), (1, 0), (0, 1), (3, 4), (1, 30), (20, 0), (10, 40)])
        m = max(1, r.choice([STACK - 2, STACK - 1, STACK, STACK, STACK + 1, STACK + 1, STACK + 2, STACK + 3, STACK + 20, n]) - a - b)
        lv = [('a%d' % i, 100 + i) for i in range(a)] + [('l%d' % i, i * 3) for i in range(b)]
        pool = EXACT + lv * 2
        fill = r.choice(pool + lv * 4)
        es = [fill] * m if r.random() < .5 else [r.choice(pool) for _ in range(m)]
        if r.random() < .5:
            es[-1] = r.choice(lv or pool)
        L.append('func f(%s) { %s emit(%s) }' % (', '.join('a%d: int' % i for i in range(a)), ' '.join('l%d := %d' % (i, i * 3) for i in range(b)), ', '.join(x for x, _ in es)))
        L.append('f(%s)' % ', '.join(str(100 + i) for i in range(a)))
        ev.append(E(*[x for _, x in es]))
        need, slack = a + b + m, 0
    else:                  # a container made of many values
        L.append('xs := array_int(%s)\nemit(array_int_len(xs), xs[%d])' % (', '.join(str(i) for i in range(n)), n - 1))
        ev.append(E(n, n - 1))
        need, slack = n, 1
    src = '\n'.join(L)
    c = Case(gen.setup(extra=[cmd('bind', '0', 'idf(any): any', 'idf')]))
    c.add('compile', 0, 'm', src)
    progs.begin(c, gc=r.choice([0, 1]))
    c.add('run', 0)
    exp = ['compile 0 ok']
    if host:
        exp += ['done 0 sp=0 fc=0'] + ev
        c.add(*host)
    else:
        exp += ev + ['done 0 sp=0 fc=0']
    progs.finish(c)
    must = must_for(need, slack)
    ctx.count({'stop': 'beyond', 'work': 'within', 'either': 'at the edge'}[must])
    var = r.choice(LIM)
    yield Unit([(var, c)], run_judge(exp, must), var + src, src, unclean=True)


def p_stacksame(ctx):
    """Whatever works with a large stack works the same with the small one or is stopped."""
    r = ctx.rng
    m = progs.make(ctx, r.choice(['default', 'calls', 'expr', 'struct', 'flow']), steps=6000)
    src = progs.source(m, r)
    c = progs.start(m, src, gc=r.choice([0, 0, 2]))
    c.add('run', 0)
    progs.finish(c)
    exp = ['compile 0 ok'] + m.it.ev + ['done 0 sp=0 fc=0']
    yield Unit([(r.choice(LIM), c)], run_judge(exp, 'either'), src, src.decode('latin-1'), unclean=True, trivial=len(m.it.ev) < 2)


# ---- compile-time limits -------------------------------------------------------------------------

NS = [1, 2, 100, 127, 128, 129, 200, 253, 254, 255, 255, 256, 256, 257, 258, 260, 300, 511, 512, 513, 1000, 1025]


def climit(ctx, src, ev, ok, what, extra=(), key=None, host=None, either=False):
    """Program that must work (ok) or be refused by the compiler."""
    r = ctx.rng
    var = r.choice(['asan', 'fast'])
    c = Case(gen.setup(std='lad6i', extra=list(extra)))
    c.add('compile', 0, 'm', src.encode('latin-1') if isinstance(src, str) else src)
    exp = ['compile 0 ok']
    if ok:
        progs.begin(c, gc=r.choice([0, 0, 1]) if len(src) < 20000 else 0)
        c.add('run', 0)
        exp += ev + ['done 0 sp=0 fc=0']
        progs.finish(c)
    else:
        # the state must still be good for something
        c.add('compile', 0, 'n', 'emit(1)')
        c.add('thread', 0, 0)
        c.add('start', 0)
        c.add('run', 0)
        progs.finish(c)
    ctx.count('within' if ok else 'beyond')

    def judge(rs):
        l = rs[0].lines
        if ok:
            return diff(exp, l)
        if not l or not l[0].startswith('compile 0 err '):
            return '%s is not refused: %s' % (what, l[:2])
        if 'ERROR m(' not in lang_unq(l[0]):
            return 'refused with a message that does not name the file: ' + l[0][-300:]
        return diff(['compile 0 ok', E(1), 'done 0 sp=0 fc=0'], l[1:])
    s = src if isinstance(src, str) else src.decode('latin-1')
    return Unit([(var, c)], judge, s, s[:2000])


def lang_unq(l):
    return l.replace('%20', ' ').replace('%28', '(').replace('%29', ')')


def p_locals(ctx):
    r = ctx.rng
    n = r.choice(NS)
    k = r.randrange(5)
    a = r.choice([0, 0, 1, 3, 100, 255])
    if k == 0:
        body = ' '.join('l%d := %d' % (i, i * 7) for i in range(n))
        use = ' '.join('emit(l%d)' % i for i in sorted({0, n // 2, n - 1, min(n - 1, 254), min(n - 1, 127), min(n - 1, 128)}))
        ev = [E(i * 7) for i in sorted({0, n // 2, n - 1, min(n - 1, 254), min(n - 1, 127), min(n - 1, 128)})]
    elif k == 1:       # each in a block of its own
        body = ' '.join('{ x := %d emit(x) }' % i for i in range(n))
        use, ev = '', [E(i) for i in range(n)]
    elif k == 2:       # nested blocks
        n2 = min(n, 120) if n <= 255 else n
        body = ' '.join('l%d := %d if true {' % (i, i) for i in range(min(n2, 60))) + ' '.join('l%d := %d' % (i, i) for i in range(60, n))
        if n < 60:
            body = ' '.join('l%d := %d if true {' % (i, i) for i in range(n))
        q = min(n, 60)
        use = 'emit(l0, l%d)' % (n - 1) + '}' * q
        ev = [E(0, n - 1)]
    elif k == 3:       # loop variables
        body = ' '.join('for i := 0; i < 2; i += 1 { t += i }' for _ in range(n - 1))
        body = 't := 0 ' + body
        use, ev = 'emit(t)', [E(n - 1)]
    else:              # sum over all
        body = ' '.join('l%d := %d' % (i, i) for i in range(n))
        use = 'emit(%s)' % ' + '.join('l%d' % i for i in range(n))
        ev = [E(n * (n - 1) // 2)]
    src = 'func f(%s): int { %s %s return %s }\n' % (', '.join('p%d: int' % i for i in range(a)), body, use, 'p%d' % (a - 1) if a else '99')
    if r.random() < .5:
        src = 'func q() { z := 1 }\n' + src
    src += 'emit(f(%s))' % ', '.join(str(i + 5) for i in range(a))
    ev = ev + [E(a + 4 if a else 99)]
    yield climit(ctx, src, ev, n <= 255, 'a function with %d locals' % n)


def p_args(ctx):
    r = ctx.rng
    n = r.choice(NS)
    k = r.randrange(6)
    if k == 5:
        n = r.randrange(1, 25)
    vals = list(range(10, 10 + n))
    lst = ', '.join(map(str, vals))
    extra = ()
    if k == 0:
        p = ', '.join('p%d: int' % i for i in range(n))
        pick = sorted({0, n - 1, n // 2, min(n - 1, 127), min(n - 1, 128), min(n - 1, 254)})
        src = 'func f(%s) { %s }\nf(%s)\nemit("z")' % (p, ' '.join('emit(p%d)' % i for i in pick), lst)
        ev = [E(vals[i]) for i in pick] + [E('z')]
    elif k == 1:
        src = 'emit(%s)' % lst
        ev = [E(*vals)]
    elif k == 2:
        src = 'use array("int") as array_int\nx := array_int(%s)\nemit(array_int_len(x), x[%d])' % (lst, n - 1)
        ev = [E(n, vals[-1])]
    elif k == 3:
        p = ', '.join('p%d: int' % i for i in range(n))
        src = 'func f(%s): int { l := 3 return p0 * 1000000 + p%d + l }\nemit(10->f(%s))' % (p, n - 1, ', '.join(map(str, vals[1:])))
        ev = [E(10 * 1000000 + vals[-1] + 3)]
    elif k == 4:
        src = 'x := spy1(%s)\nemit(x)' % lst
        extra = [cmd('bind', '0', 'spy1(%s): int' % ', '.join(['int'] * n), 'spy1'), cmd('spy', '1', 'v', 'i77')]
        ev = ['spy1 0 %d %s' % (n, ' '.join('i%d' % v for v in vals)), E(77)]
    else:
        p = ', '.join('p%d: int' % i for i in range(n))
        src = 'func f(%s): int { return p%d }\nuse delegate("f") as mk\nd := mk()\nemit(delegate_%s_int_call(d, %s))' % (p, n - 1, '_'.join(['int'] * n), lst)
        ev = [E(vals[-1])]
    ok = n <= 255
    yield climit(ctx, src, ev, ok, '%d arguments' % n, extra)


def p_fields(ctx):
    r = ctx.rng
    n = r.choice(NS)
    k = r.randrange(5)
    ty = r.choice(['int', 'any', 'mixed'])

    def ft(i):
        return ty if ty != 'mixed' else ['int', 'str', 'float', 'bool'][i % 4]

    def fv(i):
        t = ft(i)
        return ('%d' % (i * 3), i * 3) if t in ('int', 'any') else ('"s%d"' % (i % 50), 's%d' % (i % 50)) if t == 'str' else ('%d.5' % i, i + .5) if t == 'float' else (('true', True) if i % 3 else ('false', False))
    dec = 'struct S { %s }\n' % ' '.join('f%d: %s' % (i, ft(i)) for i in range(n))
    order = list(range(n))
    if k in (1, 2):
        r.shuffle(order)
    if k == 0 or k == 3:
        new = 'new S { %s }' % ', '.join(fv(i)[0] for i in range(n))
    else:
        new = 'new S { %s }' % ', '.join('.f%d = %s' % (i, fv(i)[0]) for i in order)
    pick = sorted({0, n - 1, n // 2, min(n - 1, 127), min(n - 1, 128), min(n - 1, 254)})
    src = dec + 's := %s\n' % new + ''.join('emit(s.f%d)\n' % i for i in pick)
    ev = [E(fv(i)[1]) for i in pick]
    if k >= 3:
        for i in pick:
            src += 's.f%d = %s\n' % (i, fv(i + 4)[0])
        src += 'emit(%s)' % ', '.join('s.f%d' % i for i in (range(n) if n <= 255 else range(10)))
        ev.append(E(*[fv(i + 4 if i in pick else i)[1] for i in range(min(n, 256))]))
    yield climit(ctx, src, ev, n <= 255, 'a struct with %d fields' % n)


def p_stringsfull(ctx):
    """New string constants until one is refused: those which are there already can still be used."""
    r = ctx.rng
    n = r.choice([900, 1000])
    c = Case(gen.setup())
    c.add('compile', 0, 'm', '\n'.join('emit("s%d")' % i for i in range(n)))
    for i in range(n, n + 140):
        c.add('compile', 0, 'm', r.choice(['emit("s%d")', 'v%d := "s%d"', 'func f%d(): str { return "s%d" }', 'K%d :: "s%d"']).replace('%d', str(i)))
    old = ['s%d' % i for i in sorted(r.sample(range(n), 30)) + [0, n - 1]]
    c.add('compile', 0, 'm', '\n'.join('emit("%s")' % x for x in old) + '\nZK :: "%s"\nemit(ZK == "%s")' % (old[0], old[0]))
    c.add('compile', 0, 'm', 'emit("one more which is new")')
    c.add('compile', 0, 'm', 'emit("%s" != "%s", 5)' % (old[1], old[2]))
    c.add('thread', 0, 0)
    c.add('start', 0)
    c.add('run', 0)
    progs.finish(c)

    def judge(rs):
        l = rs[0].lines
        if l[0] != 'compile 0 ok':
            return l[0][:200]
        k = 1
        exp = [E('s%d' % i) for i in range(n)]
        while k < 141 and l[k] == 'compile 0 ok':
            k += 1
        got = k - 1
        if n + got > 1024:
            return '%d distinct string constants were accepted' % (n + got)
        if n + got < 1000:
            return 'only %d string constants were accepted' % (n + got)
        for j in range(k, 141):
            if not l[j].startswith('compile 0 err '):
                return 'after a refusal for want of room a new string constant is accepted: ' + l[j][:100]
        if l[141] != 'compile 0 ok' or l[143] != 'compile 0 ok':
            return 'string constants which are there already are refused: %s' % [x[-200:] for x in (l[141], l[143])]
        if not l[142].startswith('compile 0 err '):
            return 'accepted beyond the limit'
        t = [x for x in l[144:] if x.startswith('emit')]
        exp += [E('s%d' % (n + j)) for j in range(got) if texts[j].startswith('emit')] + [E(x) for x in old] + [E(True), E(True, 5)]
        return diff(exp, t)
    from vlib.run import unesc
    cs = [x for x in c.cmds if x.startswith('compile ')]
    texts = [unesc(x.split(' ', 3)[3]).decode() for x in cs[-143:][:140]]
    ctx.count('filled')
    yield Unit([(r.choice(['asan', 'fast']), c)], judge, '\n'.join(c.cmds), '%d strings and more' % n)


def p_strings(ctx):
    """String constants of a state: up to about 1000 work (the library's own use is not known exactly), over 1024 are refused."""
    r = ctx.rng
    n = r.choice([10, 250, 255, 256, 257, 260, 500, 511, 512, 900, 1000, 1018, 1019, 1020, 1021, 1022, 1023, 1024, 1025, 1026, 1030, 1100, 3000])
    pieces = r.choice([1, 1, 2, 5])
    dup = r.random() < .4
    k = r.randrange(4)
    c = Case(gen.setup())
    c.add('compile', 0, 'm', 'z := 0')      # a state without any code cannot run
    per = [[] for _ in range(pieces)]
    for i in range(n):
        per[i * pieces // n].append(i)
    ev = []
    lines = []
    for j, ids in enumerate(per):
        L = []
        for i in ids:
            if k == 0:
                L.append('emit("s%d")' % i)
            elif k == 1:
                L.append('v%d := "s%d" emit(v%d)' % (i, i, i))
            elif k == 2:
                L.append('C%d :: "s%d"\nemit(C%d)' % (i, i, i))
            else:
                L.append('emit(if true "s%d" else "s0")' % i)
        if dup:
            L += ['emit("s%d" == "s%d")' % (i, i) for i in ids[:50]]
        lines.append('\n'.join(L))
        c.add('compile', 0, 'm%d' % (j if r.random() < .5 else 0), lines[-1])
        ev.append([E('s%d' % i) for i in ids] + ([E(True)] * min(50, len(ids)) if dup else []))
    c.add('thread', 0, 0)
    c.add('start', 0)
    c.add('run', 0)
    progs.finish(c)

    def judge(rs):
        l = rs[0].lines
        if l[:1] != ['compile 0 ok']:
            return 'unexpected: %s' % l[:1]
        l = l[1:]
        ok = 0
        exp = []
        for j in range(pieces):
            if j >= len(l):
                return 'no result of compile %d' % j
            if l[j] == 'compile 0 ok':
                ok += len(per[j])
                exp.append(ev[j])
            elif l[j].startswith('compile 0 err '):
                if sum(len(p) for p in per[:j + 1]) <= 1000:
                    return 'refused within the limit: ' + l[j][-200:]
            else:
                return 'compile %d: %s' % (j, l[j][:200])
        if ok > 1024:
            return '%d distinct string constants were accepted' % ok
        return diff(sum(exp, []) + ['done 0 sp=0 fc=0'], l[pieces:])
    ctx.count('beyond' if n > 1024 else 'within')
    yield Unit([(r.choice(['asan', 'fast']), c)], judge, '\n'.join(c.cmds), '%d strings in %d pieces' % (n, pieces))


def p_macroargs(ctx):
    r = ctx.rng
    n = r.choice([0, 1, 2, 50, 100, 126, 127, 128, 128, 129, 129, 130, 200, 1000])
    args = ['"a%d"' % i for i in range(n)]
    src = 'use log(%s) as nm\nemit(1)' % ', '.join(args) if n else 'use log() as nm\nemit(1)'
    if n == 0:
        return
    c = Case(gen.setup())
    macros(c, 0)
    c.add('compile', 0, 'm', src)
    c.add('delstate', 0)
    ctx.count('within' if n <= 128 else 'beyond')

    def judge(rs):
        l = rs[0].lines
        if any(x.startswith('macro log') for x in l):
            if n > 128:
                return 'a macro was run with %d arguments' % n
            m = [x for x in l if x.startswith('macro log')][0]
            got = [t for t in m.split(' ') if t.strip('"').startswith('a') and t.strip('"')[1:].isdigit()]
            if len(got) != n or [int(t.strip('"')[1:]) for t in got] != list(range(n)):
                return 'the macro got other arguments: ' + m[:300]
            return None if l[-1] == 'compile 0 ok' else 'compile failed: %s' % l[-1][:200]
        if n <= 128:
            return 'refused within the limit: %s' % l[:2]
        if not l or not l[0].startswith('compile 0 err '):
            return 'neither run nor refused: %s' % l[:2]
    yield Unit([(r.choice(['asan', 'fast']), c)], judge, src, src[:300])


def p_nest(ctx):
    """Modules compile text that uses modules that compile text."""
    r = ctx.rng
    d = r.choice([1, 2, 5, 10, 14, 15, 16, 17, 18, 20, 40])
    kind = r.choice(['comp', 'try'])
    def q(s):
        return '"' + s.replace('\\', '\\\\').replace('"', '\\"') + '"'
    c = Case(gen.setup())
    macros(c, 0)
    src = 'emit("deep")'
    for j in range(d - 1):
        if len(src) > 150000:
            d = j + 1
            break
        src = 'use %s(%s) as n%d\nemit(%d)' % (kind, q(src), j, j)
    c.add('compile', 0, 'm', 'z := 0')
    c.add('compile', 0, 'm', src)
    c.add('compile', 0, 'm', 'emit("after")')
    c.add('thread', 0, 0)
    c.add('start', 0)
    c.add('run', 0)
    progs.finish(c)
    ctx.count('within' if d <= 16 else 'beyond')
    ctx.count('compile calls nested', d)

    def judge(rs):
        l = [x for x in rs[0].lines if not x.startswith(('macro', 'try'))]
        if l[0] != 'compile 0 ok' or l[2] != 'compile 0 ok':
            return 'unexpected: %s' % [x[:200] for x in l[:3]]
        full = [E('deep')] + [E(j) for j in range(d - 1)] + [E('after'), 'done 0 sp=0 fc=0']
        if d <= 16:
            return diff(['compile 0 ok'] * 3 + full, l)
        if kind == 'comp':
            if not l[1].startswith('compile 0 err'):
                return '%d nested compiles accepted' % d
            return diff([E('after'), 'done 0 sp=0 fc=0'], l[3:])
        # a failed innermost compile is ignored; the outer ones took effect
        if l[1] != 'compile 0 ok':
            return 'the outer compile failed: ' + l[1][-300:]
        return diff([E(j) for j in range(d - 17, d - 1)] + [E('after'), 'done 0 sp=0 fc=0'], l[3:])
    yield Unit([(r.choice(['asan', 'fast']), c)], judge, '%s %d' % (kind, d), src[:1000])


# ---- no limit: much of everything ----------------------------------------------------------------

def p_wide(ctx):
    r = ctx.rng
    k = r.randrange(12)
    n = r.choice([255, 256, 257, 300, 600, 1000, 2000, 3000])
    extra = ()
    s = r.sample(range(n), min(n, 12)) + [0, n - 1, min(n - 1, 255), min(n - 1, 256)]
    if k == 0:       # globals
        src = '\n'.join('g%d := %d' % (i, i * 5) for i in range(n)) + '\n' + '\n'.join('emit(g%d)' % i for i in s) + '\n' + '\n'.join('g%d += %d' % (i, i) for i in range(n)) + '\n' + '\n'.join('emit(g%d)' % i for i in s)
        ev = [E(i * 5) for i in s] + [E(i * 6) for i in s]
    elif k == 1:     # functions
        src = '\n'.join('func f%d(): int { return %d }' % (i, i * 3) for i in range(n)) + '\n' + '\n'.join('emit(f%d())' % i for i in s)
        ev = [E(i * 3) for i in s]
    elif k == 2:     # foreign functions
        n = min(n, 1000)
        s = [i for i in s if i < n]
        extra = [cmd('bind', '0', 'x%d(int): int' % i, 'spy%d' % (i % 32)) for i in range(n)] + [cmd('spy', '%d' % j, 'a0') for j in range(32)]
        src = '\n'.join('emit(x%d(%d))' % (i, i) for i in s)
        ev = sum([['spy%d 0 1 i%d' % (i % 32, i), E(i)] for i in s], [])
    elif k == 3:     # structs
        src = '\n'.join('struct S%d { a: int b: S%d? }' % (i, (i + 1) % n) for i in range(n)) + '\n' + '\n'.join('emit((new S%d { %d, cast(null, S%d?) }).a)' % (i, i, (i + 1) % n) for i in s)
        ev = [E(i) for i in s]
    elif k == 4:     # constants
        src = '\n'.join('C%d :: %d\nD%d :: %d.5' % (i, i * i, i, i) for i in range(n)) + '\n' + '\n'.join('emit(C%d, D%d)' % (i, i) for i in s)
        ev = [E(i * i, i + .5) for i in s]
    elif k == 5:     # a long loop body: far jumps in both directions
        m = r.choice([200, 1500, 6000, 12000])
        src = 't := 0\nfor i := 0; i < 3; i += 1 {\nif i == 1 { continue }\n' + 't += i * 1000003 + 7\n' * m + 'if i == 2 { break }\n}\nemit(t)'
        ev = [E(m * 7 + m * (2 * 1000003 + 7))]
    elif k == 6:     # far branches
        m = r.choice([200, 1500, 6000, 12000])
        src = 't := 0\nfunc w(b: bool): int { x := 0 if b {\n' + 'x += 1000001\n' * m + '} else {\n' + 'x += 2000003\n' * m + '}\nreturn x }\nemit(w(true), w(false), if w(true) == 5 w(true) else 8)'
        ev = [E(m * 1000001, m * 2000003, 8)]
    elif k == 7:     # the program text itself is long, functions far away
        m = r.choice([2000, 8000])
        src = 'emit(far(5))\n' + 'z := 1\n' + 'z += 123456\n' * m + 'func far(a: int): int { return a + 1 }\nemit(far(z))'
        ev = [E(6), E(1 + 123456 * m + 1)]
    elif k == 8:     # long names and long strings
        m = r.choice([100, 255, 256, 1000, 4095, 4096, 5000, 70000])
        nm = 'n' * m
        src = '%s := 5\nstruct S%s { f%s: int }\nfunc g%s(p%s: int): int { return p%s }\nemit(%s, g%s(6), (new S%s { .f%s = 7 }).f%s)\nemit("%s")\n%sq := 8\nemit(%s, %sq)' % (nm, nm, nm, nm, nm, nm, nm, nm, nm, nm, nm, 'x' * m, nm, nm, nm)
        ev = [E(5, 6, 7), E('x' * m), E(5, 8)]
    elif k == 9:     # long chains of operators
        m = r.choice([200, 1000, 3000])
        src = 'a := 3\nemit(%s)\nemit(%s)' % (' + '.join(['a'] * m), ' && '.join(['a == 3'] * m))
        ev = [E(3 * m), E(True)]
    elif k == 10:    # nested parentheses and blocks
        m = r.choice([50, 200, 400])
        src = 'a := 3\nemit(%sa%s)\n%s emit(a) %s\n%s emit("in") %s' % ('(' * m, ')' * m, '{' * m, '}' * m, 'if a == 3 {' * m, '}' * m)
        ev = [E(3), E(3), E('in')]
    else:            # else-if chains
        m = r.choice([100, 255, 500])
        x = r.randrange(m + 2)
        src = 'x := %d\n' % x + ' else '.join('if x == %d { emit(%d) }' % (i, i * 2) for i in range(m)) + ' else { emit("none") }'
        ev = [E(x * 2) if x < m else E('none')]
    yield climit(ctx, src, ev, True, 'a wide program', extra)


def p_data(ctx):
    """Much data at run time."""
    r = ctx.rng
    k = r.randrange(6)
    n = r.choice([1000, 20000, 70000])
    if k == 0:
        src = 'use array("int") as array_int\nxs := array_int()\nfor i := 0; i < %d; i += 1 { array_int_push(xs, i * 3) }\nt := 0\nfor j := 0; j < %d; j += 1 { t += xs[j] }\nemit(array_int_len(xs), t)' % (n, n)
        ev = [E(n, 3 * n * (n - 1) // 2)]
    elif k == 1:
        src = 'd := dict_int_int()\nfor i := 0; i < %d; i += 1 { dict_int_int_put(d, i * 7, i) }\nt := 0 for j := 0; j < %d; j += 1 { t += dict_int_int_get(d, j * 7) }\nemit(t)' % (n, n)
        src = 'd := dict()\nfor i := 0; i < %d; i += 1 { dict_put(d, int_to_str(i * 7), i) }\nt := 0 for j := 0; j < %d; j += 1 { t += cast(dict_get(d, int_to_str(j * 7)), int) }\nemit(t)' % (n, n)
        ev = [E(n * (n - 1) // 2)]
    elif k == 2:
        m = r.choice([10, 16, 20])
        src = 's := "ab"\nfor i := 0; i < %d; i += 1 { s = strcat(s, s) }\nemit(strlen(s), substr(s, %d, -1), stridx(s, %d))' % (m, 2 * 2 ** m - 3, 2 ** m)
        ev = [E(2 * 2 ** m, 'bab', 97)]
    elif k == 3:
        src = 's := ""\nfor i := 0; i < %d; i += 1 { s = strcat(s, "x") }\nemit(strlen(s))' % min(n, 20000)
        ev = [E(min(n, 20000))]
    elif k == 4:
        src = 'struct P { a: int b: P? }\np := new P { 0, cast(null, P?) }\nfor i := 0; i < %d; i += 1 { p = new P { p.a + 1, cast(null, P?) } }\nemit(p.a)' % (n * 3)
        ev = [E(n * 3)]
    else:
        src = 'func f(a: int): int { return a + 1 }\nx := 0\nwhile x < %d { x = f(x) }\nemit(x)' % (n * 3)
        ev = [E(n * 3)]
    c = progs.text_case(src)
    progs.begin(c)
    c.add('run', 0, 100000000)
    progs.finish(c)
    yield Unit([(r.choice(['asan', 'fast', 'fast_lim']), c)], lambda rs: diff(['compile 0 ok'] + ev + ['done 0 sp=0 fc=0'], rs[0].lines), src, src)


def families(tier):
    cv = ('asan', 'fast')
    return [
        Fam('depth', p_depth, 300, 3000, LIM),
        Fam('reenter', p_reenter, 40, 400, LIM),
        Fam('stack', p_stack, 900, 12000, LIM),
        Fam('stack-same', p_stacksame, 200, 4000, LIM),
        Fam('locals', p_locals, 120, 1200, cv),
        Fam('arguments', p_args, 160, 1600, cv),
        Fam('fields', p_fields, 120, 1200, cv),
        Fam('strings-full', p_stringsfull, 12, 100, cv),
        Fam('strings', p_strings, 100, 1000, cv),
        Fam('macro-arguments', p_macroargs, 40, 300, cv),
        Fam('nested-compiles', p_nest, 40, 300, cv),
        Fam('wide', p_wide, 150, 1500, cv, cpu=20),
        Fam('data', p_data, 40, 400, cv + ('fast_lim',), cpu=20),
    ]
