"""C01: expressions evaluate to the value the language defines."""
import itertools, math, struct
from vlib import lang, progs, gen
from vlib.core import Fam, Unit, expect
from vlib.run import Case
from checks import c30
from vlib.lang import binop, call, ident, lit, unop, N, Interp, Unclaimed, ser, escq

RULE = ('Random well-typed programs rich in expressions, operator/operand tables, literal spellings and short-circuit '
        'tables are run and every logged value is compared with the reference interpreter. A case is non-trivial when '
        'it logs at least two events; cases are distinct by source text. Edited programs (see C30) that still compile must run as predicted.')
ASSUME = ['division by zero, signed overflow and shifts by amounts outside 0..63 are not exercised']


def prog(ctx, preset, **over):
    m = progs.make(ctx, preset, **over)
    src = progs.source(m, ctx.rng)
    var = 'asan' if ctx.i % 2 else 'fast'
    c = progs.finish(progs.start(m, src).add('run', 0))
    yield progs.unit(m, src, [(var, c)], [['compile 0 ok'] + m.it.ev + ['done 0 sp=0 fc=0']])


def p_expr(ctx):
    yield from prog(ctx, ctx.rng.choice(['expr', 'exprb', 'exprb']))


def p_pad(ctx):
    yield from prog(ctx, ctx.rng.choice(['expr', 'exprb']), pad=1.0, padmax=3, steps=120000)


def p_default(ctx):
    yield from prog(ctx, 'default')


# ---- operator tables ------------------------------------------------------------------------

INTS = [0, 1, 2, 3, 5, 7, 63, 64, 127, 128, 255, 256, 257, 65535, 65536, 2147483647, 2147483648, 4294967295, 4294967296,
        (1 << 53) - 1, 1 << 53, (1 << 53) + 1, (1 << 62), (1 << 63) - 1,
        -1, -2, -3, -7, -64, -128, -129, -256, -65536, -2147483648, -2147483649, -(1 << 53) - 1, -(1 << 62), -(1 << 63) + 1]
FLOATS = [0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 2.0, 3.0, 7.0, 0.1, 1e-3, 255.0, 256.0, 2147483648.0, 9007199254740993.0, 1e15, -1e15,
          123456.789, -2.5, 1.0000000000000002, 16777217.0, 4611686018427387904.0]
OPS = ['+', '-', '*', '/', '%', '&', '|', '<<', '>>', '<', '>', '<=', '>=', '==', '!=']


def _val(t, v):
    return lit(t, v)


FORMS = ['lit', 'global', 'local', 'param', 'field', 'call', 'const', 'elem', 'any']


class OpProg:
    """Builds one program out of many operand combinations."""

    def __init__(self, rng):
        self.r = rng
        self.p = lang.Program()
        self.pre = []
        self.k = 0
        self.body = []

    def operand(self, t, v, form):
        self.k += 1
        n = 'w%d' % self.k
        e = lit(t, v)
        if form == 'lit':
            return e
        if form == 'const' and (v < 0 or str(v)[0] == '-'):
            form = 'global'
        if form == 'global':
            self.pre.append(N('decl', name=n, ty=None, e=e))
            return ident(n, t)
        if form == 'const':
            self.pre.append(N('const', name=n, e=e))
            return ident(n, t)
        if form == 'call':
            return call('tint' if t == 'int' else 'tfloat', [e], t)
        if form == 'field':
            nm = 'FI' if t == 'int' else 'FF'
            return N('dot', a=N('new', name=nm, args=[lit('int', 7), e] if self.r.random() < .5 else [lit('int', 0), e], names=None, t=('S', nm)), field='v', t=t)
        if form == 'elem':
            return N('index', a=call('array_' + t, [e], ('A', t)), i=lit('int', 0), t=t)
        if form == 'any':
            return N('cast', a=call('tany', [e], 'any'), t=t)
        raise ValueError(form)


def p_ops(ctx):
    r = ctx.rng
    op = OPS[ctx.i % len(OPS)]
    o = OpProg(r)
    p = o.p
    for nm, t in (('FI', 'int'), ('FF', 'float')):
        s = lang.Struc(nm, [('u', 'int'), ('v', t)])
        p.structs[nm] = s
    foreign = {n: h[2] for n, h in lang.HOST.items()}
    foreign.update(lang.STD)
    for t in ('int', 'float'):
        foreign.update(lang.array_foreign('array_' + t, t))
    res = []
    combos = [('int', 'int')] if op in ('%', '&', '|', '<<', '>>') else [('int', 'int'), ('int', 'float'), ('float', 'int'), ('float', 'float')]
    funcs = []
    n = 0
    while n < 60:
        ta, tb = r.choice(combos)
        a = r.choice(INTS if ta == 'int' else FLOATS)
        b = r.choice(INTS if tb == 'int' else FLOATS)
        if r.random() < .35:
            b = 1 if tb == 'int' else 1.0
        elif r.random() < .15:
            a = 1 if ta == 'int' else 1.0
        if r.random() < .1 and ta == tb:
            b = a
        if op in ('<<', '>>'):
            b = r.choice([0, 1, 2, 7, 8, 15, 16, 31, 32, 33, 40, 62])
            if op == '<<':
                a = abs(a)
                if a << b > lang.INT_MAX:
                    a = r.choice([1, 0, 1]) if b < 62 else 1
        try:
            v = Interp.arith(None, op, a, b, None) if op not in ('==', '!=') else lang.eq(a, b) == (op == '==')
        except Unclaimed:
            continue
        if op in ('==', '!=') and ta != tb:
            # int and float are different kinds
            pass
        rt = 'bool' if op in ('<', '>', '<=', '>=', '==', '!=') else ('float' if 'float' in (ta, tb) else 'int')
        fa, fb = r.choice(FORMS), r.choice(FORMS)
        where = r.choice(['top', 'top', 'func', 'if', 'compound', 'neg', 'nest'])
        if where == 'func' or 'local' in (fa, fb) or 'param' in (fa, fb):
            fn = 'op%d' % n
            ps, args, body = [], [], []
            es = []
            for (t, v2, f) in ((ta, a, fa), (tb, b, fb)):
                if f == 'param':
                    ps.append(('q%d' % len(ps), t))
                    args.append(lit(t, v2))
                    es.append(ident(ps[-1][0], t))
                elif f == 'local':
                    nm = 'l%d' % len(body)
                    body.append(N('decl', name=nm, ty=None, e=lit(t, v2)))
                    es.append(ident(nm, t))
                else:
                    es.append(o.operand(t, v2, f))
            body.append(N('return', e=binop(op, es[0], es[1], rt)))
            f = lang.Func(fn, ps, rt, body)
            p.funcs[fn] = f
            funcs.append(f)
            e = call(fn, args, rt)
        else:
            e = binop(op, o.operand(ta, a, fa), o.operand(tb, b, fb), rt)
        if where == 'if':
            if rt == 'bool':
                res.append(N('if', c=e, a=N('block', body=[N('expr', e=call('emit', [lit('int', n)], 'void'))]),
                             b=N('block', body=[N('expr', e=call('emit', [lit('int', -n - 1)], 'void'))])))
                n += 1
                continue
            e = N('tern', c=binop('==', e, e, 'bool'), a=e, b=lit(rt, 0 if rt == 'int' else 0.0), t=rt) if fa != 'call' and fb != 'call' else e
        elif where == 'compound' and rt == ta and op in ('+', '-', '*', '/', '%', '|') and rt == tb:
            nm = 'cc%d' % n
            o.pre.append(N('decl', name=nm, ty=None, e=lit(ta, a)))
            res.append(N('assign', lhs=ident(nm, ta), op=op + '=', e=o.operand(tb, b, fb if fb not in ('local', 'param') else 'lit')))
            e = ident(nm, ta)
        elif where == 'neg' and rt == 'bool':
            e = unop('!', e, 'bool')
        elif where == 'neg' and rt == 'float':
            e = unop('-', e, rt)
        elif where == 'nest' and rt in ('int', 'float'):
            e = binop('+', binop('*', lit('int', 2), lit('int', 3), 'int'), e, rt)
            try:
                Interp.arith(None, '+', 6, v, None)
            except Unclaimed:
                e = e.b
        res.append(N('expr', e=call('emit', [lit('int', n), e], 'void')))
        n += 1
    items = list(p.structs.values()) + [('use', 'array', ['int'], 'array_int'), ('use', 'array', ['float'], 'array_float')] + o.pre + funcs + res
    p.items = items
    it = Interp(p, foreign, max_steps=100000)
    it.run()
    src = lang.render(p, r.choice(['normal', 'tight']), r, r.choice([0, .2])).encode('latin-1')
    c = Case(gen.setup()).add('compile', 0, 'ops', src).add('thread', 0, 0).add('start', 0).add('run', 0).add('destroy', 0).add('delstate', 0)
    ctx.count('operator evaluations', n)
    yield Unit([('asan' if ctx.i % 2 else 'fast', c)], expect(['compile 0 ok'] + it.ev + ['done 0 sp=0 fc=0']), src, src.decode('latin-1'))


# ---- infinities and values that are not numbers ------------------------------------------------

def p_ieee(ctx):
    """Arithmetic and the six comparisons on infinities, NaN, subnormal and extreme floats, mixed with integers."""
    r = ctx.rng
    big = '1' + '0' * 200 + '.0'
    pre = ['big := ' + big, 'inf := big * big', 'ninf := -inf', 'nan := inf - inf', 'tiny := 1.0 / big / 10000000000000000.0', 'sub := tiny / %s' % ('1' + '0' * 100 + '.0'),
           'zero := 0.0', 'nzero := -zero', 'one := 1.0', 'frac := 0.1', 'wide := 9007199254740992.0', 'i0 := 0', 'i1 := 1', 'im := -7', 'ib := 9007199254740993']
    b = 1e200
    v = {'big': b, 'inf': b * b, 'ninf': -(b * b), 'nan': b * b - b * b, 'tiny': 1.0 / b / 1e16, 'zero': 0.0, 'nzero': -0.0, 'one': 1.0, 'frac': .1,
         'wide': 9007199254740992.0, 'i0': 0, 'i1': 1, 'im': -7, 'ib': 9007199254740993}
    v['sub'] = v['tiny'] / 1e100
    names = sorted(v)
    lines = ['struct Q { x: float y: float }'] + pre + ['func F(x: float): float { return x }',
             'func lt(a: float, b: float): bool { return a < b }', 'func ge(a: float, b: float): bool { return a >= b }']
    ev = []
    cmp = {'<': lambda a, c: a < c, '>': lambda a, c: a > c, '<=': lambda a, c: a <= c, '>=': lambda a, c: a >= c,
           '==': lambda a, c: a == c, '!=': lambda a, c: a != c}
    for k in range(80):
        x = r.choice(names)
        y = r.choice(names + ['nan', 'inf', 'ninf'])
        if r.random() < .1:
            y = x
        if r.random() < .3:
            x, y = y, x
        a, c = v[x], v[y]
        op = r.choice(['<', '>', '<=', '>=', '==', '!=', '+', '-', '*', '/', '<', '>='])
        mixed = type(a) is not type(c)
        if op in ('==', '!=') and mixed or type(a) is int and type(c) is int:
            continue
        fx, fy = float(a), float(c)
        if op in cmp:
            w = cmp[op](fx, fy)
            j = r.randrange(6)
            if j == 0:
                lines.append('emit(%d, %s %s %s)' % (k, x, op, y))
                ev.append('emit 0 2 i%d b%d' % (k, w))
            elif j == 1:
                lines.append('if %s %s %s { emit(%d) } else { emit(-%d) }' % (x, op, y, k + 1, k + 1))
                ev.append('emit 0 1 i%d' % (k + 1 if w else -k - 1))
            elif j == 2:
                lines.append('emit(%d, !(%s %s %s))' % (k, x, op, y))
                ev.append('emit 0 2 i%d b%d' % (k, not w))
            elif j == 3:
                lines.append('while %s %s %s { emit(%d) break }' % (x, op, y, k))
                if w:
                    ev.append('emit 0 1 i%d' % k)
            elif j == 4:
                lines.append('emit(%d, if (%s %s %s) 1 else 2, %s %s %s && true, %s %s %s || false)' % (k, x, op, y, x, op, y, x, op, y))
                ev.append('emit 0 4 i%d i%d b%d b%d' % (k, 1 if w else 2, w, w))
            elif mixed or type(a) is int:
                continue
            else:
                lines.append('emit(%d, lt(%s, %s), ge(%s, %s), F(%s) %s F(%s))' % (k, x, y, x, y, x, op, y))
                ev.append('emit 0 4 i%d b%d b%d b%d' % (k, fx < fy, fx >= fy, w))
        else:
            if op == '/' and fy == 0:
                continue
            w = fx + fy if op == '+' else fx - fy if op == '-' else fx * fy if op == '*' else fx / fy
            j = r.randrange(4)
            if j == 0 or type(a) is int or j < 3 and mixed:
                lines.append('emit(%d, %s %s %s, -(%s %s %s))' % (k, x, op, y, x, op, y))
                ev.append('emit 0 3 i%d %s %s' % (k, ser(w), ser(-w)))
            elif j == 1:
                lines.append('t%d := %s t%d %s= (%s) emit(%d, t%d)' % (k, x, k, op, y, k, k))
                ev.append('emit 0 2 i%d %s' % (k, ser(w)))
            elif j == 2:
                lines.append('q%d := new Q { %s, 1.5 } q%d.x %s= %s emit(%d, q%d)' % (k, x, k, op, r.choice([y, '(%s)' % y]), k, k))
                ev.append('emit 0 2 i%d S#0{%s,%s}' % (k, ser(w), ser(1.5)))
            else:
                lines.append('emit(%d, (%s %s %s) + 1, (%s %s %s) - 1)' % (k, x, op, y, x, op, y))
                ev.append('emit 0 3 i%d %s %s' % (k, ser(w + 1), ser(w - 1)))
    src = '\n'.join(lines)
    ctx.count('operations on extreme floats', len(ev))
    yield progs.text_unit(src, ev, 'asan' if ctx.i % 2 else 'fast')


# ---- literals -------------------------------------------------------------------------------

def lit_int(r):
    v = r.choice([r.getrandbits(r.randrange(1, 64)), r.choice([abs(x) for x in INTS]), r.randrange(300)])
    k = r.random()
    if k < .35:
        h = '%x' % v
        h = ''.join(c.upper() if r.random() < .5 else c for c in h)
        return '0x' + '0' * r.randrange(0, 3) + h if len(h) < 14 else '0x' + h, 'i%d' % v
    if k < .45:
        return '0' * r.randrange(0, 3) + str(v) if v and v < 10 ** 12 else str(v), 'i%d' % v
    return str(v), 'i%d' % v


def lit_float(r):
    k = r.random()
    if k < .4:
        v = r.choice([abs(x) for x in FLOATS])
        s = lang.float_spell(v)
    elif k < .7:
        s = '%d.%s' % (r.randrange(10 ** r.randrange(1, 16)), ''.join(str(r.randrange(10)) for _ in range(r.randrange(1, 18))))
    else:
        s = '%d.%s' % (r.randrange(100), '0' * r.randrange(0, 12) + str(r.randrange(1, 1000)))
    return s, ser(float(s))


ESC = {'n': 10, 't': 9, 'r': 13, 'b': 8, '"': 34, "'": 39, '\\': 92}


_near = []


def lit_near(r):
    """A string literal that is nearly an earlier one of the program."""
    if not _near or r.random() < .3:
        n = r.choice([1, 3, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200, 255, 256, 257, 300, 511, 513, 1000])
        t = [r.choice('abcdeXYZ 01.') for _ in range(n)]
    else:
        t = list(r.choice(_near))
        k = r.randrange(6)
        i = r.choice([0, len(t) - 1, r.randrange(len(t))])
        if k == 0:
            t[i] = t[i].swapcase() if t[i].isalpha() else 'q'
        elif k == 1:
            t[i] = r.choice('abcdeXYZ 01.')
        elif k == 2:
            t.append(r.choice('ab0'))
        elif k == 3 and len(t) > 1:
            t.pop()
        elif k == 4 and len(t) > 1:
            del t[i]
        else:
            j = r.randrange(len(t))
            t[i], t[j] = t[j], t[i]
    _near.append(t)
    x = ''.join(t)
    return '"%s"' % x, 's"%s"' % escq(x.encode())


def p_near(ctx):
    """Programs of many string literals that differ from each other in one place, as values, constants, in functions and compared."""
    r = ctx.rng
    del _near[:]
    lines, ev = [], []
    names = {}
    for k in range(r.choice([20, 60, 200])):
        s, v = lit_near(r)
        w = r.randrange(6)
        if w == 0:
            lines.append('emit(%s)' % s)
            ev.append('emit 0 1 ' + v)
        elif w == 1:
            lines.append('C%d :: %s emit(C%d)' % (k, s, k))
            names['C%d' % k] = (v, s)
            ev.append('emit 0 1 ' + v)
        elif w == 2:
            lines.append('v%d := %s' % (k, s))
            names['v%d' % k] = (v, s)
        elif w == 3:
            lines.append('func fn%d(): str { return %s } emit(fn%d())' % (k, s, k))
            names['fn%d()' % k] = (v, s)
            ev.append('emit 0 1 ' + v)
        elif w == 4:
            s2, v2 = lit_near(r)
            lines.append('emit(%s == %s, %s != %s)' % (s, s2, s, s2))
            ev.append('emit 0 2 b%d b%d' % (v == v2, v != v2))
        else:
            lines.append('emit(strlen(%s), strcat(%s, ""))' % (s, s))
            ev.append('emit 0 2 i%d %s' % (len(s) - 2, v))
        if names and r.random() < .5:
            a, b = r.choice(sorted(names)), r.choice(sorted(names))
            lines.append('emit(%s, %s == %s, %s != %s)' % (a, a, b, b, names[a][1]))
            ev.append('emit 0 3 %s b%d b%d' % (names[a][0], names[a][0] == names[b][0], names[a][0] != names[b][0]))
    if r.random() < .5:
        lines = ['zz := "" zz = "filler %d"' % i if i == 0 else 'zz = "filler %d"' % i for i in range(r.choice([3, 100, 254]))] + lines
    ctx.count('near literals', len(_near))
    src = '\n'.join(lines).encode()
    c = Case(gen.setup()).add('compile', 0, 'lits', src)
    progs.begin(c)
    c.add('run', 0)
    progs.finish(c)
    yield Unit([(r.choice(['asan', 'fast']), c)], expect(['compile 0 ok'] + ev + ['done 0 sp=0 fc=0']), src, src.decode())


def lit_str(r, uniq):
    out = ['"']
    val = bytearray()
    n = r.choice([0, 1, 2, 3, 5, 10, 30, 100, 254, 255, 256, 257, 600]) if r.random() < .3 else r.randrange(0, 12)
    for _ in range(n):
        if r.random() < .15:
            e = r.choice(list(ESC))
            out.append('\\' + e)
            val.append(ESC[e])
        else:
            c = r.choice([r.randrange(32, 127), r.randrange(128, 256), r.randrange(97, 123), 9])
            if c in (34, 92):
                continue
            out.append(chr(c))
            val.append(c)
    out.append('"')
    return ''.join(out), 's"%s"' % escq(bytes(val))


def lit_char(r):
    if r.random() < .3:
        e = r.choice(list(ESC))
        return "'\\%s'" % e, 'i%d' % ESC[e]
    c = r.randrange(32, 127)
    if c in (39, 92):
        c = 65
    return "'%s'" % chr(c), 'i%d' % c


def p_lits(ctx):
    r = ctx.rng
    lines, ev = [], []
    npad = r.choice([0, 0, 100, 250, 300, 600])
    if npad:
        lines.append('zz := ""')
        for i in range(npad):
            lines.append('zz = "filler %d"' % i if r.random() < .7 else 'zz = "f" zz = "filler %d"' % i)
    nf = r.choice([0, 0, 300])
    if nf:
        lines += ['g%d := %d' % (i, i) for i in range(nf)]
    consts = []
    for k in range(40):
        items = []
        for _ in range(r.randrange(1, 5)):
            t = r.random()
            if t < .3:
                items.append(lit_int(r))
            elif t < .5:
                items.append(lit_float(r))
            elif t < .8:
                items.append(lit_str(r, k))
            elif t < .9:
                items.append(lit_char(r))
            elif t < .95:
                items.append(r.choice([('true', 'b1'), ('false', 'b0')]))
            else:
                items.append(('null', 'n'))
        form = r.random()
        if form < .5:
            lines.append('emit(%s)' % ', '.join(s for s, _ in items))
            ev.append('emit 0 %d %s' % (len(items), ' '.join(v for _, v in items)))
        elif form < .65:
            s, v = items[0]
            if v == 'n':
                continue
            lines.append('v%d := %s emit(v%d)' % (k, s, k))
            ev.append('emit 0 1 ' + v)
        elif form < .8:
            s, v = items[0]
            if v == 'n':
                continue
            lines.append('C%d :: %s emit(C%d, 1)' % (k, s, k))
            ev.append('emit 0 2 %s i1' % v)
        elif form < .9:
            s, v = items[0]
            lines.append('func fn%d(): any { return %s } emit(fn%d())' % (k, s, k))
            ev.append('emit 0 1 ' + v)
        else:
            s, v = items[0]
            lines.append('if true { emit(%s) }' % s)
            ev.append('emit 0 1 ' + v)
    ctx.count('literals', len(ev))
    src = '\n'.join(lines).encode('latin-1')
    c = Case(gen.setup()).add('compile', 0, 'lits', src).add('thread', 0, 0).add('start', 0).add('run', 0).add('destroy', 0).add('delstate', 0)
    yield Unit([('asan', c)], expect(['compile 0 ok'] + ev + ['done 0 sp=0 fc=0']), src, src.decode('latin-1'))


# ---- boolean operators ----------------------------------------------------------------------

def p_bool(ctx):
    """Chains of && and || (one precedence level, left to right) of traced operands in many positions."""
    r = ctx.rng
    lines, ev = [], []

    def chain(d):
        """-> text, value, events"""
        n = r.randrange(1, 5)
        txt, val, es = operand(d)
        for _ in range(n - 1):
            op = r.choice(['&&', '||'])
            t2, v2, e2 = operand(d)
            txt += ' %s %s' % (op, t2)
            if (op == '&&') == val:
                es = es + e2
                val = v2
        return txt, val, es

    def operand(d):
        k = r.random()
        if d > 0 and k < .2:
            t, v, e = chain(d - 1)
            return '(%s)' % t, v, e
        if d > 0 and k < .3:
            t, v, e = chain(d - 1)
            return '!(%s)' % t, not v, e
        if k < .4:
            v = r.random() < .5
            return ('true' if v else 'false'), v, []
        if k < .55:
            a, b = r.randrange(3), r.randrange(3)
            op = r.choice(['<', '>', '<=', '>=', '==', '!='])
            v = {'<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b, '==': a == b, '!=': a != b}[op]
            return 'tint(%d) %s tint(%d)' % (a, op, b), v, ['spy0 0 1 i%d' % a, 'spy0 0 1 i%d' % b]
        v = r.random() < .5
        neg = r.random() < .2
        return ('!' if neg else '') + 'tbool(%s)' % ('true' if v else 'false'), v != neg, ['spy2 0 1 b%d' % v]
    for k in range(25):
        t, v, e = chain(2)
        pos = r.choice(['arg', 'if', 'decl', 'ret', 'tern', 'while', 'field', 'arg2'])
        if pos == 'arg':
            lines.append('emit(%s)' % t)
            ev += e + ['emit 0 1 b%d' % v]
        elif pos == 'arg2':
            lines.append('emit(1, %s, 2, %s)' % (t, t))
            ev += e + e + ['emit 0 4 i1 b%d i2 b%d' % (v, v)]
        elif pos == 'if':
            lines.append('if %s { emit(1) } else { emit(2) }' % t)
            ev += e + ['emit 0 1 i%d' % (1 if v else 2)]
        elif pos == 'decl':
            lines.append('v%d := %s emit(v%d)' % (k, t, k))
            ev += e + ['emit 0 1 b%d' % v]
        elif pos == 'ret':
            lines.append('func f%d(): bool { return %s } emit(7, f%d())' % (k, t, k))
            ev += e + ['emit 0 2 i7 b%d' % v]
        elif pos == 'tern':
            lines.append('emit(if (%s) 1 else 2)' % t)
            ev += e + ['emit 0 1 i%d' % (1 if v else 2)]
        elif pos == 'while':
            lines.append('while %s { emit(5) break }' % t)
            ev += e + (['emit 0 1 i5'] if v else [])
        else:
            lines.append('emit((new B { 3, %s }).q)' % t if False else 'emit(new B { 3, %s })' % t)
            ev += e + ['emit 0 1 S#0{i3,b%d}' % v]
    lines.append('struct B { p: int q: bool }')
    src = '\n'.join(lines).encode()
    c = Case(gen.setup()).add('compile', 0, 'bools', src).add('thread', 0, 0).add('start', 0).add('run', 0).add('destroy', 0).add('delstate', 0)
    yield Unit([('fast', c)], expect(['compile 0 ok'] + ev + ['done 0 sp=0 fc=0']), src, src.decode())


# ---- precedence -----------------------------------------------------------------------------

def p_prec(ctx):
    """Unparenthesised operator sequences over small literals, evaluated by an independent precedence climber."""
    r = ctx.rng
    lines, ev = [], []
    prec = {'*': 5, '/': 5, '%': 5, '&': 5, '|': 5, '<<': 4, '>>': 4, '+': 4, '-': 4}
    for k in range(40):
        for _ in range(50):
            n = r.randrange(2, 9)
            toks = []
            for i in range(n):
                if i:
                    toks.append(r.choice(list(prec)))
                sign = r.random() < .1
                v = r.randrange(1, 10)
                toks.append((('-' if sign else '') + str(v), -v if sign else v))

            def parse(pos, minp):
                left = toks[pos][1]
                pos += 1
                while pos < len(toks) and prec[toks[pos]] >= minp:
                    op = toks[pos]
                    right, pos2 = parse(pos + 1, prec[op] + 1)
                    left = Interp.arith(None, op, left, right, None)
                    pos = pos2
                return left, pos
            try:
                v, _ = parse(0, 0)
                break
            except Unclaimed:
                v = None
        if v is None:
            continue
        t = ' '.join(x if isinstance(x, str) else x[0] for x in toks)
        if r.random() < .3:
            b = r.randrange(-20, 60)
            op = r.choice(['<', '>', '<=', '>=', '==', '!='])
            res = {'<': v < b, '>': v > b, '<=': v <= b, '>=': v >= b, '==': v == b, '!=': v != b}[op]
            if r.random() < .5:
                t2 = '%s %s %d' % (t, op, b)
            else:
                t2 = '%d %s %s' % (b, {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op), t)
            if r.random() < .5:
                t2 += r.choice([' && true', ' || false'])
            lines.append('emit(%s)' % t2)
            ev.append('emit 0 1 b%d' % res)
        else:
            lines.append('emit(%s)' % t)
            ev.append('emit 0 1 i%d' % v)
    src = '\n'.join(lines).encode()
    c = Case(gen.setup()).add('compile', 0, 'prec', src).add('thread', 0, 0).add('start', 0).add('run', 0).add('destroy', 0).add('delstate', 0)
    yield Unit([('fast', c)], expect(['compile 0 ok'] + ev + ['done 0 sp=0 fc=0']), src, src.decode())


p_edited = c30.mixed(lambda why, exp: exp is not None and len(exp) > 1, ['expr', 'expr', 'default', 'types'])


def families(tier):
    v = ('asan', 'fast')
    return [
        Fam('programs', p_expr, 2400, 40000, v),
        Fam('programs-default', p_default, 600, 10000, v),
        Fam('programs-bulk', p_pad, 240, 4000, v),
        Fam('operators', p_ops, 600, 9000, v),
        Fam('extreme-floats', p_ieee, 120, 3000, v),
        Fam('literals', p_lits, 240, 3000, v),
        Fam('near literals', p_near, 200, 3000, v),
        Fam('booleans', p_bool, 240, 3000, v),
        Fam('precedence', p_prec, 160, 2000, v),
        Fam('edited programs', p_edited, 60, 1800, ('fast', 'asan'), shard=4),
    ]
