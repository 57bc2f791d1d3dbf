"""C30: exactly the texts of the language compile, and those mean what they say."""
import re
from vlib import progs, gen, front, edits
from vlib.core import Fam, Unit, diff, Ctx
from vlib.run import Case

RULE = ('Texts made from generated programs by edits (tokens replaced, dropped, doubled, swapped, moved; expressions and statements replaced by others, wrapped, moved between programs; lines moved) and every edit of one '
        'token in a list of small programs are read by an independent front end (lexer, recursive descent parser, name resolution, type rules) and by the compiler: the verdicts must agree, and where the text is a '
        'program whose run the reference interpreter predicts, the recorded effects must be the predicted ones. Texts that use what the language leaves open are not judged. Distinct by text.')
ASSUME = ['texts about which the rules say nothing (see DESIGN.md, left open) are not generated or not judged']


def one(ctx, x, var=None, limit=6000):
    """(variant, case, verdict, expected lines or None, text) or None"""
    v, f = front.read(x.decode('latin-1'))
    if v is None:
        ctx.count('texts left open')
        return None
    c = Case(gen.setup())
    c.add('compile', 0, 'main', x)
    if v == 'no':
        ctx.count('texts to be refused')
        c.add('delstate', 0)
        return (var or 'fast', c, f, None, x)
    ctx.count('texts to be accepted')
    ev = front.run(f, limit)
    if ev is None:
        c.add('delstate', 0)
        return (var or 'fast', c, None, ['compile 0 ok'], x)
    ctx.count('texts run')
    progs.begin(c)
    c.add('run', 0)
    progs.finish(c)
    if var is None:
        var = 'asan' if ctx.rng.random() < .25 else 'fast'
    return (var, c, None, ['compile 0 ok'] + ev + ['done 0 sp=0 fc=0'], x)


def unit(ctx, ts, key=None):
    ts = [t for t in ts if t]
    if not ts:
        return

    def judge(rs):
        out = []
        for (var, c, why, exp, x), r in zip(ts, rs):
            if exp is None:
                if not (r.lines and r.lines[0].startswith('compile 0 err ')):
                    out.append('accepted although %s: %s' % (why, x.decode('latin-1')))
                elif len(r.lines) > 1:
                    out.append('something ran: %s' % r.lines[1:3])
            else:
                if not r.lines or r.lines[0] != 'compile 0 ok':
                    out.append('refused (%s): %s' % (r.lines[:1], x.decode('latin-1')))
                else:
                    d = diff(exp, r.lines)
                    if d:
                        out.append('%s in %s' % (d, x.decode('latin-1')))
        return out or None
    yield Unit([(t[0], t[1]) for t in ts], judge, b'\0'.join(t[4] for t in ts), '\n-----\n'.join(t[4].decode('latin-1') for t in ts[:2]))


PRESETS = ['default', 'expr', 'flow', 'scope', 'struct', 'types', 'heap', 'calls']


def base(ctx, presets=None):
    """A small generated program: (model, text, tokens, what the front end says of it) or None"""
    r = ctx.rng
    for _ in range(5):
        m = progs.make(ctx, r.choice(presets or PRESETS), main=r.choice([2, 4, 6]), funcs=2, body=3, globals=2, depth=2, nest=2, long_names=0)
        src = progs.source(m, r, 'normal')
        v, f = front.read(src.decode('latin-1'))
        if v == 'no':
            # a program of the generator; the front end is wrong, or the generator is
            raise RuntimeError('front end refuses a generated program: %s\n%s' % (f, src.decode('latin-1')))
        if v == 'ok':
            t = edits.toks(src)
            if len(t) == len(f.toks) - 1:
                return m, src, t, f
    return None


def p_edits(ctx):
    b = base(ctx)
    if not b:
        return
    r = ctx.rng
    m, src, bt, f = b
    ts = [one(ctx, src)]
    for _ in range(24):
        t = list(bt)
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            edits.edit(r, t)
        ts.append(one(ctx, edits.text(r, t)))
    yield from unit(ctx, ts)


def p_lines(ctx):
    b = base(ctx)
    if not b:
        return
    r = ctx.rng
    m, src, bt, f = b
    ts = []
    for _ in range(24):
        y = edits.lines(r, src)
        if r.random() < .3:
            y = edits.lines(r, y)
        ts.append(one(ctx, y))
    yield from unit(ctx, ts)


def p_trees(ctx):
    b = base(ctx)
    if not b:
        return
    r = ctx.rng
    m, src, bt, f = b
    ts = []
    for _ in range(30):
        t, what = edits.trees(r, bt, f.espans, f.sspans)
        ctx.count('edit: ' + what)
        if r.random() < .15:
            edits.edit(r, t)
        ts.append(one(ctx, edits.text(r, t)))
    yield from unit(ctx, ts)


def p_splices(ctx):
    """Expressions and statements of another program, and two programs in one text."""
    a, b = base(ctx), base(ctx)
    if not a or not b:
        return
    r = ctx.rng
    ts = []
    for _ in range(20):
        t, what = edits.trees(r, a[2], a[3].espans, a[3].sspans, (b[2], b[3].espans, b[3].sspans))
        ts.append(one(ctx, edits.text(r, t)))
    ts.append(one(ctx, a[1] + b'\n' + b[1]))
    ts.append(one(ctx, b[1] + b'\n' + a[1]))
    # the beginning of one and the end of the other, cut between statements of the same depth
    for _ in range(6):
        x = [e for s, e in a[3].sspans]
        y = [s for s, e in b[3].sspans]
        ts.append(one(ctx, edits.text(r, a[2][:r.choice(x)] + b[2][r.choice(y):])))
    yield from unit(ctx, ts)


# small programs in which every token is edited
SMALL = [
    'x := 1 emit(x)', 'x: int = 2 + 3 * 4 emit(x - 1)', 'x := 1.5 x += 2.0 emit(x)', 'K :: 5 emit(K + 1)', 'x := true emit(!x && x || false)', 'x := "a" emit(x == "a")',
    'struct H { w: int? a: any } h := new H { .a = "q", .w = 7 } emit(h.w, h.a)', 'struct H { a: array_int h: H? } use array("int") as array_int func mk(i: int): H { return new H { .h = cast(null, H?), .a = array_int(i, 2) } } emit((mk(4).a[0]), mk(5).a[1] + (mk(6).a[0]))',
    'use array("int") As := 3 emit(As, array_int_len(array_int(1)))', 'use array("int") as as as1 := as(4) emit(as1[0])', 'use array("int") asx := 3 emit(asx)',
    'func f(a: int, b: str): int { return a } emit(f(1, "s"))', 'func f(a: int) { emit(a) return; } f(3)', 'func f(): void { } f()', 'func f(n: int): int { if n < 1 { return 0 } return f(n - 1) + 1 } emit(f(3))',
    'struct P { x: int y: str } p := new P { 1, "q" } emit(p.x, p.y)', 'struct P { x: int y: float } p := new P { .y = 2.5, .x = 1 } p.x = 3 emit(p.x)', 'struct N { v: int next: N? } n := new N { 1, cast(null, N?) } emit(n.v)',
    'struct A { b: B } struct B { i: int } a := new A { new B { 4 } } a.b.i += 2 emit(a.b.i)', 'i := 0 while i < 3 { i += 1 if i == 2 { continue } emit(i) }', 'for i := 0; i < 3; i += 1 { if i > 1 break emit(i) }',
    'if 1 < 2 { emit(1) } else { emit(2) }', 'if false emit(1) else if true emit(2) else emit(3)', 'x := if 1 == 1 2 else 3 emit(x)', 'emit(if true 1.5 else 2.5)', 'use array("int") as arr a := arr(1, 2) a[0] = 5 emit(a[0], arr_len(a))',
    'use array("str") as ars a := ars("x") emit(a -> ars_len(), a[0])', 'd := dict("k", 1) d["k"] = 2 emit(cast(d["k"], int))', 'x: any = 1 emit(cast(x, int) + 1)', 'x: int? = 4 emit(x)', 'x := cast(null, int?) emit(x)', 'struct P { x: int } func mk(i: int): P { return new P { i } } emit(mk(3).x)', 'use array("P") as ap struct P { x: int } a := ap(new P { 1 }) a[0].x = 4 emit(a[0].x)', 'x := 2 { y := x { z := y emit(z) } } func q() { x := "s" emit(x) } q()', 'emit(tint(1) -> tint(), -2, - 3)',
    "emit('a', 0x1f, 7 % 4, 6 / 2)", 'emit(1 << 3 >> 1, 6 & 3 | 8)', 'emit(1 <= 2, 2 >= 3, 1 != 2, 1.5 > 1.0)', '{ x := 1 emit(x) } { x2 := "b" emit(x2) }', 'func f(a: int): bool { return a > 1 } func g(): str { return if f(2) "y" else "n" } emit(g())',
    'x := (1 + 2) * 3 emit(-x, !(x == 9))', 'emit() emit(1, "a", 2.5, true, null)', 'func f() { for i := 0; i < 2; i += 1 { j := i emit(j) } } f()', 'func f(a: any): any { return a } emit(f(1), f("s"))',
    'func f(): int { x := 3 { y := x emit(y) } return x } emit(f())', 'x := 5 x -= 1 x *= 3 x /= 2 x %= 4 emit(x)', 'x := 6 x &= 3 x |= 8 emit(x)', 'struct V { q: int } func V_get_index(v: V, i: int): int { return v.q + i } v := new V { 3 } emit(v[2])',
    'struct V { q: int } func V_get_index(v: V, i: int): int { return v.q } func V_set_index(v: V, i: int, x: int) { v.q = x + i } v := new V { 3 } v[1] = 4 emit(v.q)', 'x := strcat("a", "b") emit(x, strlen(x))',
    'n := mknat(3) emit(n, natid(n))', 'func f(): int { if true return 5 else { } return 2 } emit(f())', 'struct D { i: int } struct C { d: D } struct B { c: C } struct A { b: B } a := new A { new B { new C { new D { 7 } } } } a.b.c.d.i += 1 emit(a.b.c.d.i)', 'func f(a: int): int { return if a < 1 0 else f(a - 1) } emit(f(2))', 'x := 1 func f(): int { return x } emit(f())', 'func f() { g() } func g() { emit(2) } f()', 'while true { break } emit(0)',
    'x := 1 if x == 1 { y := 2 emit(y) } else { y := 3 emit(y) }', 'K :: "s" func f(s: str): str { return s } emit(f(K))', 'emit(1.0 + 2, 3 * 0.5)', 'struct P { a: any b: bool } p := new P { 1, true } emit(p.a, p.b)',
]
SMALL = [s.replace('{ y := 2 emit(y) } else { y := 3', '{ y := 2 emit(y) } else { z := 3').replace('z := 3 emit(y)', 'z := 3 emit(z)').encode() for s in SMALL]
VOCAB = sorted(set(edits.TYPES[:11] + [b'0', b'1', b'2.5', b'true', b'"s"', b"'a'", b'null'] + edits.BIN + edits.ASG + edits.PUNCT + edits.KW + [b'as', b'f', b'x', b'zz', b'emit', b'P', b'"int"']))


def small_edits():
    """(program, place, what) for every edit of one token"""
    out = []
    for n, s in enumerate(SMALL):
        k = len(edits.toks(s))
        for i in range(k + 1):
            if i < k:
                out += [(n, i, 'drop'), (n, i, 'twice')]
            if i + 1 < k:
                out.append((n, i, 'swap'))
            if i < k:
                out += [(n, i, v) for v in range(len(VOCAB))]
            out += [(n, i, -1 - v) for v in range(len(VOCAB))]
    return out


_all = None
PER = 60


def p_small(ctx):
    global _all
    if _all is None:
        import random
        _all = small_edits()
        # spread, so that any part of it touches every program
        random.Random(7).shuffle(_all)
    n = (len(_all) + PER - 1) // PER
    k = ctx.i
    if not ctx.thorough:
        # another part of them with another seed
        k = (ctx.i + ctx.seed * QUICK) % n
    ts = []
    for s, i, w in _all[k * PER:(k + 1) * PER]:
        t = edits.toks(SMALL[s])
        if w == 'drop':
            del t[i]
        elif w == 'twice':
            t.insert(i, t[i])
        elif w == 'swap':
            t[i], t[i + 1] = t[i + 1], t[i]
        elif w >= 0:
            t[i] = VOCAB[w]
        else:
            t.insert(i, VOCAB[-1 - w])
        ts.append(one(ctx, b' '.join(t)))
    yield from unit(ctx, ts)


_runs = None


def run_edits():
    """(program, place, length, what) for every run of two to eight tokens"""
    out = []
    for n, s in enumerate(SMALL):
        k = len(edits.toks(s))
        for i in range(k):
            for d in range(2, 9):
                if i + d <= k:
                    out += [(n, i, d, 'drop')] + [(n, i, d, 'twice'), (n, i, d, 'move'), (n, i, d, 'paren')]
    # each dropping once, first
    first = sorted(set(x for x in out if x[3] == 'drop' and x[2] <= 6))
    rest = [x for x in out if not (x[3] == 'drop' and x[2] <= 6)]
    import random
    random.Random(9).shuffle(first)
    random.Random(9).shuffle(rest)
    return first, rest


def p_runs(ctx):
    """A run of tokens of a small program goes, doubles, moves or is put in parentheses."""
    global _runs
    if _runs is None:
        _runs = run_edits()
    first, rest = _runs
    nf = (len(first) + PER - 1) // PER
    if ctx.i < nf:
        part = first[ctx.i * PER:(ctx.i + 1) * PER]
    else:
        nr = (len(rest) + PER - 1) // PER
        k = (ctx.i - nf + (0 if ctx.thorough else ctx.seed * 160)) % nr
        part = rest[k * PER:(k + 1) * PER]
    ts = []
    for s, i, d, w in part:
        t = edits.toks(SMALL[s])
        q = t[i:i + d]
        if w == 'drop':
            del t[i:i + d]
        elif w == 'twice':
            t[i:i] = q
        elif w == 'move':
            del t[i:i + d]
            j = ctx.rng.randrange(len(t) + 1)
            t[j:j] = q
        else:
            t[i:i + d] = [b'('] + q + [b')']
        ts.append(one(ctx, b' '.join(t)))
    yield from unit(ctx, ts)


QUICK = 600
START = re.compile(rb'[A-Za-z{]')
AGAIN = ['NAME := 1', 'NAME :: 2', 'NAME :: "s"', 'NAME: int = 3', 'struct NAME { q: int }', 'struct NAME { q: int r: NAME }', 'emit(NAME)', 'NAME = 1', 'NAME += 1', 'func useNAME(): any { return NAME } emit(useNAME())',
         'func useNAME() { NAME := 1 emit(NAME) } useNAME()', 'if true { NAME := 2 emit(NAME) }', 'emit(NAME, NAME) zz_', 'new NAME { 1 }', 'emit(new NAME { 1 })', 'for NAME := 0; NAME < 2; NAME += 1 { emit(NAME) }', 'NAME()',
         'zzNAME := 5', 'zzNAME :: 5', 'emit(zzNAME)', 'struct zzNAME { q: int }', 'func zzNAME(): int { return 4 }', 'emit(zzNAME())', 'use array("NAME") as arr_NAME', 'emit(arr_NAME_len(arr_NAME()))', 'func zzNAME(): int { return oops }', 'zzNAME := oops', 'zzNAME :: 1 emit(oops)',
         'struct zzNAME { q: int } emit(oops)', 'emit(new zzNAME { 3 })', 'func zzNAME(a: int): int { return a + "s" }', 'use array("int") as zzNAME emit(oops)', 'emit(zzNAME(1))', 'emit(NAME', 'zzNAME := 4 }']


def p_sessions(ctx):
    """Pieces of programs, intact, edited or repeated, compiled one after the other into one state: those that fit what was accepted
    before must be accepted, others refused without a trace."""
    b = base(ctx)
    if not b:
        return
    r = ctx.rng
    m, src, bt, f = b
    cases, exps, whys = [], [], []
    for _ in range(3):
        pieces = []
        i = 0
        tops = f.tops
        while i < len(tops):
            j = min(len(tops), i + r.choice([1, 1, 2, 3, 6]))
            pieces.append(bt[tops[i][0]:tops[j - 1][1]])
            i = j
        # the program with some pieces altered, repeated or broken
        todo = []
        names = sorted({x for x in bt if edits.kind(x) == 'id'})
        near = []
        for p in pieces:
            k = r.random()
            if k < .25:
                q = list(p)
                edits.edit(r, q)
                todo.append(edits.text(r, q))
            elif k < .4:
                q, what = edits.trees(r, bt, f.espans, f.sspans)
                todo.append(edits.text(r, q))
            while r.random() < .4:
                n = r.choice(near) if near and r.random() < .6 else r.choice(names)
                near.append(n)
                todo.append(r.choice(AGAIN).encode().replace(b'NAME', n))
            todo.append(edits.text(r, p))
            if r.random() < .1:
                todo.append(todo[r.randrange(len(todo))])
        c = Case(gen.setup())
        exp, why = [], []
        acc = b''
        front_ = None
        for t in todo:
            if not START.match(t) or t.startswith((b'else', b'as ')):
                continue
            v, g = front.read((acc + b'\n' + t).decode('latin-1'))
            if v is None:
                continue
            c.add('compile', 0, 'p%d' % len(exp), t)
            why.append(None if v == 'ok' else g)
            exp.append(v == 'ok')
            if v == 'ok':
                acc += b'\n' + t
                front_ = g
                ctx.count('pieces accepted')
                if r.random() < .1:
                    ev = front.run(g, 3000)
                    if ev is not None:
                        progs.begin(c)
                        c.add('run', 0)
                        c.add('destroy', 0)
                        exp.append(ev + ['done 0 sp=0 fc=0'])
                        why.append('')
                        ctx.count('sessions run in between')
            else:
                ctx.count('pieces refused')
                if r.random() < .15:
                    c.add('compile', 0, 'p%d' % len(exp), t)
                    exp.append(False)
                    why.append(g)
        ev = front.run(front_, 20000) if front_ is not None else None
        if ev is not None:
            progs.begin(c)
            c.add('run', 0)
            c.add('destroy', 0)
            exp.append(ev + ['done 0 sp=0 fc=0'])
            why.append('')
            ctx.count('sessions run')
        c.add('delstate', 0)
        cases.append((r.choice(['asan', 'fast', 'fast']), c))
        exps.append(exp)
        whys.append(why)

    def judge(rs):
        out = []
        for r, exp, why, (var, c) in zip(rs, exps, whys, cases):
            l = list(r.lines)
            for k, (e, w) in enumerate(zip(exp, why)):
                if isinstance(e, list):
                    d = diff(e, l[:len(e)])
                    if d:
                        out.append('piece %d, run: %s' % (k, d))
                        break
                    l = l[len(e):]
                    continue
                ok = bool(l) and l[0] == 'compile 0 ok'
                if ok != e or not ok and not (l and l[0].startswith('compile 0 err ')):
                    out.append('compile %d %s: %s' % (k, 'accepted although %s' % w if ok else 'refused', l[:1]))
                    break
                l = l[1:]
        return out or None
    key = '\n'.join('\n'.join(c.cmds[-60:]) for v, c in cases)
    yield Unit(cases, judge, key, src.decode('latin-1'))




def p_intact(ctx):
    """The small programs themselves, in several layouts."""
    s = SMALL[ctx.i % len(SMALL)]
    t = edits.toks(s)
    yield from unit(ctx, [one(ctx, x, 'asan') for x in (s, b'\n'.join(t), b' // c\n'.join(t) + b'//', b'\t'.join(t) + b'\r\n')])


NAMES = re.compile(r'.* is not declared$|declared twice|type of .* not known yet|no function |two (fields|parameters) of |struct defined twice|return outside|assignment to a constant|no field |field given twice|new of |. on ')
STRUCTS = re.compile(r'two fields of |struct defined twice|no field |field given twice|new of |\. on |number of initialisers|some initialisers named|.* for a field of type |no fields')
SYNTAX = re.compile(r'.* where .* is expected$|unexpected |lexer error|.* after an expression|argument list|initialiser list|parameter list|no fields|expression as a statement|(break|continue) outside')


def mixed(want, presets=None, every=14):
    """Family for another check: edited programs whose verdict, or trace, is that check's business."""
    def fn(ctx):
        b = base(ctx, presets)
        if not b:
            return
        r = ctx.rng
        m, src, bt, f = b
        ts = []
        for _ in range(every * 4):
            if len(ts) >= every:
                break
            k = r.random()
            if k < .6:
                t, what = edits.trees(r, bt, f.espans, f.sspans)
                x = edits.text(r, t)
            elif k < .8:
                x = edits.lines(r, src)
            else:
                t = list(bt)
                edits.edit(r, t)
                x = edits.text(r, t)
            q = one(ctx, x, None, 4000)
            if q and want(q[2], q[3]):
                ts.append(q)
        yield from unit(ctx, ts)
    return fn


def families(tier):
    v = ('fast', 'asan')
    n = (len(small_edits()) + PER - 1) // PER
    nf, nr = [(len(x) + PER - 1) // PER for x in run_edits()]
    return [
        Fam('small programs', p_intact, len(SMALL), len(SMALL), v, shard=4),
        Fam('edits of one token', p_small, min(QUICK, n), n, v, shard=8),
        Fam('runs of tokens', p_runs, nf + 160, nf + nr, v, shard=8),
        Fam('token edits', p_edits, 160, 6000, v, shard=4),
        Fam('lines', p_lines, 80, 3000, v, shard=4),
        Fam('expressions and statements', p_trees, 200, 8000, v, shard=4),
        Fam('splices', p_splices, 80, 3000, v, shard=4),
        Fam('sessions', p_sessions, 250, 9000, v, shard=4),
    ]
