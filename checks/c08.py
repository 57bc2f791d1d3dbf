"""C08: compiling arbitrary text always ends in success or an error report."""
import re
from vlib import progs, gen, fuzz
from vlib.core import Fam, Unit, diff
from vlib.run import Case, unesc
from checks import c30
from checks.c07 import MODS, macros

RULE = ('Every compile of a generated text (valid programs, token and byte mutations of them, token soup, truncations at every token, '
        'random bytes, deep nesting, long tokens, and a list of texts that are wrong for one reason each) runs under ASan/UBSan with '
        'a CPU limit and must return success or an error whose message is terminated, non-empty, readable and names the file; listed and '
        'systematically broken texts must be refused, valid ones accepted; afterwards the same state must still compile, run, disassemble and be '
        'destroyed. Distinct by case text. Edited programs (see C30) that break the grammar must be refused.')

LINE = re.compile(r'compile (\d+) (ok|err (-?\d+) "([^"]*)"(.*))$')
ERR = re.compile(rb'ERROR (.*?)\((\d+)\): (.*)', re.S)


def check_msg(line, fname, src):
    """Judges one `compile` line; returns (accepted, complaint)."""
    m = LINE.match(line)
    if not m:
        return None, 'odd result: ' + line[:200]
    if m.group(2) == 'ok':
        return True, None
    pos = int(m.group(3))
    msg = unesc(m.group(4))
    if 'UNTERMINATED' in m.group(5):
        return False, 'the error message is not terminated'
    if not msg.strip():
        return False, 'empty error message'
    if len(fname) > 300 and b'ERROR ' + fname[:200] in msg:
        # no room for more than the beginning of the name
        return False, None if 0 <= pos <= len(src) + 1 else 'position %d in a text of %d characters' % (pos, len(src))
    e = ERR.search(msg)
    if not e:
        return False, 'the message does not report an error in a file: %r' % msg[-200:]
    k = msg.rfind(b'ERROR ' + fname + b'(')
    if k < 0:
        return False, 'the message does not name the file %r: %r' % (fname[:60], msg[-300:])
    e = re.match(rb'\((\d+)\): ?(.*)', msg[k + 6 + len(fname):], re.S)
    if not e or not re.search(rb'[A-Za-z]{3}', e.group(2)):
        return False, 'the message says nothing: %r' % msg[-200:]
    if not 1 <= int(e.group(1)) <= src.count(b'\n') + 1:
        return False, 'line %d of a text with %d lines' % (int(e.group(1)), src.count(b'\n') + 1)
    if not 0 <= pos <= len(src) + 1:
        return False, 'position %d in a text of %d characters' % (pos, len(src))
    return False, None


GOOD = b'struct Good9 { g1: int g2: str }\nfunc good9(n: int): int { s := 0 q := new Good9 { n, "gg" } for i := 0; i < n; i += 1 { if i %% 2 == 0 { s += q.g1 * i } } return s + strlen(q.g2) + %d }\nGC9 :: 12\n'


def epilogue(c, s, k, t=0):
    """The state still compiles, runs and disassembles. GOOD must be compiled once per state."""
    c.add('compile', s, 'good', GOOD % k)
    c.add('disq', s)
    c.add('thread', t, s)
    c.add('call', t, 'good9', 'i7')
    c.add('destroy', t)
    c.add('delstate', s)
    return ['compile %d ok' % s, None, 'ret %d i%d' % (t, 7 * (0 + 2 + 4 + 6) + 2 + k)]


def texts_unit(ctx, texts, fnames=None, want=None, std='lad6i', var='asan'):
    """Compiles the texts one after the other into one state."""
    r = ctx.rng
    c = Case(gen.setup(std=std))
    macros(c)
    fn = []
    for i, t in enumerate(texts):
        f = fnames[i] if fnames else r.choice([b'f', b'file.tiny', b'dir/some file.tiny', b'main'])
        fn.append(f)
        c.add('compile', 0, f, t)
    k = r.randrange(1000)
    ep = epilogue(c, 0, k)
    ctx.count('compiles', len(texts) + 1)

    def judge(rs):
        l = [x for x in rs[0].lines if x.startswith(('compile 0', 'ret ', 'disq'))]
        n = len(texts)
        if len(l) < n + 3:
            return 'incomplete: %s' % l[-3:]
        for i in range(n):
            ok, why = check_msg(l[i], fn[i], texts[i])
            if why:
                return 'text %d: %s' % (i, why)
            if want and want[i] is not None and ok != want[i]:
                return 'text %d %s: %r' % (i, 'is wrong but was accepted' if ok else 'is right but was refused (%s)' % unesc(LINE.match(l[i]).group(4))[-200:], texts[i][:1000])
        rest = l[n:]
        if rest[0] != ep[0] or rest[-1] != ep[2]:
            return 'after these texts a correct text does not compile and run: %s' % rest
    return Unit([(var, c)], judge, b'\0'.join(texts), '\n---\n'.join(t[:400].decode('latin-1') for t in texts[:3]))


def p_fuzz(ctx):
    r = ctx.rng
    m = progs.make(ctx, r.choice(['default', 'struct', 'types', 'scope', 'flow', 'calls']), main=r.choice([3, 5, 12]), steps=4000)
    valid = progs.source(m, r)
    if r.random() < .25:
        valid = MODS
    texts = []
    for _ in range(r.choice([1, 4, 8])):
        texts.append(fuzz.any_text(r, valid).replace(b'\0', b'?'))
    yield texts_unit(ctx, texts)


def p_prefix(ctx):
    """All prefixes of a text, by tokens or characters: each compiles or fails cleanly."""
    r = ctx.rng
    if ctx.i % 3 == 0:
        src = MODS
    elif ctx.i % 3 == 1:
        src = b'\n'.join(r.choice(fuzz.SNIPS).encode() for _ in range(6))
    else:
        m = progs.make(ctx, r.choice(['default', 'struct', 'types']), main=3, funcs=2, steps=4000)
        src = progs.source(m, r)
    if r.random() < .5 and len(src) < 1500:
        cuts = list(range(len(src) + 1))
    else:
        cuts, p = [], 0
        for t in fuzz.tokens(src):
            p += len(t)
            cuts.append(p)
    for lo in range(0, len(cuts), 40):
        yield texts_unit(ctx, [src[:p] for p in cuts[lo:lo + 40]], var='fast' if ctx.i % 4 else 'asan')


def p_bad(ctx):
    """Texts that are wrong for one known reason, alone, after or inside correct ones."""
    r = ctx.rng
    k = ctx.i
    texts, want = [], []
    n = len(fuzz.BAD)
    per = 8
    for j in range(per):
        b = fuzz.BAD[(k * per + j) % n].encode()
        mode = (k * per + j) // n
        pre = b''
        if mode % 4 == 1 and r.random() < .4:
            # many definitions before
            pre = b''.join(r.choice([b'zg%d := %d\n', b'func zf%d(): int { return %d }\n', b'struct ZS%d { zx%d: int }\n', b'ZC%d :: %d\n']) % (i, i) for i in range(r.choice([40, 41, 70, 130, 260, 520])))
        elif mode % 4 == 1:
            pre = b'zz1 := 5\nfunc zf(q: int): int { return q + 1 }\nstruct ZS { zx: int }\nzz2 := zf(zz1)\n'
        elif mode % 4 == 2:
            m = progs.make(ctx, r.choice(['exprb', 'flow']), main=3, funcs=1, steps=4000)
            pre = b''
            # keep generated names apart from those of the bad text
            pre = re.sub(rb'\b(x|y|z|a|b|n|m|p|q|f|g|h|i|s|xs|P)\b', rb'\1qq', progs.source(m, r)) + b'\n'
            if b'use ' in pre or b'array_' in pre:
                pre = b''
        elif mode % 4 == 3 and not b.startswith((b'->', b')', b']', b',', b'.', b'=', b':', b'else', b'}', b'+')):
            b = b'// comment " \' \n' * r.randrange(1, 4) + b.replace(b' ', b' ' * r.choice([1, 2]) + r.choice([b'', b'\n', b'\t', b'// c\n'])) if b'"' not in b and b"'" not in b else b
        texts.append(pre + b)
        want.append(False)
    for t, w in zip(texts, want):
        yield texts_unit(ctx, [t], want=[w])


def p_valid(ctx):
    r = ctx.rng
    m = progs.make(ctx, r.choice(sorted(progs.PRESETS)), steps=8000)
    src = progs.source(m, r)
    yield texts_unit(ctx, [src], want=[True], std='lad6')


def p_insert(ctx):
    """A correct program with one character sequence inserted that no program contains at any token boundary."""
    r = ctx.rng
    m = progs.make(ctx, r.choice(['default', 'struct', 'flow', 'types']), main=5, steps=5000)
    src = progs.source(m, r, parens=0)
    toks = fuzz.tokens(src)
    spots = [i for i in range(len(toks) + 1)]
    for _ in range(6):
        i = r.choice(spots)
        t = list(toks)
        ins = r.choice([b' @ ', b' # ', b' ^ ', b' ` ', b' \\ ', b' $ ', b' ] ', b' ) ', b' = = ', b' :: :: ', b' . . ', b' func func ', b' struct struct ', b' := := ', b' -> -> ', b' , , ', b' \x01 ', b' \xff ', b' => '])
        # inside a comment or a spliced literal it would not count: generated sources contain none at token boundaries
        t.insert(i, ins)
        txt = b''.join(t)
        if b'//' in src:
            continue
        yield texts_unit(ctx, [txt], want=[False], std='lad6')


def p_long(ctx):
    """Very long tokens, lines, files, lists."""
    r = ctx.rng
    n = r.choice([255, 256, 1000, 1023, 1024, 2047, 2048, 4095, 4096, 5000, 65535, 65536, 200000])
    k = ctx.i % 20
    if k >= 14:
        n = r.choice([n, r.randrange(120, 136), r.randrange(245, 262), r.randrange(500, 520)])
    x = b'x' * n
    want = None
    if k == 0:
        t, want = x + b' := 5\n' + x + b' = 6\nemit(' + x + b')', True
    elif k == 1:
        t, want = b's := "' + b'q' * n + b'"\nemit(strlen(s))', True
    elif k == 2:
        t, want = b'// ' + x + b'\na := 1 // ' + x, True
    elif k == 3:
        t, want = b' ' * n + b'a := 1' + b'\n' * n + b'emit(a)', True
    elif k == 4:
        t, want = b'a := ' + b'9' * n, None
    elif k == 5:
        t, want = b'a := 0.' + b'3' * n, None
    elif k == 6:
        t, want = b's := "' + b'q' * n, False
    elif k == 7:
        t, want = b'emit(' + x + b')', False
    elif k == 8:
        t, want = b'a := 1\n' * 1 + b'a += 1\n' * min(n, 20000), True
    elif k == 9:
        t, want = b'a := ' + b' + '.join([b'1'] * min(n, 600)), True
    elif k == 10:
        t, want = b'a := ' + b'"\\n' * min(n, 5000), None
    elif k == 11:
        t, want = b'func ' + x + b'(' + x + b'a: int): int { return ' + x + b'a } emit(' + x + b'(4))', True
    elif k == 12:
        t, want = b'struct ' + x + b' { ' + x + b'f: int } p := new ' + x + b' { .' + x + b'f = 5 } emit(p.' + x + b'f)', True
    elif k == 14:
        t, want = b'struct ' + x + b' { a: int } p: ' + x + b'? = new ' + x + b' { 1 } q: ' + x + b'? = p emit(q == null)', True
    elif k == 15:
        m = min(n, 5000)
        t, want = b'use log(' + b', '.join([b'"a"'] * m) + b')', True if m <= 128 else None
    elif k == 16:
        m = min(n, 5000)
        t, want = b'emit(' + b', '.join([b'1'] * m) + b')', True if m <= 255 else None
    elif k == 17:
        m = min(n, 5000)
        t, want = b'func f(' + b', '.join(b'a%d: int' % i for i in range(m)) + b') { } f(' + b', '.join([b'1'] * m) + b')', True if m <= 250 else None
    elif k == 18:
        t, want = b'struct ' + x + b' { a: int } func ' + x + b'_get_index(a: ' + x + b', b: int): int { return b } p := new ' + x + b' { 1 } emit(p[3])', True
    elif k == 19:
        t, want = b'use array("int") as ' + x + b' a: ' + x + b' = ' + x + b'(1, 2) a[0] = 3', True if n <= 200 else None
    else:
        t, want = b'use nosuch("' + x + b'") as ' + x, False
    yield texts_unit(ctx, [t], want=[want], fnames=[r.choice([b'f', b'F' * 200])])
    # and the same broken at the end
    if want and k not in (2,):
        yield texts_unit(ctx, [t + r.choice([b' (', b' := ', b' "', b" '", b' @', b' }'])], want=[False], fnames=[b'g'])


def p_nest(ctx):
    r = ctx.rng
    d = r.choice([10, 50, 100, 200, 400])
    texts = [fuzz.nested(r, d) for _ in range(4)]
    good = [b'a := ' + b'(' * d + b'1' + b')' * d, b'a := ' + b'-' * d + b'1', b'a := ' + b'!' * d + b'true',
            b'{ ' * d + b'a := 1 ' + b'}' * d, b'if true { ' * d + b'emit(1) ' + b'}' * d, b'a := ' + b'tint(' * d + b'1' + b')' * d,
            b'a := ' + b'if true 1 else ' * d + b'2', b'a := 1' + b' + (1' * d + b')' * d, b'if false { } else ' * d + b'emit(1)']
    g = r.choice(good)
    yield texts_unit(ctx, texts)
    yield texts_unit(ctx, [g], want=[True])
    # one bracket too many or too few
    b = g.replace(b'(', b'((', 1) if b'(' in g else g.replace(b'{', b'{ {', 1)
    if b != g:
        yield texts_unit(ctx, [b], want=[False])


NAMED = [
    (b'emit(@)', 'an undeclared variable'), (b'x1 := @', 'an undeclared variable'), (b'@(1)', 'an unknown function'), (b'x1 := 1 + @(2)', 'an unknown function'),
    (b'x1: @ = 5', 'an unknown type'), (b'func f1(a: @) { }', 'an unknown type'), (b'struct S1 { a: @ }', 'an unknown type'), (b'use @("x")', 'an unknown module'),
    (b'@ = 5', 'an undeclared variable'), (b'x1 := new @ { 1 }', 'an unknown type'),
    (b'struct S1 { a: int } p1 := new S1 { 1 } emit(p1.@)', 'an unknown field'), (b'struct S1 { @: int @: int }', 'a duplicate field'),
    (b'@ := 5 @ := 6', 'a redeclared variable'), (b'@ :: 5 @ = 6', 'a constant'), (b'func @(a: int) { } @()', 'a function'),
]


def p_names(ctx):
    """File names of any length, from short to much longer than any message."""
    r = ctx.rng
    texts, fnames, want = [], [], []
    for i in range(16):
        bad = r.choice([b'x := ', b'nosuch9(1)', b'x : int = "s"', b'func f(', b'a := 1 b := a +', b'}', b'"open', b'1 +', b'struct S9 { q: Nope }',
                        b'v' * r.choice([20, 200, 700, 900]) + b' = 1'])
        pre = b''.join(r.choice([b'\n', b'// ' + b'c' * r.randrange(90) + b'\n']) for _ in range(r.choice([0, 0, 1, 3, 8])))
        texts.append(pre + bad)
        want.append(False)
        n = r.choice([r.randrange(1, 300), r.randrange(300, 700), r.randrange(480, 1100), r.randrange(900, 1100), r.randrange(1000, 3000)])
        fnames.append((b'd/%d_' % i + b'n' * n)[:n])
        ctx.count('longest file name', 0)
        ctx.stats['longest file name'] = max(ctx.stats['longest file name'], n)
    yield texts_unit(ctx, texts, fnames=fnames, want=want)


def p_named(ctx):
    """The message about an unknown name mentions it."""
    r = ctx.rng
    t, what = NAMED[ctx.i % len(NAMED)]
    n = r.choice([b'qxz', b'Longer_name9', b'u' * 60, b'w7'])
    src = b'\n' * r.randrange(6) + t.replace(b'@', n)
    c = Case(gen.setup())
    macros(c)
    c.add('compile', 0, 'nm.tiny', src)
    c.add('delstate', 0)

    def judge(rs):
        l = rs[0].lines
        ok, why = check_msg(l[0] if l else '', b'nm.tiny', src)
        if why:
            return why
        if ok:
            return 'accepted: %r' % src
        e = unesc(LINE.match(l[0]).group(4)).rsplit(b'ERROR nm.tiny(', 1)[1]
        if n not in e:
            return 'the message about %s named %r does not mention it: %r' % (what, n, e)
    yield Unit([('asan', c)], judge, src, src.decode())


def p_files(ctx):
    """Texts in files, and files that cannot be opened, under names of any length: an error names the file."""
    r = ctx.rng
    c = Case(gen.setup())
    macros(c)
    c.add('tmpdir')
    want = []
    for j in range(14):
        n = r.choice([r.randrange(1, 40), r.randrange(1, 120), r.randrange(200, 255), r.randrange(256, 600), r.randrange(900, 1100), r.randrange(1000, 4200), r.randrange(4000, 9000)])
        name = (b'n%d_' % j + bytes(r.choice(b'abcxyz_-. %q') for _ in range(n)))[:max(n, 5)]
        there = len(name) < 250 and r.random() < .5
        src = r.choice([b'', b'x := 1 +', b'emit(1)', b'"open', b'zz%d := 5\n' % j, b'struct', fuzz.any_text(r, MODS).replace(b'\0', b'?')])
        if not there and r.random() < .3:
            name = r.choice([b'no/such/', b'./', b'', b'../nope/']) + name
        if there:
            c.add('mkfile', name, src)
        c.add('compilefile', 0, name)
        want.append((name, src if there else None))
    k = r.randrange(1000)
    ep = epilogue(c, 0, k)
    ctx.count('compiled files', len(want))

    def judge(rs):
        l = [x for x in rs[0].lines if x.startswith(('compile 0', 'ret ', 'disq'))]
        if len(l) < len(want) + 3:
            return 'incomplete: %s' % l[-3:]
        for (name, src), x in zip(want, l):
            if src is None:
                m = LINE.match(x)
                if not m or m.group(2) == 'ok':
                    return 'there is no file %r: %s' % (name[:80], x[:200])
                msg = unesc(m.group(4))
                if 'UNTERMINATED' in m.group(5) or not msg.strip():
                    return 'bad message for a missing file: ' + x[:200]
                if name[:300] not in msg:
                    return 'the message about a missing file does not name %r: %r' % (name[:80], msg[:300])
            else:
                ok, why = check_msg(x, name, src.split(b'\0')[0])
                if why:
                    return 'file %r: %s' % (name, why)
                if src in (b'', b'emit(1)') and not ok or src in (b'x := 1 +', b'"open', b'struct') and ok:
                    return 'file with %r: %s' % (src, x[:200])
        if l[len(want)] != ep[0] or l[-1] != ep[2]:
            return 'after these files a correct text does not compile and run: %s' % l[len(want):]
    yield Unit([('asan', c)], judge, '\n'.join(c.cmds), None)


UNDEF = ['emit(mk().x)', 'q := mk() emit(q.x)', 'q := mk() q.x = 1', 'q := mk() q.x += 1', 'take(mk())\nq := mk()\nemit(q.x.y)', 'q := new Undef9 { 1 }', 'q := new Undef9 { .x = 1 }', 'func f(a: Undef9) { emit(a.x) }',
         'func f(): int { return mk().x }', 'q := mk() -> same() emit(q.x)', 'q := mkopt() emit(q.x)', 'if mk().x == 1 { }', 'q := cast(cast(1, any), Undef9) emit(q.x)', 'struct H { u: Undef9 } h := new H { mk() } emit(h.u.x)',
         'use array("Undef9") as au\na := au(mk()) emit(a[0].x)', 'use json("Undef9")', 'struct H { u: Undef9 }\nuse json("H")', 'while mk().x < 3 { break }', 'emit(mk().x, 1)', 'emit(-mk().x)']


def p_undef(ctx):
    """A struct that only signatures of the host mention: it may be passed around, its fields cannot be used; once it is defined, they can."""
    r = ctx.rng
    c = Case(gen.setup())
    macros(c)
    for s in ('mk(): Undef9', 'mkopt(): Undef9?', 'take(Undef9): void', 'same(Undef9): Undef9'):
        c.add('bind', 0, s, 'emit')
    first = ''.join('pad%d := %d\n' % (i, i) for i in range(r.choice([0, 0, 45, 300])))
    texts = [first] + [r.choice(['', '\n', 'zq := 1 emit(zq)\n' if False else '']) + t for t in r.sample(UNDEF, 8)]
    for t in texts:
        c.add('compile', 0, 'f', t)
    late = r.random() < .5
    if late:
        # now it exists
        c.add('compile', 0, 'def', 'struct Undef9 { x: int }\nfunc fin(a: Undef9): int { return a.x }\nz9 := new Undef9 { 6 }\nfunc get9(): int { return fin(z9) }')
    n = len(texts) + late
    k = r.randrange(99)
    ep = None
    if late:
        # a text that mentions the undefined type may leave it to be defined
        ep = epilogue(c, 0, k)
    else:
        c.add('delstate', 0)

    def judge(rs):
        l = [x for x in rs[0].lines if x.startswith('compile 0')]
        if len(l) < n:
            return 'incomplete: %s' % l[-2:]
        if l[0] != 'compile 0 ok':
            return 'refused: ' + l[0][:200]
        for t, x in zip(texts[1:], l[1:]):
            ok, why = check_msg(x, b'f', t.encode())
            if ok or why:
                return '%s: %s' % (t, why or 'accepted although the struct is not defined')
        if late:
            if l[len(texts)] != 'compile 0 ok':
                return 'the definition was refused: ' + l[len(texts)][:300]
            if ep[2] not in rs[0].lines:
                return 'after these texts a correct text does not run: %s' % rs[0].lines[-3:]
    yield Unit([('asan', c)], judge, '\n'.join(c.cmds), '\n'.join(texts[1:]))


p_edited = c30.mixed(lambda why, exp: why is not None and c30.SYNTAX.match(why), None)


def families(tier):
    v = ('asan',)
    return [
        Fam('fuzz', p_fuzz, 1600, 60000, v),
        Fam('prefixes', p_prefix, 36, 900, ('asan', 'fast'), shard=2),
        Fam('bad', p_bad, (len(fuzz.BAD) * 4 + 7) // 8, (len(fuzz.BAD) * 16 + 7) // 8, v),
        Fam('valid', p_valid, 250, 6000, v),
        Fam('insert', p_insert, 120, 3000, v),
        Fam('long', p_long, 160, 2000, v, shard=4),
        Fam('nest', p_nest, 60, 1200, v),
        Fam('file names', p_names, 60, 1500, ('asan',)),
        Fam('files', p_files, 60, 1500, ('asan',)),
        Fam('undefined structs', p_undef, 40, 800, v),
        Fam('named', p_named, len(NAMED) * 2, len(NAMED) * 20, v),
        Fam('edited programs', p_edited, 100, 3000, ('fast', 'asan'), shard=4),
    ]
