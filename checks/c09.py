"""C09: a failed compile leaves no trace."""
import re
from vlib import progs, gen, lang, split, fuzz
from vlib.core import Fam, Unit, diff
from vlib.run import Case
from checks import c30
from checks.c07 import MODS, REFD, macros

SCALE = 2
RULE = ('Between the compile units of generated programs, texts that must fail are compiled: the following unit with an error injected at a random token '
        'boundary, statement, or end; the listed wrong texts; texts declaring types, functions, constants, modules, many strings; failing and swallowed nested compiles. '
        'The disassembly before and after must be equal, names only the failed text declares must be missing, and the remaining units must compile and the whole run must '
        'give the trace predicted without the failures. Sessions (see C30): pieces of which some fail, against a reference that only knows the accepted ones. Distinct by case text.')

SEM = [b'\nzz9 := nosuch_name', b'\nnosuch_fn(1)', b'\nzz9 := 1 + true', b'\nzz9: int = "s"', b'\nbreak', b'\nreturn 5', b'\nuse fail("no")', b'\nuse nosuch()',
       b'\nstruct ZZ { q: nosuch }', b'\nfunc zz9(a: nosuch) { }', b'\nfunc zz9(): int { return "s" }', b'\nfunc zz9() { return 5 }', b'\nzz9 := new NoSuch { 1 }',
       b'\nzz9 := (', b'\nif true {', b'\nzz9 := "', b"\nzz9 := '", b'\n@', b'\nfunc zz9() {', b'\nstruct ZZ {', b'\nuse array("nosuch") as zz9', b'\nuse comp("w9 := 1", "w8 := (")',
       b'\nuse comp("func w9() { } w7 := 1 break")', b'\nstruct ZZ { q: int } struct ZZ { q: int }', b'\nzz9 :: 5 zz9 = 6', b'\nstr "x" "y" "z"', b'\nzz9 := "a" "b" "c"',
       b'\nfunc zz9(): int { x := "q" for i := 0; i < 5; i += 1 { while true { break } } return nosuch }', b'\nemit(' + b', '.join(b'%d' % i for i in range(256)) + b')', b'\nfunc zz9() {\n' + b'\n'.join(b'l%d := "ls%d"' % (i, i) for i in range(300)) + b'\n}', b'\nuse json("nosuch")', b'\nuse delegate("nosuch") as zz9']

EXTRA = [b'struct New%d { a: int b: New%d? }\n', b'func newf%d(a: int, b: str): int { t%d := a return t%d }\n', b'newv%d := "fresh string %d"\n', b'NEWC%d :: %d\n',
         b'use array("bool") as newarr%d\n', b'func newg%d() { emit("in failed text %d") }\nnewg%d()\n', b'newx%d := strcat("s%d", "t%d")\nemit(newx%d)\n',
         b'use comp("cmp%d := 5", "func cmpf%d(a: int): int { return a }")\n', b'use bind("(int): int") as bnd%d\n', b'use mtype() as mty%d\n', b'use try("tr%d := (")\n', b'use log("l%d") as q\n']


def fill(r, t):
    n = r.randrange(10 ** 6)
    return t.replace(b'%d', b'%d' % n), n


def bad_text(r, nxt):
    """A text that must fail; nxt: text that will be compiled correctly later."""
    k = r.random()
    if k < .35 and nxt and b'//' not in nxt:
        toks = fuzz.tokens(nxt)
        toks.insert(r.randrange(len(toks) + 1), r.choice([b' @ ', b' # ', b' ) ', b' := := ', b' func func ', b' ` ', b' \x01 ']))
        return b''.join(toks)
    if k < .65 and nxt:
        return nxt + r.choice(SEM)
    if k < .9:
        pre = b''
        for _ in range(r.randrange(1, 6)):
            pre += fill(r, r.choice(EXTRA))[0]
        return pre + r.choice(SEM)
    # names of their own
    return re.sub(r"\b[A-Za-z]\b(?!')", lambda m: 'zzq' + m.group(), r.choice(fuzz.BAD)).encode()


def names_of(src):
    return ([x for x in re.findall(rb'\bfunc (\w+)', src)], [x for x in re.findall(rb'(?:^|\n)(\w+)(?: :=|: \w+ =)', src)],
            re.findall(rb'\bstruct (\w+)', src) + re.findall(rb'(\w+) :: ', src))


def compile_bad(ctx, c, exp, s, b, whole):
    """Adds the compile of b, which must fail, and probes that nothing of it stays."""
    r = ctx.rng
    exp.append(('bad', s, b))
    c.add('compile', s, r.choice(['bad', 'main']), b)
    fs, vs, ts = names_of(b)
    known = whole
    for n in fs[:4]:
        if n not in known:
            c.add('fidx', s, n)
            exp.append('fidx %s -1' % n.decode())
    for n in vs[:4]:
        if n not in known:
            c.add('gidx', s, n)
            exp.append('gidx %s -1' % n.decode())
    for n in ts[:4] + fs[:2]:
        if n not in known:
            c.add('refl', s, n)
            exp.append('refl %s missing' % n.decode())
    ctx.count('failed compiles')


def judge_lines(exp, skipmacro=True):
    def judge(rs):
        l = [x for x in rs[0].lines]
        out = []
        dis = None
        cur = []
        for x in l:
            if x == 'try ok':
                return 'a wrong nested text was accepted'
            if x.startswith('macro') or x == 'try err':
                continue
            if x.startswith('dis '):
                cur.append(x)
                continue
            if x.startswith('diss '):
                if dis is not None and cur != dis:
                    return 'the failed compile changed the compiled program: %s' % diff(dis, cur)
                dis = cur
                cur = []
                continue
            if x == 'note redo':
                dis = None
                cur = []
                continue
            out.append(x)
        for i, e in enumerate(exp):
            if i >= len(out):
                return 'incomplete after %s' % out[-2:]
            if isinstance(e, tuple):
                if not out[i].startswith('compile %d err ' % e[1]):
                    return 'a wrong text was accepted: %s: %r' % (out[i], e[2][-300:])
            elif out[i] != e:
                return 'line %d: expected %s, observed %s' % (i, e[:500], out[i][:700])
        if len(out) > len(exp):
            return 'more output: %s' % out[len(exp)][:500]
    return judge


def p_main(ctx):
    r = ctx.rng
    m = progs.make(ctx, r.choice(['default', 'struct', 'scope', 'calls', 'types', 'heap']), **(progs.PAD if r.random() < .06 else {}))
    parts = split.split(m, r)
    ts = split.texts(parts, r)
    whole = b'\n'.join(ts)
    c = Case(gen.setup())
    macros(c)
    exp = []
    dis = len(whole) < 4000 and r.random() < .6
    for i, t in enumerate(ts):
        if dis:
            c.add('note', 'redo')
            c.add('disasm', 0)
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            compile_bad(ctx, c, exp, 0, bad_text(r, t), whole)
            if dis:
                c.add('disasm', 0)
        c.add('compile', 0, 'main', t)
        exp.append('compile 0 ok')
    if dis:
        c.add('note', 'redo')
        c.add('disasm', 0)
    for _ in range(r.choice([0, 1, 2])):
        compile_bad(ctx, c, exp, 0, bad_text(r, b''), whole)
        if dis:
            c.add('disasm', 0)
    progs.begin(c, gc=r.choice([0, 0, 2]), seed=r.randrange(1000))
    c.add('run', 0)
    progs.finish(c)
    exp += m.it.ev + ['done 0 sp=0 fc=0']
    yield Unit([('asan', c)], judge_lines(exp), '\n'.join(c.cmds), whole.decode('latin-1'))


def p_running(ctx):
    """The failed compile happens while a thread of the state is in the middle of its run."""
    r = ctx.rng
    m = progs.make(ctx, r.choice(['default', 'struct', 'calls', 'heap']))
    src = progs.source(m, r)
    c = Case(gen.setup())
    macros(c)
    exp = ['compile 0 ok']
    c.add('compile', 0, 'main', src)
    progs.begin(c)
    progs.begin(c, 0, 1)
    bads = 0
    for _ in range(r.randrange(1, 5)):
        c.add('steps', 0, r.randrange(1, 300))
        c.add('compile', 0, 'bad', bad_text(r, b''))
        bads += 1
    c.add('run', 0)
    c.add('run', 1)
    c.add('destroy', 0)
    c.add('destroy', 1)
    c.add('delstate', 0)

    def judge(rs):
        l = [x for x in rs[0].lines if not x.startswith(('macro', 'try', 'limit'))]
        comp = [x for x in l if x.startswith('compile')]
        for x in comp[1:]:
            if ' err ' not in x:
                return 'a wrong text was accepted: ' + x
        if comp[0] != 'compile 0 ok':
            return comp[0]
        for t in (0, 1):
            d = diff(progs.retid(m.it.ev, t), [x for x in l if x.split(' ', 2)[1] == str(t) and not x.startswith(('compile', 'done'))])
            if d:
                return 'thread %d: %s' % (t, d)
    yield Unit([('asan', c)], judge, '\n'.join(c.cmds), src.decode('latin-1'))


def p_retry(ctx):
    """The same text is corrected step by step: every broken version fails, the last compiles and runs."""
    r = ctx.rng
    m = progs.make(ctx, r.choice(['default', 'struct', 'types', 'calls']), steps=8000)
    src = progs.source(m, r, style='normal')
    toks = fuzz.tokens(src)
    c = Case(gen.setup())
    macros(c)
    exp = []
    n = r.choice([3, 10, 30])
    at = sorted(r.randrange(len(toks) + 1) for _ in range(n))
    if r.random() < .5:
        at.reverse()
    for a in at:
        t = list(toks)
        t.insert(a, r.choice([b' @ ', b' ) ', b' := := ', b' # ', b' ` ']))
        b = b''.join(t)
        c.add('compile', 0, 'main', b)
        exp.append(('bad', 0, b))
    ctx.count('failed compiles', n)
    c.add('compile', 0, 'main', src)
    exp.append('compile 0 ok')
    progs.begin(c)
    c.add('run', 0)
    progs.finish(c)
    exp += m.it.ev + ['done 0 sp=0 fc=0']
    yield Unit([('asan', c)], judge_lines(exp), '\n'.join(c.cmds), src.decode('latin-1'))


KINDS = [
    # (failed declaration, later correct use of the same name, events)
    ('@ := 5', '@ := "now a string"\nemit(@)', ['s"now%20a%20string"']),
    ('@ := 5', '@ :: 77\nemit(@)', ['i77']),
    ('@ :: 5', '@ := 6\n@ += 1\nemit(@)', ['i7']),
    ('@ :: 5', '@ :: "c"\nemit(@)', ['s"c"']),
    ('func @(a: int): int { return a }', 'func @(): str { return "other" }\nemit(@())', ['s"other"']),
    ('func @() { }', '@ := 9\nemit(@)', ['i9']),
    ('struct @ { a: int }', 'struct @ { b: str c: int }\nx@ := new @ { "f", 4 }\nemit(x@.c, x@.b)', ['i4 s"f"']),
    ('struct @ { a: int }', 'func @(q: int): int { return q * 3 }\nemit(@(3))', ['i9']),
    ('use array("int") as @', 'use array("str") as @\nx@ := @("p", "q")\nemit(x@[1], @_len(x@))', ['s"q" i2']),
    ('use array("int") as @', 'struct @ { z: int }\nemit((new @ { 5 }).z)' if False else 'struct @ { z: int }\nw@ := new @ { 5 }\nemit(w@.z)', ['i5']),
    ('use comp("@ := 1")', '@ := 2\nemit(@)', ['i2']),
    ('use comp("func @(): int { return 1 }")', 'func @(a: int): int { return a + 1 }\nemit(@(5))', ['i6']),
    ('use comp("struct @ { q: int }")', 'struct @ { r: str }\nw@ := new @ { "r" }\nemit(w@.r)', ['s"r"']),
    ('use mtype() as @', 'struct @ { r: str }\nw@ := new @ { "r" }\nemit(w@.r)', ['s"r"']),
    ('use bind("(int): int") as @', 'func @(a: str): str { return a }\nemit(@("k"))', ['s"k"']),
    ('func d@(a: int): int { return a }\nuse delegate("d@") as @', 'func d@(a: int): int { return a + 2 }\nuse delegate("d@") as @\nemit(delegate_int_int_call(@(), 3))', ['i5']),
    ('struct J@ { a: int }\nuse json("J@")', 'struct J@ { b: int }\nuse json("J@")\nemit(J@_to_json(new J@ { 4 }))', ['s"{%22b%22:4}"']),
    ('@ := strcat("a", "b")', '@ := strcat("b", "a")\nemit(@)', ['s"ba"']),
    ('func @(): int { loc := 5 return loc }', 'loc := "global"\nfunc @(): str { return loc }\nemit(@())', ['s"global"']),
    ('{ @ := 1 { in@ := 2 } }', '{ @ := "s" { in@ := @ emit(in@) } }', ['s"s"']),
    ('for @ := 0; @ < 3; @ += 1 { }', '@ := true\nemit(@)', ['b1']),
]


REFGOOD = [('struct @ { x: str y: int }\nr@ := same@(new @ { "k", 4 })\nemit(r@.x, r@.y)', 's"k" i4'),
           ('struct @ { n: @? v: float }\nr@ := new @ { .v = 0.5, .n = cast(null, @?) }\nr@.n = same@(r@)\nemit(same@(r@).v)', 'f3fe0000000000000'),
           ('use comp("struct @ { q: int }")\nr@ := new @ { 9 }\nemit(same@(r@).q)', 'i9'),
           ('use mtype() as @\nr@ := same@(mk@(6))\nemit(r@)', 'N6'),
           (None, 'N7')]


def p_referred(ctx):
    """Types that are referred to by the host before any text defines them stay undefined when a definition fails."""
    r = ctx.rng
    c = Case(gen.setup(std='lad6i'))
    macros(c)
    exp, ev = [], []
    if r.random() < .5:
        c.add('compile', 0, 'pre', 'keep := 40')
        exp.append('compile 0 ok')
    nms = ['Und%d' % j for j in range(r.choice([1, 2, 3]))]
    for nm in nms:
        c.add('bind', 0, 'same%s(%s): %s' % (nm, nm, nm), 'idf')
        c.add('bind', 0, 'mk%s(int): %s' % (nm, nm), 'mknat')
    todo = list(nms)
    while todo:
        for _ in range(r.choice([0, 1, 1, 2, 4])):
            ds = [r.choice(REFD).replace('@', nm) for nm in r.sample(todo, r.randrange(1, len(todo) + 1))]
            b = '\n'.join(ds).encode() + r.choice(SEM)
            c.add('compile', 0, 'bad', b)
            exp.append(('bad', 0, b))
            ctx.count('failed definitions', len(ds))
        nm = todo.pop()
        if r.random() < .1:
            continue
        good, e = r.choice(REFGOOD)
        if good is None:
            c.add('type', 0, nm)
            good = 'r@ := same@(mk@(7))\nemit(r@)'
        c.add('compile', 0, 'good', good.replace('@', nm))
        exp.append('compile 0 ok')
        ev.append('emit 0 %d %s' % (len(e.split(' ')), e))
    if not ev:
        c.add('compile', 0, 'good', 'emit(1)')
        exp.append('compile 0 ok')
        ev.append('emit 0 1 i1')
    progs.begin(c)
    c.add('run', 0)
    progs.finish(c)
    exp += ev + ['done 0 sp=0 fc=0']
    yield Unit([('asan', c)], judge_lines(exp), '\n'.join(c.cmds), None)


def p_names(ctx):
    """The same names are free for any other kind of declaration."""
    r = ctx.rng
    c = Case(gen.setup(std='lad6i'))
    macros(c)
    exp = []
    ev = []
    n = r.choice([1, 2, 4])
    if r.random() < .6:
        pre = b'keep := 40\nfunc kf(a: int): int { return a + keep }\nstruct Kp { k: int }\nKC :: 4\nkp := new Kp { 7 }\n'
        c.add('compile', 0, 'pre', pre)
        exp.append('compile 0 ok')
    else:
        pre = None
    for j in range(n):
        k = (ctx.i * n + j) % len(KINDS)
        bad, good, e = KINDS[k]
        nm = r.choice(['nam', 'Zed', 'q', 'x_1', 'averylongname' * 8]) + str(j)
        others = [r.choice(KINDS)[0] for _ in range(r.choice([0, 0, 1, 3]))]
        for _ in range(r.choice([1, 1, 2])):
            b = '\n'.join([o.replace('@', 'oth%d%d' % (i, r.randrange(1000))) for i, o in enumerate(others)] + [bad.replace('@', nm)]).encode() + r.choice(SEM)
            c.add('compile', 0, 'bad', b)
            exp.append(('bad', 0, b))
            ctx.count('failed compiles')
        g = good.replace('@', nm).replace('x' + nm, 'x' + nm)
        # helper variables must not collide with those of another round
        c.add('compile', 0, 'good', g.encode())
        exp.append('compile 0 ok')
        ev += ['emit 0 %d %s' % (len(x.split(' ')), x) for x in e]
    if pre:
        c.add('compile', 0, 'post', 'emit(kf(2), kp.k, KC, keep)')
        exp.append('compile 0 ok')
        ev.append('emit 0 4 i42 i7 i4 i40')
    progs.begin(c)
    c.add('run', 0)
    progs.finish(c)
    exp += ev + ['done 0 sp=0 fc=0']
    yield Unit([('asan', c)], judge_lines(exp), '\n'.join(c.cmds), None)


def p_nested(ctx):
    """Failing compiles started by a module of a text that itself succeeds (or fails)."""
    r = ctx.rng
    a, b = r.randrange(1, 90), r.randrange(1, 90)
    inner_bad = r.choice(['t@ := (', 'func t@() { } t@ := 5 break', 'struct T@ { a: int } t@ := nosuch', 't@ := 1 t@ := 2', 'use fail(\\"inner\\")', 'u@ := \\"x\\" + 1', 'func t@(): int { return \\"s\\" }',
                          'use comp(\\"v@ := (\\")', 'use nosuch()', 'emit(\\"inner@\\") @'])
    und = r.random() < .5
    if und:
        # structs that so far only signatures of the host mention
        inner_bad = r.choice(['struct UA { a: int } struct UB { b: str } struct UC { c: UA } ', 'struct UC { c: int c2: int } struct UB { b: UC } func t@(a: UA) { } ', 'struct UB { b: int } use comp(\\"struct UC { a: int } struct UA { c: int }\\") ']) + inner_bad
    inner_bad = inner_bad.replace('@', '9') if inner_bad[-1] != '@' else inner_bad[:-1].replace('@', '9') + '@'
    src = '''before := %d
func fb(n: int): int { s := "local" return n + before }
struct SB { a: int }
use try("%s", "%s")
use comp("okv := %d", "func okf(n: int): int { return n * 2 }")
use try("%s")
after := fb(%d) + 1
sb := new SB { after }
emit(before, after, sb.a)
''' % (a, inner_bad, inner_bad, b, inner_bad, b)
    c = Case(gen.setup())
    macros(c)
    exp = []
    if und:
        for n in ('mkua(): UA', 'mkub(UA): UB', 'mkuc(UB, UC): UC'):
            c.add('bind', 0, n, 'idf')
    if r.random() < .6:
        bb = src.replace('after := ', 'after := nosuch + ').encode() if r.random() < .5 else src.encode() + r.choice(SEM)
        c.add('compile', 0, 'bad', bb)
        exp.append(('bad', 0, bb))
    c.add('compile', 0, 'main', src)
    exp.append('compile 0 ok')
    for n in ('t9', 'T9', 'u9', 'v9'):
        c.add('gidx', 0, n)
        c.add('fidx', 0, n)
        exp += ['gidx %s -1' % n, 'fidx %s -1' % n]
    if und:
        ds = ['struct UA { x: float y: int }', 'struct UB { x: str }', 'struct UC { x: UA y: UC? }']
        r.shuffle(ds)
        c.add('compile', 0, 'und', '\n'.join(ds) + '\nua := new UA { 1.5, 2 } uc := new UC { ua, cast(null, UC?) } emit(ua.x, uc.x.y, mkub(ua) == cast(ua, any))')
        exp.append('compile 0 ok')
    c.add('compile', 0, 'two', 'emit(okf(okv), okv)\nt9 := 3\nemit(t9)\nfunc v9(): int { return 8 }\nemit(v9())')
    exp.append('compile 0 ok')
    progs.begin(c)
    c.add('run', 0)
    progs.finish(c)
    exp += [progs.emitted(a, a + b + 1, a + b + 1)] + ([progs.emitted(1.5, 2, True)] if und else []) + [progs.emitted(2 * b, b), progs.emitted(3), progs.emitted(8), 'done 0 sp=0 fc=0']
    ctx.count('nested failures', 3)
    yield Unit([('asan', c)], judge_lines(exp), '\n'.join(c.cmds), src)


def p_many(ctx):
    """Hundreds of failures in a row, with many strings, names and functions each, exhaust nothing."""
    r = ctx.rng
    n = r.choice([60, 200])
    c = Case(gen.setup())
    macros(c)
    exp = []
    c.add('compile', 0, 'a', 'g0 := "first"\nfunc f0(): str { return g0 }')
    exp.append('compile 0 ok')
    for k in range(n):
        b = []
        for j in range(r.randrange(1, 60)):
            b.append(r.choice(['v%d_%d := "str%d_%d"', 'func w%d_%d(): str { return "ws%d_%d" }', 'C%d_%d :: "cs%d_%d"', 'struct S%d_%d { f%d_%d: int }']) % (k, j, k, j))
        b = '\n'.join(b).encode() + r.choice(SEM)
        c.add('compile', 0, 'bad%d' % (k % 50), b)
        exp.append(('bad', 0, b))
    ctx.count('failed compiles', n)
    c.add('compile', 0, 'z', '\n'.join('z%d := "zs%d"' % (j, j) for j in range(200)) + '\nemit(f0(), z199)')
    exp.append('compile 0 ok')
    progs.begin(c)
    c.add('run', 0)
    progs.finish(c)
    exp += [progs.emitted(b'first', b'zs199'), 'done 0 sp=0 fc=0']
    yield Unit([('asan', c)], judge_lines(exp), '\n'.join(c.cmds), None)


def families(tier):
    v = ('asan',)
    return [
        Fam('between-units', p_main, 900, 20000, v),
        Fam('while-running', p_running, 250, 5000, v),
        Fam('retry', p_retry, 200, 4000, v),
        Fam('names', p_names, 300, 5000, v),
        Fam('referred', p_referred, 200, 3000, v),
        Fam('nested', p_nested, 160, 2000, v),
        Fam('many', p_many, 24, 300, v, shard=2),
        Fam('sessions', c30.p_sessions, 100, 3000, ('fast', 'asan'), shard=4),
    ]
