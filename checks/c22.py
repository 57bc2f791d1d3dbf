"""C22: reported source positions point at the construct concerned."""
import re
from vlib import progs, gen, lang
from vlib.core import Fam, Unit, diff
from vlib.run import Case, cmd, unesc
from checks.c08 import LINE

SCALE = 6
RULE = ('Texts made of statements of every kind, laid out over one or many lines with blank lines and comments between and within, in several files, with calls across files through functions, callbacks and '
        'function values. A foreign function called with a unique tag at known places asks where it is; file and line must lie in the statement (or the header) holding the call. Between steps the reported '
        'position must lie in a statement or the token after it; nothing is reported before the start and after the end. For compile errors one wrong statement of known extent is placed in a right text: '
        'file, line, position and the quoted lines must fit. Positions are converted for every index of generated texts. Distinct by text.')

BIND = ['where(int): int', 'sink(...): int', 'cb(str, ...): any']
X = [cmd('bind', '0', 'where(int): int', 'where'), cmd('bind', '0', 'sink(...): int', 'argc'), cmd('bind', '0', 'cb(str, ...): any', 'callback')]

TOK = re.compile(r'\s*("(?:[^"\\]|\\(?:.|\n))*"|\'(?:\\(?:.|\n)|.|\n)\'|[A-Za-z_]\w*|\d+\.\d+|\d+|:=|->|==|!=|<=|>=|&&|\|\||\+=|-=|\*=|/=|%=|\|=|&=|<<|>>|\.\.\.|::|.)')


def toks(s):
    return TOK.findall(s)


class W:
    """Writes tokens, knows the line."""

    def __init__(self, r, style, lead=0):
        self.r = r
        self.o = []
        self.line = 1
        self.style = style
        self.tags = {}
        self.spans = []
        self.code = set()
        self.pend = []       # statements that wait for their following token
        self.bol = True

    def nl(self, n=1):
        self.o.append('\n' * n)
        self.line += n
        self.bol = True

    def junk(self):
        r = self.r
        for _ in range(r.choice([0, 0, 0, 1, 1, 2, 5])):
            k = r.randrange(4)
            if k == 0:
                self.o.append('// where(1) comment "x')
                self.nl()
            elif k == 1:
                self.o.append(' \t ')
                self.nl()
            else:
                self.nl()

    def tok(self, t):
        if not self.bol:
            self.o.append(' ')
        self.bol = False
        self.o.append(t)
        self.code.add(self.line)
        if self.pend:
            for s in self.pend:
                s[2] = self.line
            self.pend = []
        # strings and characters with line breaks in them
        for _ in range(t.count('\n')):
            self.line += 1
            self.code.add(self.line)

    def gap(self):
        """between tokens of one statement"""
        if self.style == 'one':
            return
        p = {'some': .08, 'many': .35, 'wild': .5}[self.style]
        if self.r.random() < p:
            if self.r.random() < .2:
                self.o.append(' // c')
            self.nl(self.r.choice([1, 1, 1, 2, 3]))

    def sep(self):
        """between statements"""
        if self.style == 'one' or self.r.random() < .85:
            self.nl()
            if self.r.random() < .3:
                self.junk()


class G:
    def __init__(self, r, fi, nf, base, tag0=0):
        self.r = r
        self.nt = tag0
        self.fi = fi
        self.style = r.choice(['one', 'one', 'some', 'many', 'wild'])
        self.w = W(r, self.style)
        self.nv = 0
        self.fs = list(base)     # callable functions: name, nargs
        self.nf = nf
        self.budget = 40

    def tag(self):
        self.nt += 1
        return self.nt

    def span(self, text, used):
        """Writes the tokens; the tags used lie in the lines written."""
        w = self.w
        a = None
        for t in text:
            if a is None:
                w.tok(t)
                a = w.line - t.count('\n')
            else:
                w.gap()
                w.tok(t)
        s = [a, w.line, w.line]
        w.spans.append(s)
        for u in used:
            w.tags[u] = (a, w.line)
        w.pend.append(s)
        return s

    def call(self, used):
        t = self.tag()
        used.append(t)
        return 'where(%d)' % t

    def expr(self, used, d=2):
        """an int expression with calls"""
        r = self.r
        k = r.randrange(14)
        if d <= 0 or k < 3:
            return self.call(used)
        if k == 3:
            return '%d' % r.randrange(9)
        if k == 4:
            return '%s %s %s' % (self.expr(used, d - 1), r.choice(['+', '-', '*']), self.expr(used, d - 1))
        if k == 5:
            return '(%s)' % self.expr(used, d - 1)
        if k == 6:
            return 'sink(%s)' % ', '.join(self.expr(used, d - 1) for _ in range(r.randrange(0, 4)))
        if k == 7 and self.fs:
            f, n = r.choice(self.fs)
            return '%s(%s)' % (f, ', '.join(self.expr(used, d - 1) for _ in range(n)))
        if k == 8 and self.fs:
            f, n = r.choice(self.fs)
            return 'cast(cb("%s"%s), int)' % (f, ''.join(', ' + self.expr(used, d - 1) for _ in range(n)))
        if k == 9:
            return 'sink(if %s > 0 %s else %s)' % (self.call(used), self.call(used), self.call(used))
        if k == 10:
            return 'strlen(strcat("a", int_to_str(%s)))' % self.expr(used, d - 1)
        if k == 11:
            return '%s -> sink(%s)' % (self.call(used), self.expr(used, d - 1))
        if k == 12:
            s = '"%s"' % ''.join(r.choice(['a', '\n', '\\\n', '\\n', '\\"', '\\\\', ' ', '//']) for _ in range(r.randrange(5)))
            c = r.choice(["'\n'", "'\\\n'", "'\\n'", "'a'", "'\"'"])
            return 'sink(%s, %s, %s, %s)' % (self.expr(used, d - 1), s, c, self.expr(used, d - 1))
        return 'sink(new P { %s, %s }, ai[0 * (%s)])' % (self.expr(used, d - 1), self.expr(used, d - 1), self.expr(used, d - 1))

    def simple(self, infunc, loop, decl=True):
        r = self.r
        used = []
        k = r.randrange(15)
        if not decl and k in (5, 6):
            k = r.choice([0, 3, 4])
        v = 'x'
        if k < 3:
            s = self.call(used)
        elif k == 3:
            s = 'sink(%s)' % ', '.join(self.expr(used) for _ in range(r.randrange(0, 4)))
        elif k == 4:
            s = 'x %s %s' % (r.choice(['=', '+=', '-=']), self.expr(used))
        elif k == 5:
            self.nv += 1
            s = 'v%d_%d := %s' % (self.fi, self.nv, self.expr(used))
        elif k == 6:
            self.nv += 1
            s = 'v%d_%d : int = %s' % (self.fi, self.nv, self.expr(used))
        elif k == 7:
            s = 'p.a = %s' % self.expr(used)
        elif k == 8:
            s = 'ai[0 * (%s)] = %s' % (self.expr(used, 1), self.expr(used, 1))
        elif k == 9 and self.fs:
            f, n = r.choice(self.fs)
            s = '%s(%s)' % (f, ', '.join(self.expr(used, 1) for _ in range(n)))
        elif k == 10 and self.fs:
            f, n = r.choice(self.fs)
            s = 'cb("%s"%s)' % (f, ''.join(', ' + self.expr(used, 1) for _ in range(n)))
        elif k == 11:
            t = self.tag()
            used.append(t)
            s = 'emit(%d, get_executing_line())' % t
        elif k == 12:
            s = '%s -> sink()' % self.call(used)
        elif k == 13 and self.fs:
            f, n = r.choice(self.fs)
            s = 'call_function(get_function_index("%s")%s)' % (f, ''.join(', ' + self.expr(used, 1) for _ in range(n)))
        else:
            s = 'p.a += %s' % self.expr(used, 1)
        self.span(toks(s), used)

    def block(self, d, infunc, loop, n=None):
        w = self.w
        w.sep() if self.r.random() < .8 else w.gap()
        if n is None and self.r.random() < .15:
            self.simple(infunc, loop, False)     # a body without braces
            return
        w.tok('{')
        self.body(d, infunc, loop, n)
        w.sep()
        w.tok('}')

    def body(self, d, infunc, loop, n=None):
        r = self.r
        for _ in range(n if n is not None else r.randrange(0, 4)):
            self.w.sep()
            self.stmt(d, infunc, loop)

    def stmt(self, d, infunc, loop):
        r = self.r
        w = self.w
        self.budget -= 1
        k = r.randrange(20)
        if d <= 0 or self.budget < 0 or k < 10:
            return self.simple(infunc, loop)
        used = []
        if k < 13:
            self.span(toks('if %s %s 0' % (self.call(used), r.choice(['>', '<']))), used)
            self.block(d - 1, infunc, loop)
            while r.random() < .5:
                w.sep() if r.random() < .3 else w.gap()
                w.tok('else')
                if r.random() < .5:
                    used = []
                    w.gap()
                    self.span(toks('if %s %s 0' % (self.expr(used, 1), r.choice(['>', '<', '==', '!=']))), used)
                    self.block(d - 1, infunc, loop)
                else:
                    self.block(d - 1, infunc, loop)
                    break
        elif k < 15:
            self.nv += 1
            v = 'w%d_%d' % (self.fi, self.nv)
            self.span(toks('%s := 0' % v), [])
            w.sep()
            c = self.call(used)
            self.span(toks('while %s < 2 && %s > 0' % (v, c) if r.random() < .5 else 'while %s > 0 && %s < 2' % (c, v)), used)
            w.sep()
            w.tok('{')
            w.sep()
            self.span(toks('%s += 1' % v), [])
            self.body(d - 1, infunc, True)
            w.sep()
            w.tok('}')
        elif k < 17:
            self.nv += 1
            v = 'f%d_%d' % (self.fi, self.nv)
            self.span(toks('for %s := 0 * %s; %s < 2 + 0 * %s; %s += 1 + 0 * %s' % (v, self.call(used), v, self.call(used), v, self.call(used))), used)
            self.block(d - 1, infunc, True)
        elif k == 17:
            self.block(d - 1, infunc, loop)
        elif k == 18 and loop:
            self.span(toks('if %s == %d' % (self.expr(used, 1), r.randrange(9))), used)
            w.sep()
            w.tok('{')
            w.sep()
            s = self.span([r.choice(['break', 'continue'])], [])
            w.sep()
            w.tok('}')
        elif k == 19 and infunc:
            self.span(toks('if %s == %d' % (self.expr(used, 1), r.randrange(9))), used)
            w.sep()
            w.tok('{')
            w.sep()
            used = []
            self.span(toks('return %s' % self.expr(used)), used)
            w.sep()
            w.tok('}')
        else:
            self.simple(infunc, loop)

    def func(self):
        r = self.r
        w = self.w
        n = r.randrange(0, 3)
        name = 'fn%d_%d' % (self.fi, len(self.fs))
        self.span(toks('func %s(%s): int' % (name, ', '.join('a%d: int' % i for i in range(n)))), [])
        w.sep() if r.random() < .5 else w.gap()
        w.tok('{')
        b, self.budget = self.budget, 8
        self.body(2, True, False)
        self.budget = b
        w.sep()
        used = []
        self.span(toks('return %s' % (self.expr(used) if r.random() < .8 or not n else 'a0')), used)
        w.sep()
        w.tok('}')
        self.fs.append((name, n))

    def struct(self):
        self.nv += 1
        self.span(toks('struct St%d_%d { q: int r: str }' % (self.fi, self.nv)), [])

    def text(self, pre):
        w = self.w
        if pre:
            for s in ('use array ( "int" ) as array_int', 'struct P { a : int b : int }', 'x := 0', 'p := new P { 1 , 2 }', 'ai := array_int ( 1 , 2 )'):
                self.span(s.split(' '), [])
                w.sep()
        w.junk()
        for _ in range(self.nf):
            self.func()
            w.sep()
            w.junk()
            if self.r.random() < .4:
                self.stmt(2, False, False)
                w.sep()
            if self.r.random() < .2:
                self.struct()
                w.sep()
        for _ in range(self.r.randrange(1, 7)):
            self.stmt(2, False, False)
            w.sep()
        if self.r.random() < .5:
            w.junk()
        return ''.join(w.o)


# errors that are only found while code is generated
LATE = ['zz@ := 1\nsink(zz@)\nwhere(999)\nsink(%s)\n' % ', '.join(['zz@'] * 256), 'where(998)\nfunc zz@() {\n%s\n}\nwhere(999)\n' % '\n'.join('l%d := 1' % i for i in range(300)),
        'sink(1)\n\n\nwhere(997)\nfunc zz@(): int {\nwhere(996)\nreturn sink(%s)\n}' % ','.join('1' for _ in range(300))]
EARLY = ['undefinedfn()', 'zz@ = "a"', '}', 'struct', 'break']


def fails(r, c, name, p=.4, fate=None):
    for k in range(r.choice([1, 1, 2]) if r.random() < p else 0):
        t = r.choice(LATE) if r.random() < .6 else 'zz@ := 1\nsink(zz@)\nwhere(999)\n' + r.choice(EARLY)
        if fate is not None:
            fate.append(False)
        c.add('compile', 0, r.choice([name, 'broken.tiny']), t.replace('@', '%d' % r.randrange(10 ** 6)))


def p_where(ctx):
    r = ctx.rng
    nfile = r.choice([1, 1, 2, 3])
    c = Case(gen.setup(extra=X))
    tags, files, fs, nt = {}, {}, [], 0
    texts, fate = [], []
    names = r.sample(['main.tiny', 'lib/a.tiny', 'b', 'x y.tiny', 'very' * 30 + '.tiny'], nfile)
    if r.random() < .1:
        names = [names[0]] * nfile
    for k in range(nfile):
        fails(r, c, names[k], .3, fate)
        g = G(r, k, r.randrange(0, 4), fs, nt)
        t = g.text(k == 0)
        nt = g.nt
        fs = g.fs
        for u, (a, b) in g.w.tags.items():
            tags[u] = (names[k], a, b)
        ok = files.setdefault(names[k], set())
        ok.update(g.w.code)
        c.add('compile', 0, names[k], t)
        texts.append(t)
        fate.append(True)
        fails(r, c, names[k], .2, fate)
    if r.random() < .5:
        c.add('opt', 'fill', r.choice(['0', '1', 'ff']))
    c.add('thread', 0, 0)
    c.add('where', 0)
    c.add('start', 0)
    how = r.choice(['run', 'track', 'steps'])
    if how == 'run':
        c.add('run', 0, 60000)
    elif how == 'track':
        c.add('trackwhere', 0, 4000)
        c.add('run', 0, 60000)
    else:
        for _ in range(30):
            c.add('steps', 0, r.randrange(1, 40))
            c.add('where', 0)
        c.add('run', 0, 60000)
    c.add('where', 0)
    for f, n in r.sample(fs, min(len(fs), 3)):
        c.add('call', 0, f, *['i%d' % r.randrange(5) for _ in range(n)])
    c.add('where', 0)
    progs.finish(c)
    seen_of = set(tags)

    def judge(rs):
        ls = rs[0].lines
        ats = [l for l in ls if l.startswith('at ')]
        comp = [l for l in ls if l.startswith('compile 0 ')]
        for l, good in zip(comp, fate):
            if (l == 'compile 0 ok') != good:
                return '%s: %s' % ('a correct text is refused' if good else 'a wrong text is accepted', l[:600])
        if not any(l.startswith('done 0') or l.startswith('limit') for l in ls):
            return 'not finished: %s' % ls[-2:]
        n = 0
        for l in ls:
            p = l.split(' ')
            if p[0] == 'where':
                t, f, line = int(p[2]), unesc(p[3]).decode(), int(p[4])
            elif p[0] == 'emit':
                t, line = int(p[3][1:]), int(p[4][1:])
                f = tags[t][0] if t in tags else '?'
            else:
                continue
            n += 1
            if t not in tags:
                return 'unknown tag: %s' % l
            w = tags[t]
            if f != w[0] or not w[1] <= line <= w[2]:
                return 'the call with tag %d is in %s lines %d to %d, reported as %s line %d' % (t, w[0], w[1], w[2], f, line)
        ctx.count('calls located', n)
        done = any(l.startswith('done 0') for l in ls)
        for i, l in enumerate(ats):
            p = l.split(' ')
            f, line = ' '.join(p[2:-1]), int(p[-1])
            if how != 'track' or i in (0, len(ats) - 1, len(ats) - 2):
                f = unesc(f).decode()
            if f == '-null-':
                if line != 0:
                    return 'no file, line %d' % line
                if i not in (0, len(ats) - 1, len(ats) - 2, len(ats) - 3) and how == 'track':
                    return 'no position while executing'
                continue
            if i == 0:
                return 'position %s %d reported before the start' % (f, line)
            if i >= len(ats) - 2 and done:
                return 'position %s %d reported after the end' % (f, line)
            if f not in files:
                return 'position in unknown file: %s' % l
            if line not in files[f]:
                return 'position %s %d, where no statement is' % (f, line)
        ctx.count('positions while paused', len(ats))
    yield Unit([(r.choice(['fast', 'asan']), c)], judge, '\0'.join(texts), '\n----\n'.join(texts))


def p_chain(ctx):
    """Exactly one statement per line; the line of every call is exact."""
    r = ctx.rng
    L = []
    exp = []

    def add(s):
        L.append(s)
        return len(L)
    t = 0
    nm = r.choice(['m.tiny', 'q'])
    run = []
    fn = []

    def blank():
        for _ in range(r.choice([0, 0, 1, 3, 40])):
            L.append(r.choice(['', '// x', '   ', '\t// where(3)']))
    n = r.choice([3, 20, 120])
    for k in range(n):
        blank()
        kind = r.randrange(7)
        if kind == 0:
            f = 'f%d' % k
            add('func %s(a: int): int {' % f)
            blank()
            t += 1
            l1 = add('where(%d)' % t)
            t1 = t
            blank()
            t += 1
            l2 = add('return where(%d) + a' % t)
            add('}')
            fn.append((f, [(t1, l1), (t, l2)]))
        elif kind == 1 and fn:
            f, ev = r.choice(fn)
            t += 1
            l = add('%s(where(%d))' % (f, t))
            run += [(t, l)] + ev
        elif kind == 2 and fn:
            f, ev = r.choice(fn)
            t += 1
            u = t
            l = add('sink(%s(0), where(%d), %s(1))' % (f, t, f))
            run += ev + [(t, l)] + ev
        elif kind == 3 and fn:
            f, ev = r.choice(fn)
            t += 1
            l = add('cb("%s", where(%d))' % (f, t))
            run += [(t, l)] + ev
            t += 1
            l = add('where(%d)' % t)
            run += [(t, l)]
        elif kind == 4:
            t += 1
            l = add('if where(%d) > 0 {' % t)
            run += [(t, l)]
            t += 1
            l = add('where(%d)' % t)
            run += [(t, l)]
            add('} else {')
            add('where(9999)')
            add('}')
        elif kind == 5:
            t += 1
            l = add('for i%d := 0; i%d < 2 + 0 * where(%d); i%d += 1 {' % (k, k, t, k))
            t0, l0 = t, l
            t += 1
            l = add('where(%d)' % t)
            run += [(t0, l0), (t, l)] * 2 + [(t0, l0)]
            add('}')
        else:
            t += 1
            l = add('where(%d)' % t)
            run += [(t, l)]
    src = '\n'.join(L)
    c = Case(gen.setup(extra=X))
    fails(r, c, nm)
    c.add('compile', 0, nm, src)
    fails(r, c, nm, .2)
    progs.begin(c)
    c.add('run', 0)
    progs.finish(c)
    exp = ['compile 0 ok'] + ['where 0 %d %s %d' % (a, nm, b) for a, b in run] + ['done 0 sp=0 fc=0']

    def judge(rs):
        return diff(exp, [l for l in rs[0].lines if not l.startswith(('argc', 'callback', 'cb', 'compile 0 err'))])
    ctx.count('calls located exactly', len(run))
    yield Unit([(r.choice(['fast', 'asan']), c)], judge, src, src)


BADS = ['undefined9 ( 1 )', 'b9 := undefined9', 'x = "text"', 'x = 1.5', 'sink ( undefined9 )', 'y9 : Nope9 = 1', 'p . nofield = 1', 'p . a = "s"', 'where ( )', 'where ( 1 , 2 )', 'where ( "s" )',
        'x += "a"', 'x = x + "a"', 'x = ! x', 'x = if 1 2 else 3', 'x = if true 2 else 3.5', 'strlen ( 5 )', 'new Nope9 { 1 }', 'x = new P { 1 , 2 }', 'sink ( new P { 1 } )', 'sink ( new P { 1 , 2 , 3 } )',
        'sink ( new P { . a = 1 , . zz = 2 } )', 'sink ( new P { . a = 1 , . b = "x" } )', 'x ( 1 )', 'x . a = 2', 'sink ( x . a )', 'sink ( x [ 0 ] )', 'x [ 0 ] = 1', 'sink ( 1 + true )', 'sink ( true && 1 )',
        'sink ( "a" < "b" )', 'sink ( cast ( 1 , str ) )', 'sink ( - "a" )', 'ai [ "k" ] = 1', 'ai [ 0 ] = "v"', 'sink ( ai [ 1.5 ] )', 'x : int = "s"', 'x = )', 'sink ( 1', 'sink ( 1 2 )', '1 = x',
        'if { }', 'if 1 { }', 'while 5 { }', 'for i9 := 0 ; 1 ; i9 += 1 { }', 'for i9 := 0 i9 < 1 ; i9 += 1 { }', 'else { }', 'break', 'continue', 'return 5', 'C9 :: x', 'func ( ) { }', 'struct { }', 'use nomodule9 ( )',
        'x = @', "x = 'ab", 'sink ( #', 'x = "abc', 'q9 : = 5', 'voidfn9 ( ) . a = 1', 'sink ( cb )']


def p_error(ctx):
    r = ctx.rng
    g = G(r, 0, r.randrange(0, 3), [])
    bad = r.choice(BADS)
    # write the text, with a wrong statement at some place of the main part
    w = g.w
    for s in ('use array ( "int" ) as array_int', 'struct P { a : int b : int }', 'x := 0', 'p := new P { 1 , 2 }', 'ai := array_int ( 1 , 2 )'):
        g.span(s.split(' '), [])
        w.sep()
    for _ in range(g.nf):
        g.func()
        w.sep()
        w.junk()
    n = r.choice([0, 1, 5, 30])
    g.budget = 60
    for _ in range(n):
        g.stmt(2, False, False)
        w.sep()
    depth = r.choice([0, 0, 1, 2])
    deepfn = r.random() < .3 and bad not in ('func ( ) { }', 'struct { }', 'C9 :: x', 'use nomodule9 ( )')
    if deepfn:
        g.span(toks('func hh(): void'), [])
        w.tok('{')
        w.sep()
        if bad == 'return 5':
            bad = 'return undefined9'
    elif bad in ('func ( ) { }', 'struct { }', 'C9 :: x', 'use nomodule9 ( )'):
        depth = 0
    for _ in range(depth):
        w.tok('if')
        w.tok('true')
        w.tok('{')
        w.sep()
    w.junk()
    w.nl()
    w.tok('sink')
    w.tok('(')
    w.tok(')')
    if r.random() < .8:
        w.nl(r.choice([1, 1, 2, 5]))
    a = None
    for t in bad.split(' '):
        if a is not None and t not in ('else',):
            w.gap()
        w.tok(t)
        a = a or w.line
    if r.random() < .8:
        w.nl(r.choice([1, 1, 2, 5]))
        w.junk()
    tail = True
    if bad == 'x = "abc':
        w.nl(3)
        e = 10 ** 9          # the literal runs to the end of the text
        w.tok('sink')
    else:
        w.tok(r.choice(['where', 'sink']))
        e = w.line
    w.tok('(')
    w.tok('1')
    w.tok(')')
    w.junk()
    for _ in range(depth + deepfn):
        w.tok('}')
        w.nl()
    for _ in range(r.choice([0, 1, 5])):
        w.sep()
        g.stmt(1, False, False)
    w.sep()
    src = ''.join(w.o).encode('latin-1')
    if r.random() < .3:
        src += b'\n' * r.randrange(3)
    fn = r.choice(['main.tiny', 'lib/a.tiny', 'f', 'x' * 60])
    c = Case(gen.setup(extra=X))
    c.add('compile', 0, fn, src)
    c.add('delstate', 0)

    def judge(rs):
        m = LINE.match(rs[0].lines[0])
        if not m or m.group(2) == 'ok':
            return 'a wrong text was accepted: %s' % bad
        msg = unesc(m.group(4))
        return quoted(msg, fn.encode(), src, int(m.group(3)), a, e, bad, w.code if bad != 'x = "abc' else None)
    ctx.count('errors placed')
    yield Unit([(r.choice(['fast', 'asan']), c)], judge, src, src.decode('latin-1'))


def quoted(msg, fn, src, pos, a, e, what, code=None):
    k = msg.rfind(b'ERROR ' + fn + b'(')
    if k < 0:
        return 'the message does not name the file: %r' % msg[-200:]
    m = re.match(rb'\((\d+)\)', msg[k + 6 + len(fn):])
    if not m:
        return 'the message does not name the line: %r' % msg[k:k + 200]
    line = int(m.group(1))
    if not a <= line <= e:
        return 'the wrong statement (%s) is in lines %d to %d, reported in line %d: %s' % (what, a, e, line, msg[k:].decode('latin-1').strip())
    if code is not None and line not in code:
        return 'the wrong statement (%s) is reported in line %d, where nothing is: %s' % (what, line, msg[k:].decode('latin-1').strip())
    if not 0 <= pos <= len(src):
        return 'position %d in a text of %d' % (pos, len(src))
    pl = src[:pos].count(b'\n') + 1
    if not a <= pl <= e + 1:
        return 'the wrong statement (%s) is in lines %d to %d, the position is in line %d' % (what, a, e, pl)
    # the quoted lines are the text's lines
    lines = src.split(b'\n')
    arrow = 0
    for q in msg[:k].split(b'\n'):
        m = re.match(rb'^(\d+)( ->)?\t(.*)$', q, re.S)
        if not m:
            if q.strip():
                return 'odd quoted line %r' % q[:100]
            continue
        n = int(m.group(1))
        if n > len(lines) or not lines[n - 1].startswith(m.group(3)):
            return 'quoted as line %d: %r' % (n, q[:100])
        if m.group(2):
            arrow = n
            if n != line:
                return 'line %d is marked, the error is reported in line %d' % (n, line)
        if abs(n - line) > 10:
            return 'line %d is quoted for an error in line %d' % (n, line)


def p_lines(ctx):
    """One wrong line in a long text of one statement per line; many texts in one state."""
    r = ctx.rng
    n = r.choice([1, 10, 200, 3000])
    c = Case(gen.setup(extra=X))
    cases = []
    for k in range(r.choice([1, 4, 10])):
        L = []
        for i in range(n):
            L.append(r.choice(['', '// c', 'sink(1)', 'sink("%s")' % ('y' * r.choice([1, 10, 200])), 'if sink() == 0 { sink(2) }', 'a%d_%d := %d' % (k, i, i), "sink('a', \"s\", 1.5)"]))
        at = r.randrange(n)
        bad = r.choice(['undefined9(1)', 'z := undefined9', 'where("s")', 'sink(undefined9)', 'new Nope { 1 }', 'sink(1 + true)', 'if 5 { sink(1) }', 'x9 = 5', 'sink("a" < 1)', 'sink(@)', 'while 1 { }', 'break'])
        L[at] = bad
        nx = at + 1
        while nx < n and (L[nx] == '' or L[nx].startswith('//')):
            nx += 1
        src = '\n'.join(L).encode()
        fn = 'file%d.tiny' % k
        c.add('compile', 0, fn, src)
        cases.append((fn.encode(), src, at + 1, min(nx + 1, n), bad, {at + 1, nx + 1} if nx < n else None))
    c.add('delstate', 0)

    def judge(rs):
        for l, (fn, src, a, e, bad, code) in zip(rs[0].lines, cases):
            m = LINE.match(l)
            if not m or m.group(2) == 'ok':
                return 'a wrong text was accepted: %s' % bad
            x = quoted(unesc(m.group(4)), fn, src, int(m.group(3)), a, e, bad, code)
            if x:
                return x
    ctx.count('errors placed', len(cases))
    yield Unit([(r.choice(['fast', 'asan']), c)], judge, '\n'.join(c.cmds), None)


def p_pos(ctx):
    r = ctx.rng
    n = r.choice([1, 2, 5, 30, 300, 5000])
    al = r.choice([b'\n', b'a\n', b'ab \n', b'abcdef\n', b'a\r\n\t\xff'])
    s = bytes(r.choice(al) for _ in range(n))
    idx = list(range(n)) if n <= 300 else [r.randrange(n) for _ in range(150)] + [0, n - 1]
    c = Case()
    exp = []
    for k in range(0, len(idx), 200):
        c.add('pos', s, *idx[k:k + 200])
        for i in idx[k:k + 200]:
            exp.append('pos %d %d %d' % (i, s[:i].count(b'\n'), i - (s.rfind(b'\n', 0, i) + 1)))
    ctx.count('positions converted', len(idx))
    yield Unit([(r.choice(['asan', 'fast']), c)], lambda rs: diff(exp, rs[0].lines), s, None)


def p_large(ctx):
    """Texts of tens of thousands of lines, and of thousands of statements."""
    r = ctx.rng
    n = r.choice([600, 1100, 2500, 5000])
    gap = r.choice([0, 0, 300, 33000, 70000])
    at = r.randrange(n)
    o, line, tags = [], 1, {}
    for i in range(n):
        if i == at and gap:
            w = r.choice(['\n', '// c\n'])
            o.append(w * gap)
            line += gap
        k = r.randrange(6)
        if k == 0 or i in (0, n - 1, at):
            o.append('where(%d)\n' % i)
            tags[i] = line
        elif k == 1:
            o.append('if sink() == 0 { where(%d)\n where(%d) }\n' % (i, i + n))
            tags[i], tags[i + n] = line, line + 1
            line += 1
        elif k == 2:
            o.append('\n')
        elif k == 3:
            o.append('func f%d() {\nwhere(%d)\n}\nf%d()\n' % (i, i, i))
            tags[i] = line + 1
            line += 3
        else:
            o.append('sink(%d)\n' % i)
        line += 1
    wrong = r.random() < .3
    if wrong:
        o.append('where("s")\n')
    src = ''.join(o)
    c = Case(gen.setup(extra=X))
    c.add('compile', 0, 'big.tiny', src)
    if not wrong:
        c.add('thread', 0, 0)
        c.add('start', 0)
        c.add('run', 0, 100000)
        progs.finish(c)
    ctx.count('calls located', len(tags))

    def judge(rs):
        l = rs[0].lines
        if wrong:
            m = LINE.match(l[0])
            if not m or m.group(2) == 'ok':
                return 'a wrong text was accepted'
            return quoted(unesc(m.group(4)), b'big.tiny', src.encode(), int(m.group(3)), line, line + 1, 'where("s")')
        got = {}
        for x in l:
            p = x.split(' ')
            if p[0] == 'where':
                if unesc(p[3]) != b'big.tiny':
                    return x
                got[int(p[2])] = int(p[4])
        bad = [(k, tags[k], got.get(k)) for k in tags if not (got.get(k) in (tags[k], tags[k] - 1 if k >= n else tags[k]))]
        if bad or len(got) != len(tags):
            return 'tag, line, reported: %s' % bad[:5]
        if 'done 0 sp=0 fc=0' not in l:
            return 'unexpected: %s' % l[-2:]
    yield Unit([(r.choice(['fast', 'asan']), c)], judge, src, None)


def families(tier):
    v = ('asan', 'fast')
    return [
        Fam('where', p_where, 300, 6000, v),
        Fam('chain', p_chain, 120, 2500, v),
        Fam('errors', p_error, 500, 9000, v),
        Fam('large', p_large, 8, 120, v, cpu=60),
        Fam('lines', p_lines, 80, 1000, v),
        Fam('positions', p_pos, 150, 3000, v),
    ]
