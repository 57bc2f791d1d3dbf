"""C12: compiling in pieces equals compiling the concatenation."""
from vlib import progs, gen, lang, split, fuzz
from vlib.core import Fam, Unit, diff
from vlib.run import Case
from checks import c30

RULE = ('Generated programs are cut at random legal boundaries (no earlier piece mentions a type or function of a later one) and the pieces are '
        'compiled one after the other into one state, from strings and from files; the trace must equal the one predicted for the whole text. Hand-made '
        'multi-unit programs with values computed from their parameters cover modules, constants, structs and pad sizes across units. Sessions (see C30): a name declared by one piece and declared again, or used, by a later one. Distinct by program text and cut.')


def fix(ev):
    return [e.replace('emit 0 ', 'emit 0 %d ' % (len(e.split(' ')) - 2)) for e in ev]


def p_split(ctx):
    r = ctx.rng
    preset = r.choice(['default', 'struct', 'scope', 'calls', 'types', 'heap', 'flow'])
    over = {}
    if r.random() < .12:
        over = dict(progs.PAD)
    m = progs.make(ctx, preset, **over)
    parts = split.split(m, r)
    ts = split.texts(parts, r)
    ctx.count('pieces', len(ts))
    opts = []
    c = Case(gen.setup())
    c.add('tmpdir')
    for i, t in enumerate(ts):
        if r.random() < .3:
            if r.random() < .2:
                t = b'\n' * 3 + t
            c.add('mkfile', 'piece%d.tiny' % (i % 5), t)
            c.add('compilefile', 0, 'piece%d.tiny' % (i % 5))
        else:
            c.add('compile', 0, r.choice(['same', 'p%d' % (i % 5)]), t)
        if r.random() < .1:
            c.add('compile', 0, 'empty', r.choice([b'', b'\n', b' // nothing\n', b'// x']))
            parts = parts + [None]
    n = sum(1 for x in c.cmds if x.startswith('compile'))
    progs.begin(c, gc=r.choice([0, 0, 2]), seed=r.randrange(1000))
    if r.random() < .3:
        c.add('steps', 0, r.randrange(1, 40))
    c.add('run', 0)
    progs.finish(c)
    exp = ['compile 0 ok'] * n + m.it.ev + ['done 0 sp=0 fc=0']

    def judge(rs):
        l = [x for x in rs[0].lines if not x.startswith('limit')]
        if l and l[-1] == 'done 0 sp=0 fc=0' and l[-2:-1] == ['done 0 sp=0 fc=0']:
            l.pop()
        l = [x for i, x in enumerate(l) if not (x.startswith('done 0') and i < len(l) - 1)]
        return diff(exp, l)
    yield Unit([(r.choice(['asan', 'fast', 'fast']), c)], judge, b'\0'.join(ts), '\n--- next piece ---\n'.join(t.decode('latin-1') for t in ts), trivial=len(ts) < 2)


def p_both(ctx):
    """The whole and the pieces side by side: same trace, also when driven by host calls afterwards."""
    r = ctx.rng
    m = progs.make(ctx, r.choice(['default', 'calls', 'struct']), steps=8000)
    parts = split.split(m, r)
    ts = split.texts(parts, r)
    whole = b'\n'.join(ts)
    c = Case(gen.setup(0) + gen.setup(1))
    c.add('compile', 0, 'whole', whole)
    for i, t in enumerate(ts):
        c.add('compile', 1, 'part', t)
    progs.begin(c, 0, 0)
    progs.begin(c, 1, 1)
    if r.random() < .5:
        c.add('run', 0)
        c.add('run', 1)
        exp0, exp1 = m.it.ev, progs.retid(m.it.ev, 1)
        e = ['compile 0 ok'] + ['compile 1 ok'] * len(ts) + exp0 + ['done 0 sp=0 fc=0'] + exp1 + ['done 1 sp=0 fc=0']

        def judge(rs):
            return diff(e, rs[0].lines)
    else:
        c.add('interleave', r.randrange(1000), r.choice([1, 3, 50]), 0, 1)

        def judge(rs):
            l = rs[0].lines
            for t, ev in ((0, m.it.ev), (1, progs.retid(m.it.ev, 1))):
                d = diff(ev, [x for x in l if len(x.split(' ', 2)) > 2 and x.split(' ', 2)[1] == str(t) and not x.startswith(('compile', 'done'))])
                if d:
                    return 'thread %d: %s' % (t, d)
    c.add('destroy', 0)
    c.add('destroy', 1)
    c.add('delstate', 0)
    c.add('delstate', 1)
    yield Unit([('fast', c)], judge, b'\0'.join(ts), None, trivial=len(ts) < 2)


def p_units(ctx):
    """Many small units that build on each other."""
    r = ctx.rng
    n = r.choice([2, 5, 20, 60, 150])
    c = Case(gen.setup())
    ev = []
    val = {}
    fn = {}
    cn = {}
    st = []
    arr = False
    srcs = []

    def known(d):
        return r.choice(sorted(d))
    order = []
    for i in range(n):
        k = r.randrange(12)
        s = ''
        if k <= 2 or not val:
            v = r.randrange(-1000, 1000)
            e = str(v)
            if val and r.random() < .6:
                q = known(val)
                e += ' + ' + q
                v += val[q]
            if cn and r.random() < .5:
                q = known(cn)
                e += ' + ' + q
                v += cn[q]
            if fn and r.random() < .5:
                q = known(fn)
                a = r.randrange(50)
                e += ' + %s(%d)' % (q, a)
                v += fn[q](a)
            s = 'v%d := %s' % (i, e)
            val['v%d' % i] = v
        elif k == 3:
            x = r.randrange(2, 9)
            if fn and r.random() < .7:
                q = known(fn)
                s = 'func f%d(a: int): int { return %s(a) * 2 + %d }' % (i, q, x)
                fn['f%d' % i] = lambda a, q=fn[q], x=x: q(a) * 2 + x
            else:
                s = 'func f%d(a: int): int { if a > %d { return a - %d } return a * %d }' % (i, x, x, x)
                fn['f%d' % i] = lambda a, x=x: a - x if a > x else a * x
            if len(fn) > 12:
                fn.pop(next(iter(fn)))
        elif k == 4:
            x = r.randrange(100000)
            s = 'C%d :: %d' % (i, x)
            cn['C%d' % i] = x
        elif k == 5:
            s = 'struct S%d { a: int b: str %s }' % (i, 'n: %s?' % r.choice(st) if st else '')
            st.append('S%d' % i)
            if len(st) == 1:
                s += '\nfunc mk%d(x: int): S%d { return new S%d { x, "m" } }\nemit(mk%d(%d).a)' % (i, i, i, i, i)
            else:
                q = st[-2]
                s += '\nemit((new S%d { %d, "t", cast(null, %s?) }).a)' % (i, i, q) if False else ''
                s += '\nz%d := cast(mkany(), any)' % i if False else ''
            if len(st) == 1:
                ev.append('emit 0 i%d' % i)
        elif k == 6:
            if not arr:
                s = 'use array("int") as array_int\nxs := array_int()\n'
                arr = []
            s += 'xs -> array_int_push(%d) emit(array_int_len(xs), xs[0], xs[array_int_len(xs) - 1])' % i
            arr.append(i)
            ev.append('emit 0 i%d i%d i%d' % (len(arr), arr[0], arr[-1]))
        elif k == 7:
            q = known(val)
            x = r.randrange(100)
            s = '%s %s %d' % (q, '+=', x)
            val[q] += x
        elif k == 8:
            x = r.randrange(0, 6)
            q = known(val)
            s = 'for i%d := 0; i%d < %d; i%d += 1 { if i%d == 3 { continue } %s += i%d }' % ((i,) * 2 + (x,) + (i,) * 2 + (q, i))
            val[q] += sum(j for j in range(x) if j != 3)
            val['i%d' % i] = x
            # a continue in a for loop jumps to its step
        elif k == 9:
            q = known(val)
            s = 'if %s > 0 { emit("pos", %s) } else { emit("neg", %s) }' % (q, q, q)
            ev.append('emit 0 s"%s" i%d' % ('pos' if val[q] > 0 else 'neg', val[q]))
        elif k == 10:
            q = known(val)
            s = 's%d := strcat("u%d", int_to_str(%s)) emit(s%d)' % (i, i, q, i)
            ev.append('emit 0 s"u%d%d"' % (i, val[q]))
        else:
            q = known(val)
            s = 'emit("at %d", %s)' % (i, q)
            ev.append('emit 0 s"at%%20%d" i%d' % (i, val[q]))
        srcs.append(s.encode())
        c.add('compile', 0, 'u%d' % (i % 7), srcs[-1])
    for q in sorted(val):
        c.add('compile', 0, 'end', ('emit(%s)' % q).encode())
        ev.append('emit 0 i%d' % val[q])
    m = sum(1 for x in c.cmds if x.startswith('compile'))
    progs.begin(c)
    c.add('run', 0)
    progs.finish(c)
    ctx.count('units', m)
    exp = ['compile 0 ok'] * m + fix(ev) + ['done 0 sp=0 fc=0']

    def judge(rs):
        return diff(exp, rs[0].lines)
    yield Unit([(r.choice(['asan', 'fast']), c)], judge, b'\0'.join(srcs), b'\n---\n'.join(srcs[:10]).decode())


def p_modules(ctx):
    """Modules named in one piece, used in others, also through file pieces; modules instantiated in later pieces."""
    r = ctx.rng
    a, b, d = r.randrange(100), r.randrange(100), r.randrange(1, 100)
    units = [
        (b'struct J { x: int y: str }', []),
        (b'use json("J")', []),
        (b'emit(J_to_json(new J { %d, "j" }))' % a, ['emit 0 s"{%%22x%%22:%d,%%22y%%22:%%22j%%22}"' % a]),
        (b'func fd(n: int): int { return n + %d }\nuse delegate("fd") as mkfd' % b, []),
        (b'dl := mkfd()\nemit(delegate_int_int_call(dl, %d))' % a, ['emit 0 i%d' % (a + b)]),
        (b'use array("J") as array_J\njs := array_J(new J { 1, "one" })', []),
        (b'js -> array_J_push(new J { %d, "two" })\nemit(js[1].x, js[0].y, js -> array_J_len())' % d, ['emit 0 i%d s"one" i2' % d]),
        (b'func fe(q: J): int { return q.x * 2 }\nuse delegate("fe") as mkfe\nemit(delegate_J_int_call(mkfe(), js[1]))', ['emit 0 i%d' % (2 * d)]),
        (b'struct Later { j: J? n: array_J }\nl := new Later { cast(null, J?), js }\nemit(array_J_len(l.n), l.j == null)', ['emit 0 i2 b1']),
        (b'CC :: %d' % d, []),
        (b'func usecc(): int { return CC * 2 }\nemit(usecc())', ['emit 0 i%d' % (2 * d)]),
        (b'dd := dict("k", %d)\ndd["z"] = "zz"' % a, []),
        (b'emit(dict_get(dd, "k"), dd["z"])', ['emit 0 i%d s"zz"' % a]),
        (b'use comp("cm := %d") emit(1)' % b, ['emit 0 i1']),
        (b'emit(cm)', ['emit 0 i%d' % b]),
    ]
    k = r.randrange(len(units))
    # neighbouring units are joined at random
    parts = []
    ev = []
    for u, e in units:
        ev += e
        if parts and r.random() < .4 and b'use comp' not in u and not u.startswith(b'emit(cm') and b'use comp' not in parts[-1]:
            parts[-1] += b'\n' + u
        else:
            parts.append(u)
    c = Case(gen.setup())
    c.add('macro', 0, 'comp', 'comp')
    c.add('tmpdir')
    for i, u in enumerate(parts):
        if r.random() < .5:
            c.add('mkfile', 'm%d' % i, u)
            c.add('compilefile', 0, 'm%d' % i)
        else:
            c.add('compile', 0, 'm', u)
    progs.begin(c)
    c.add('run', 0)
    progs.finish(c)
    exp = fix(ev) + ['done 0 sp=0 fc=0']

    def judge(rs):
        l = rs[0].lines
        comp = [x for x in l if x.startswith('compile')]
        bad = [x for x in comp if not x.endswith(' ok')]
        if bad:
            return 'a piece was refused: %s' % bad[0]
        return diff(exp, [x for x in l if not x.startswith(('compile', 'macro'))])
    yield Unit([('asan', c)], judge, b'\0'.join(parts), b'\n---\n'.join(parts).decode())


def p_bytes(ctx):
    """Whatever bytes a file holds, the compiler sees exactly those."""
    r = ctx.rng
    c = Case(gen.setup())
    c.add('tmpdir')
    ev, lines = [], []

    def raw(n, line=False):
        out = bytearray()
        for _ in range(n):
            out += r.choice([b'\r', b'\n', b'\r\n', b'\n\r', b'\t', b'\x1a', b'\x0c', b'\x0b', b'\x04', b'\x7f', b'\xff', b'\xfe', b'\xef\xbb\xbf', b'\xc3\xa9', b'a', b' ', b'%s', b'//', b'?',
                             bytes([r.choice([x for x in range(1, 256) if x not in b'"\\'])])])
        out = bytes(out)
        return out.replace(b'\n', b'').replace(b'\r', b'') if line else out
    n = 0
    for j in range(r.choice([1, 3, 8])):
        text = b''
        for _ in range(r.choice([1, 1, 3, 10])):
            k = r.randrange(5)
            if k < 2:
                v = raw(r.choice([0, 1, 2, 8, 60]))
                text += b'emit("%s", %d)' % (v, n)
                ev.append(progs.emitted(v, n))
            elif k == 2:
                v = raw(r.choice([1, 5, 30]))
                text += b'w%d := "%s" K%d :: "%s" emit(w%d == K%d, strlen(w%d))' % (n, v, n, v, n, n, n)
                ev.append(progs.emitted(True, len(v)))
            elif k == 3:
                text += b'// %s\n' % raw(r.choice([1, 9]), True)
            else:
                v = r.choice([b'\t', b'\xe9', b' ', b'%', b'\x7f', b'"'])
                text += b"emit('%s' == '%s')" % (v, v)
                ev.append(progs.emitted(True))
            n += 1
            text += r.choice([b'\n', b'\r\n', b' ', b'\t', b'\r', b'\n\n'])
        if r.random() < .3:
            text += r.choice([b'//', b'// \\', b'//\x1a', b'// "', b'//\r', b'\r', b'\r\n'])
        nm = 'b%d.tiny' % j
        if r.random() < .8:
            c.add('mkfile', nm, text)
            c.add('compilefile', 0, nm)
        else:
            c.add('compile', 0, nm, text)
        ctx.count('file bytes', len(text))
        lines.append(text)
    progs.begin(c)
    c.add('run', 0)
    progs.finish(c)
    exp = ['compile 0 ok'] * len(lines) + ev + ['done 0 sp=0 fc=0']
    yield Unit([(r.choice(['asan', 'fast']), c)], lambda rs: diff(exp, rs[0].lines), '\n'.join(c.cmds), b'\n---\n'.join(lines).decode('latin-1'))


SIZES = [0, 1, 2, 255, 256, 511, 512, 1023, 1024, 2047, 2048, 4095, 4096, 4097, 8191, 8192, 8193, 12288, 16383, 16384, 20480, 32767, 32768, 36864, 65535, 65536, 65537, 131072, 262144]


def p_files(ctx):
    """Files of exact sizes, the last character of each significant, compile like the same text from memory."""
    r = ctx.rng
    c = Case(gen.setup())
    c.add('tmpdir')
    ev, n, show = [], 0, []
    for j in range(4):
        size = r.choice(SIZES) + r.choice([0, 0, 0, -1, 1])
        v = r.randrange(10, 99)
        tail = r.choice(['f%d_ := 1%d' % (j, v), 's%d := "%d"' % (j, v), 'emit(%d, 7)' % v, 'f%d_ := "a" // c%d' % (j, v), 'func q%d(): int { return %d }' % (j, v), 'K%d :: 2%d' % (j, v), "c%d := '%s'" % (j, chr(65 + j)),
                         'f%d_ := 0x%d' % (j, v), 'f%d_ := %d.25' % (j, v), 'emit("")', 'f%d_ := true' % j, 'use comp("emit(%d)")' % v])
        if size < len(tail) + 2:
            tail = ''
        room = size - len(tail)
        if room <= 0:
            text = ' ' * max(size, 0)
        elif r.random() < .5:
            text = r.choice([' ', '\n', '\t']) * room + tail
        else:
            # an earlier statement and a comment in between
            text = ('/' * room)[:room - 1] + '\n' + tail if room > 3 else ' ' * room + tail
        assert len(text) == max(size, 0)
        name = 'piece%d.tiny' % r.randrange(3)
        wrong = r.random() < .15 and len(tail) > 2
        if wrong:
            # without its last character the text is right
            text = text[:-len(tail)] + ('zz%d := 1' % j).ljust(len(tail) - 1)[:len(tail) - 1] + r.choice('@\\#$^`~')
            if len(tail) < 10:
                wrong = False
                text = text[:-1] + ' '
                text = text[:-len(tail)] + ' ' * len(tail)
            tail = ''
        c.add('mkfile', name, text)
        c.add('compilefile', 0, name)
        show.append((not wrong, size, text[-40:]))
        n += 1
        t = tail
        if t.startswith('emit("")'):
            ev.append(progs.emitted(b''))
        elif t.startswith('emit'):
            ev.append(progs.emitted(v, 7))
        elif t.startswith('use'):
            ev.append(progs.emitted(v))
        chk, val = None, None
        if t.startswith('f%d_ := 1' % j) and not t.startswith('f%d_ := 1.' % j) and '.' not in t:
            chk, val = 'f%d_' % j, int('1%d' % v)
        elif t.startswith('s%d' % j):
            chk, val = 's%d' % j, b'%d' % v
        elif t.startswith('func'):
            chk, val = 'q%d()' % j, v
        elif t.startswith('K'):
            chk, val = 'K%d' % j, int('2%d' % v)
        elif t.startswith('c%d' % j):
            chk, val = 'c%d' % j, 65 + j
        elif '0x' in t:
            chk, val = 'f%d_' % j, int('%d' % v, 16)
        elif '.25' in t:
            chk, val = 'f%d_' % j, v + .25
        elif 'true' in t:
            chk, val = 'f%d_' % j, True
        elif t.startswith('f%d_ := "a"' % j):
            chk, val = 'f%d_' % j, b'a'
        if chk:
            c.add('compile', 0, 'mem', 'emit(%s)' % chk)
            show.append((True, 0, chk))
            ev.append(progs.emitted(val))
    c.cmds.insert(len(gen.setup()), 'macro 0 comp comp')
    progs.begin(c)
    c.add('run', 0)
    progs.finish(c)

    def judge(rs):
        l = rs[0].lines
        comp = [x for x in l if x.startswith('compile 0')]
        for (good, size, tl), x in zip(show, comp):
            if x.endswith(' ok') != good:
                return 'a file of %d characters that ends in %r: %s' % (size, tl, x[:300])
        return diff(sorted(ev) + ['done 0 sp=0 fc=0'], sorted(x for x in l if x.startswith('emit')) + l[-1:])
    yield Unit([(r.choice(['asan', 'fast']), c)], judge, '\n'.join(c.cmds), None)


def families(tier):
    return [
        Fam('split', p_split, 1400, 30000, ('asan', 'fast')),
        Fam('both', p_both, 300, 6000, ('fast',)),
        Fam('units', p_units, 250, 5000, ('asan', 'fast')),
        Fam('files', p_files, 150, 2500, ('asan', 'fast')),
        Fam('bytes', p_bytes, 80, 1500, ('asan', 'fast')),
        Fam('modules', p_modules, 120, 2000, ('asan',)),
        Fam('sessions', c30.p_sessions, 100, 3000, ('fast', 'asan'), shard=4),
    ]
