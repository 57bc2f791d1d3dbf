"""C25: formatted output and file functions write and read exactly the data."""
from vlib import progs, gen, lang
from vlib.core import Fam, Unit, diff
from vlib.run import Case, cmd
from checks.c15 import lang_lit
from checks.c23 import escq

SCALE = 2
RULE = ('Random printf calls with every specifier, values at the limits of their ranges, strings of any content and length (embedded zeros too), nested structs, arrays and nulls; random sequences of opening, reading, '
        'writing, positioning and closing files in every mode, whole-file functions, many in a row with few descriptors, and reading lines from standard input of any content to and past its end. The captured output, '
        'the strings read and the files on disk are compared with a model of byte sequences. All files are in a fresh directory. Distinct by program.')

X = [cmd('bind', '0', 'mkbytes(...): str', 'mkbytes')]


def strlit(r, s):
    """An expression for the bytes s."""
    if 0 in s:
        if len(s) > 200:
            return None
        return 'mkbytes(%s)' % ', '.join(map(str, s)) if len(s) < 120 else 'strcat(mkbytes(%s), mkbytes(%s))' % (', '.join(map(str, s[:100])), ', '.join(map(str, s[100:])))
    k = r.randrange(5)
    if k == 0 and len(s) > 1:
        h = r.randrange(1, len(s))
        return 'strcat(%s, %s)' % (lang_lit(s[:h]), lang_lit(s[h:]))
    if k == 1 and 0 < len(s) < 100:
        return 'mkbytes(%s)' % ', '.join(map(str, s))
    return lang_lit(s)


def rndstr(r, zeros=True, big=True):
    k = r.randrange(9)
    if k == 0:
        return b''
    if k == 1:
        return bytes(r.randrange(0 if zeros else 1, 256) for _ in range(r.randrange(1, 30)))
    if k == 2:
        return b'%s%d%%i' * r.randrange(1, 4)
    if k == 3 and big:
        return bytes([r.randrange(97, 123)]) * r.choice([100, 255, 256, 1023, 1024, 4095, 4096, 5000])
    if k == 4:
        return b'line one\nline two\n' * r.randrange(1, 4)
    if k == 5 and zeros:
        return b'ab\0cd\0' * r.randrange(1, 5)
    return ''.join(r.choice('abc XYZ"\'\\{}[]%09,\n\t') for _ in range(r.randrange(1, 20))).encode()


INTS = [0, 1, -1, 9, 10, 255, 2 ** 31 - 1, 2 ** 31, -2 ** 31, 2 ** 32, 2 ** 53 + 1, 2 ** 63 - 1, -2 ** 63 + 1]
FLTS = [0.0, 1.0, -1.0, 0.5, 1.5, 2.5, 0.0000005, 0.00000049, 123456789.125, 1e15, 0.1, 99999.9999999, -0.0000001, 3.0, 1 / 3]


def flit(v):
    t = '%.20f' % abs(v)
    if float(t) != abs(v):
        return None
    return t if not str(v).startswith('-') else '-' + t


class V:
    """A value: expression and how %q shows it."""

    def __init__(self, e, q):
        self.e, self.q = e, q


def value(r, L, n, d=2):
    k = r.randrange(9)
    if k == 0:
        v = r.choice(INTS + [r.randrange(-10 ** 6, 10 ** 6), r.getrandbits(63)])
        return V(lang_lit(v), b'%d' % v)
    if k == 1:
        v = r.choice(FLTS + [r.uniform(-1e6, 1e6)])
        t = flit(v)
        if t is None:
            v = 1.25
            t = '1.25'
        return V(t, b'%f' % v)
    if k in (2, 3):
        s = rndstr(r, big=d == 2)
        e = strlit(r, s)
        if e is None:
            s, e = b'zz', '"zz"'
        return V(e, b'"' + s + b'"')
    if k == 4:
        v = r.random() < .5
        return V(lang_lit(v), b'true' if v else b'false')
    if k == 5:
        return V('null', b'<null>')
    if d <= 0:
        return V('7', b'7')
    if k == 6:
        w = r.choice(WIDE) if d == 2 and r.random() < .3 else 3
        xs = [value(r, L, n, d - 1) if i < 3 or r.random() < .1 else V(str(i), b'%d' % i) for i in range(w)]
        v = V('new T%d { %s }' % (w, ', '.join('cast(%s, any)' % x.e if x.e != 'null' else 'null' for x in xs)), b'struct {' + b', '.join(x.q for x in xs) + b'}')
        if r.random() < .4:
            n[0] += 1
            L.append('st%d := %s' % (n[0], v.e))
            v.e = 'st%d' % n[0]
        return v
    if k == 7:
        xs = [value(r, L, n, d - 1) for _ in range(r.choice([0, 1, 2, 5]))]
        n[0] += 1
        nm = 'ar%d' % n[0]
        L.append('%s := array_any(%s)' % (nm, ', '.join('cast(%s, any)' % x.e if x.e != 'null' else 'null' for x in xs)))
        return V(nm, b'[' + b', '.join(x.q for x in xs) + b']')
    xs = [(r.choice(INTS), r.choice(FLTS[:5]), rndstr(r, zeros=False, big=False)) for _ in range(r.choice([0, 1, 3]))]
    n[0] += 1
    nm = 'ap%d' % n[0]
    L.append('%s := array_P(%s)' % (nm, ', '.join('new P { %s, %s, %s, cast(null, P?) }' % (lang_lit(a), flit(b), lang_lit(c)) for a, b, c in xs)))
    return V(nm, b'[' + b', '.join(b'struct {%d, %f, "%s", <null>}' % (a, b, c) for a, b, c in xs) + b']')


WIDE = (1, 2, 8, 13, 40)
PRE = ['struct T%d { %s }' % (w, ' '.join('f%d: any' % i for i in range(w))) for w in WIDE] + ['use array("any") as array_any', 'use array("P") as array_P', 'use array("str") as array_str', 'struct T3 { a: any b: any c: any }', 'struct P { i: int f: float s: str n: P? }']


def p_printf(ctx):
    r = ctx.rng
    L = list(PRE)
    n = [0]
    out = b''
    while True:
        shared = value(r, L, n)
        if len(L) > len(PRE):
            break
    outs = []
    for k in range(r.choice([1, 5, 25])):
        fmt, args, exp = b'', [], b''
        for _ in range(r.choice([0, 1, 1, 2, 4, 12])):
            q = r.randrange(9)
            if q < 2:
                t = r.choice([b'x', b'', b'abc ', b'\n', b'\t', b'i', b's%%', b'100%% ', b'%%', b'%%i', b'"', b'\\', b'\xff\xfe', b'text ' * 30])
                fmt += t
                exp += t.replace(b'%%', b'%')
            elif q == 2:
                v = r.choice(INTS + [r.getrandbits(63), -r.getrandbits(63)])
                fmt += b'%i'
                args.append(lang_lit(v))
                exp += b'%d' % v
            elif q == 3:
                v = r.choice(FLTS + [r.uniform(-1e9, 1e9), r.random(), float(r.getrandbits(70))])
                t = flit(v) or '1.25'
                v = float(t)
                fmt += b'%f'
                args.append(t)
                exp += b'%f' % v
            elif q in (4, 5):
                s = rndstr(r)
                e = strlit(r, s)
                if e is None:
                    continue
                fmt += b'%s'
                args.append(e)
                exp += s
            elif q == 6:
                ch = r.randrange(256)
                fmt += b'%c'
                args.append(str(ch) if r.random() < .5 or not 32 < ch < 127 or ch in (39, 92) else "'%c'" % ch)
                exp += bytes([ch])
            else:
                v = value(r, L, n)
                fmt += b'%q'
                args.append(v.e)
                exp += v.q
        if r.random() < .1:       # a single % at the end stands for itself
            fmt += b'%'
            exp += b'%'
        call = 'printf(%s)' % ', '.join([strlit(r, fmt)] + args)
        L.append(call)
        out += exp
        if r.random() < .3:       # the same once more
            if r.random() < .5:
                L.append('printf("%%q%%q", %s, %s)' % (shared.e, shared.e))
                out += shared.q * 2
            L.append(call)
            out += exp
        ctx.count('specifiers formatted', len(args))
    c = Case(gen.setup(std='lad6i', extra=X))
    src = '\n'.join(L)
    c.add('compile', 0, 'm', src.encode('latin-1'))
    progs.begin(c, gc=r.choice([0, 0, 1]))
    c.add('run', 0)
    c.add('out')
    progs.finish(c)
    exp = ['compile 0 ok', 'done 0 sp=0 fc=0', 'out "%s"' % escq(out.decode('latin-1'))]
    yield Unit([(r.choice(['asan', 'fast', 'msan']), c)], lambda rs: diff(exp, rs[0].lines), src, src)


class F:
    def __init__(self):
        self.h = None


def p_files(ctx):
    r = ctx.rng
    L, ev, lines = [], [], []
    disk = {}
    names = ['a.txt', 'b.bin', 'sub.dat', 'with space']
    c = Case(gen.setup(std='lad6i', extra=X))
    c.add('tmpdir')
    for nm in names:
        if r.random() < .5:
            s = rndstr(r) * r.choice([1, 1, 3])
            disk[nm] = bytearray(s)
            c.add('mkfile', nm, s)
    nh = 0
    open_ = {}          # name -> handle dict

    def show(b):
        return progs.emitted(bytes(b))
    for _ in range(r.choice([3, 10, 40])):
        k = r.randrange(12)
        if k < 3 and len(open_) < 3:
            nm = r.choice([x for x in names if x not in open_])
            mode = r.choice(['r', 'rb', 'r+', 'w', 'wb', 'w+', 'a', 'a+', 'rb+', 'wb+', 'ab'])
            nh += 1
            h = 'h%d' % nh
            L.append('%s := fopen("%s", "%s")' % (h, nm, mode))
            if 'r' in mode and nm not in disk:
                L.append('emit(cast(%s, any) == null)' % h)
                ev.append(progs.emitted(True))
                continue
            if 'w' in mode or nm not in disk:
                disk[nm] = bytearray()
            open_[nm] = dict(h=h, mode=mode, pos=0, last=None, rd='r' in mode or '+' in mode, wr='r' not in mode or '+' in mode)
            if 'a' in mode and '+' in mode:
                L.append('fseek(%s, 0)' % h)
        elif k < 9 and open_:
            nm = r.choice(sorted(open_))
            o = open_[nm]
            h = o['h']
            d = disk[nm]
            q = r.randrange(10)
            if q < 3 and o['rd']:
                if o['last'] == 'w':
                    L.append('fseek(%s, %d)' % (h, o['pos']))
                n = r.choice([0, 1, 2, 5, len(d), len(d) + 1, 3 * len(d) + 100, max(len(d) - 1, 0), 4096])
                got = bytes(d[o['pos']:o['pos'] + n])
                L.append('emit(fread(%s, %d))' % (h, n))
                ev.append(show(got))
                o['pos'] += len(got)
                o['last'] = 'r'
            elif q < 7 and o['wr']:
                if o['last'] == 'r':
                    L.append('fseek(%s, %d)' % (h, o['pos']))
                s = rndstr(r)
                e = strlit(r, s)
                if e is None:
                    continue
                if 'a' in o['mode']:
                    o['pos'] = len(d)
                if r.random() < .5:
                    m = r.randrange(len(s) + 1)
                    L.append('emit(fwrite(%s, %s, %d))' % (h, e, m))
                    s = s[:m]
                else:
                    L.append('emit(fwrite(%s, %s))' % (h, e))
                ev.append(progs.emitted(len(s)))
                if s:
                    if len(d) < o['pos']:
                        d.extend(b'\0' * (o['pos'] - len(d)))
                    d[o['pos']:o['pos'] + len(s)] = s
                    o['pos'] += len(s)
                o['last'] = 'w'
            elif q == 7:
                p = r.choice([0, 0, 1, len(d), r.randrange(len(d) + 1), len(d) + r.randrange(10) if o['wr'] else 0, r.randrange(65500, 200000) if o['wr'] and r.random() < .2 else 0])
                L.append('fseek(%s, %d)' % (h, p))
                o['pos'] = p
                o['last'] = None
            elif q == 8:
                L.append('emit(fsize(%s))' % h)
                ev.append(progs.emitted(len(d)))
                o['pos'] = 0
                o['last'] = None
            else:
                L.append('fclose(%s)' % h)
                del open_[nm]
        else:
            free = [x for x in names if x not in open_]
            if not free:
                continue
            nm = r.choice(free)
            q = r.randrange(4)
            if q == 0:
                s = rndstr(r)
                e = strlit(r, s)
                if e is None:
                    continue
                L.append('emit(write_file("%s", %s))' % (nm, e))
                ev.append(progs.emitted(True))
                disk[nm] = bytearray(s)
            elif q == 1:
                L.append('emit(write_file("no/such/%s", "x"))' % nm)
                ev.append(progs.emitted(False))
            elif nm in disk:
                L.append('emit(read_file("%s"))' % nm)
                ev.append(show(disk[nm]))
            else:
                L.append('emit(cast(read_file("%s"), any) == null)' % nm)
                ev.append(progs.emitted(True))
        if r.random() < .1:
            L.append('garbage(20)')
    for nm in sorted(open_):
        L.append('fclose(%s)' % open_[nm]['h'])
    src = '\n'.join(L) or 'emit(1)'
    if not L:
        ev = [progs.emitted(1)]
    c.add('compile', 0, 'm', src.encode('latin-1'))
    progs.begin(c, gc=r.choice([0, 0, 1, 2]))
    c.add('run', 0)
    progs.finish(c)
    exp = ['compile 0 ok'] + ev + ['done 0 sp=0 fc=0']
    for nm in names:
        c.add('readfile', nm)
        exp.append('file %s missing' % nm if nm not in disk else 'file %s "%s"' % (nm, escq(disk[nm].decode('latin-1'))))
    ctx.count('file operations', len(L))
    yield Unit([(r.choice(['asan', 'fast', 'msan']), c)], lambda rs: diff(exp, rs[0].lines), src, src)


def p_many(ctx):
    """Many files one after the other; few descriptors are allowed."""
    r = ctx.rng
    n = r.choice([300, 500])
    k = ctx.i % 6
    c = Case(gen.setup(std='lad6i'))
    c.add('tmpdir')
    body = ['write_file("f", int_to_str(i)) if read_file("f") != int_to_str(i) { emit("bad", i) }',
            'h := fopen("f", "w") fwrite(h, int_to_str(i)) fclose(h) if read_file("f") != int_to_str(i) { emit("bad", i) }',
            'write_file("f", int_to_str(i)) h := fopen("f", "r") if fread(h, 100) != int_to_str(i) { emit("bad", i) } fclose(h)',
            'h := fopen("f", "a") fwrite(h, "x") if fsize(h) != i + 1 { emit("size", i) } fclose(h)',
            'write_file("f", "") if read_file("f") != "" { emit("bad", i) } if write_file("no/such", "x") { emit("bad", i) } h := fopen("f", "r") if fread(h, i) != "" { emit("bad", i) } fclose(h)',
            'h := fopen("f", "a+") fwrite(h, int_to_str(i)) fseek(h, 0) fread(h, 9999) fread(h, 5) fclose(h) read_file("none") h2 := fopen("none", "r") if cast(h2, any) != null { emit("bad", i) } write_file("f", "ab")'][k]
    src = 'for i := 0; i < %d; i += 1 { %s }\nemit(strlen(read_file("f")))' % (n, body)
    c.add('compile', 0, 'm', src)
    progs.begin(c)
    c.add('run', 0)
    progs.finish(c)
    exp = ['compile 0 ok', progs.emitted(([len(str(n - 1))] * 3 + [n, 0, 2])[k]), 'done 0 sp=0 fc=0']
    yield Unit([(r.choice(['asan', 'fast']), c)], lambda rs: diff(exp, rs[0].lines), '%d %d' % (k, n), src)


def p_cycle(ctx):
    """Values that contain themselves, directly or not: what is printed for the inner one is not
    fixed, but printing ends, and prints the same again."""
    r = ctx.rng
    L = list(PRE)
    k = r.randrange(6)
    d = r.randrange(1, 6)
    if k == 4:
        L.append('a := new T3 { 1, null, "s" } b := a ' + ' '.join('a.%s = cast(a, any)' % f for f in r.sample('abc', r.randrange(2, 4))))
    elif k == 5:
        L.append('a := array_any(1) b := a for i := 0; i < %d; i += 1 { array_any_push(a, cast(a, any)) }' % (d + 1))
    elif k == 0:
        L.append('a := new T3 { 1, null, "s" } b := a for i := 0; i < %d; i += 1 { b = new T3 { 2, cast(b, any), null } } a.b = cast(b, any)' % d)
    elif k == 1:
        L.append('a := array_any(1) b := a for i := 0; i < %d; i += 1 { b = array_any(cast(b, any), "x") } array_any_push(a, cast(b, any))' % d)
    elif k == 2:
        L.append('a := new P { 1, 2.0, "s", cast(null, P?) } a.n = a')
    else:
        L.append('a := new T3 { 1, null, "s" } b := array_any(cast(a, any), cast(a, any)) a.b = cast(b, any) a.c = cast(b, any)')
    q = ['printf("%%q|", %s)' % r.choice(['a', 'b'] if k != 2 else ['a'])] * 2
    L += q
    src = '\n'.join(L)
    c = Case(gen.setup(std='lad6i', extra=X))
    c.add('compile', 0, 'm', src)
    progs.begin(c, gc=r.choice([0, 1]))
    c.add('run', 0)
    c.add('out')
    progs.finish(c)

    def judge(rs):
        l = rs[0].lines
        if l[:2] != ['compile 0 ok', 'done 0 sp=0 fc=0'] or not l[2].startswith('out "'):
            return diff(['compile 0 ok', 'done 0 sp=0 fc=0'], l)
        p = l[2][5:-1].split('|')
        if len(p) != 3 or p[0] != p[1] or not p[0] or p[0][-1] not in ']}' or p[0][0] not in 's[':
            return 'a value that contains itself is printed as ' + l[2][:300]
    yield Unit([(r.choice(['asan', 'fast']), c)], judge, src, src)


def p_input(ctx):
    r = ctx.rng
    parts = []
    for _ in range(r.choice([0, 1, 3, 10])):
        n = r.choice([0, 1, 5, 6, 7, 8, 9, 14, 15, 16, 17, 31, 32, 63, 64, 100, 255, 256, 1000, 5000])
        parts.append(bytes(r.choice(b'abcXYZ 019\t"\\%\r\xff\x80\0') for _ in range(n)))
    data = b'\n'.join(parts)
    if r.random() < .5:
        data += b'\n'
    lines = data.split(b'\n')
    if lines[-1] == b'':
        lines.pop()
    L, ev, out = [], [], b''
    for k in range(len(lines) + r.randrange(0, 4)):
        if r.random() < .5:
            L.append('emit(input())')
        else:
            p = rndstr(r, zeros=False)
            L.append('emit(input(%s))' % strlit(r, p))
            out += p
        ev.append(progs.emitted(lines[k] if k < len(lines) else b''))
        if r.random() < .2:
            L.append('printf("|")')
            out += b'|'
    c = Case(gen.setup(std='lad6i', extra=X))
    c.add('tmpdir')
    c.add('stdin', data)
    src = '\n'.join(L) + '\nemit(99)'
    c.add('compile', 0, 'm', src.encode('latin-1'))
    progs.begin(c, gc=r.choice([0, 1]))
    c.add('run', 0)
    c.add('out')
    progs.finish(c)
    ctx.count('lines read', len(L))
    exp = ['compile 0 ok'] + ev + [progs.emitted(99), 'done 0 sp=0 fc=0', 'out "%s"' % escq(out.decode('latin-1'))]
    yield Unit([(r.choice(['asan', 'fast', 'msan']), c)], lambda rs: diff(exp, rs[0].lines), src.encode('latin-1') + data, src)


def p_large(ctx):
    """Strings, files, lines and values much larger than any buffer on the way."""
    r = ctx.rng
    unit = ''.join(r.choice('abcdefghij 0123%\n') for _ in range(r.choice([1, 61, 97, 255]))).encode()
    unit = unit.replace(b'%', b'#') if r.random() < .5 else unit
    k = r.choice([4, 8, 10])
    while len(unit) << k > 300000:
        k -= 1
    s = unit * (1 << k)
    n = r.choice([1, 4095, 32767, 32769, 65535, 65536, 65537, len(s), len(s) - 1, r.randrange(len(s))])
    n = min(n, len(s))
    w = r.choice([50, 129, 255])
    m = r.choice([300, 1025, 5000])
    L = ['use array("int") as array_int', 'use array("any") as array_any', 'struct W { %s }' % ' '.join('f%d: any' % i for i in range(w)),
         's := %s' % lang_lit(unit), 'for i := 0; i < %d; i += 1 { s = strcat(s, s) }' % k, 'emit(strlen(s))',
         'emit(write_file("f", s), read_file("f") == s)',
         'h := fopen("g", "w+") emit(fwrite(h, s, %d), fsize(h)) fseek(h, %d) emit(fwrite(h, s))' % (n, n),
         'fseek(h, 0) emit(fread(h, %d) == substr(s, 0, %d)) emit(fread(h, %d) == s) emit(strlen(fread(h, %d))) fclose(h)' % (n, n, len(s), len(s)),
         'emit(read_file("g") == strcat(substr(s, 0, %d), s))' % n,
         'a := array_any() for j := 0; j < %d; j += 1 { array_any_push(a, cast(j * 7, any)) }' % m]
    ev = [progs.emitted(len(s)), progs.emitted(True, True), progs.emitted(n, n), progs.emitted(len(s)), progs.emitted(True), progs.emitted(True), progs.emitted(0), progs.emitted(True)]
    out = b''
    for q in r.sample(['s', 'q', 'a', 'w', 'f', 'p'], 3):
        if q == 's':
            L.append('printf("<%s>", s)')
            out += b'<' + s + b'>'
        elif q == 'q':
            L.append('printf("<%q>", s)')
            out += b'<"' + s + b'">'
        elif q == 'a':
            L.append('printf("%q", a)')
            out += b'[' + b', '.join(b'%d' % (j * 7) for j in range(m)) + b']'
        elif q == 'w':
            L.append('wv := new W { %s } printf("%%q", wv) printf("%%q", wv)' % ', '.join('cast(%d, any)' % i for i in range(w)))
            out += (b'struct {' + b', '.join(b'%d' % i for i in range(w)) + b'}') * 2
        elif q == 'f':
            f = s.replace(b'%', b'%%')
            L.append('t := %s for i9 := 0; i9 < %d; i9 += 1 { t = strcat(t, t) } printf(t)' % (lang_lit(unit.replace(b'%', b'%%')), k))
            out += s
        else:
            c = r.choice([10, 60, 200])
            L.append('printf("%s", %s)' % ('%i,' * c, ', '.join(map(str, range(c)))))
            out += b''.join(b'%d,' % i for i in range(c))
    ls = [bytes([r.choice(b'abcxyz 09')]) * r.choice([5000, 65535, 65536, 65537, 131071, 131072, 200000]) for _ in range(2)]
    ls[0] = ls[0][:-3] + b'end'
    for l in ls:
        L.append('l%d := input() emit(strlen(l%d), substr(l%d, %d, %d))' % ((len(L),) * 3 + (len(l) - 5, len(l))))
        ev.append(progs.emitted(len(l), l[-5:]))
    c = Case(gen.setup(std='lad6i', extra=X))
    c.add('tmpdir')
    c.add('stdin', b'\n'.join(ls) + r.choice([b'', b'\n']))
    src = '\n'.join(L)
    c.add('compile', 0, 'm', src.encode('latin-1'))
    progs.begin(c, gc=r.choice([0, 1]))
    c.add('run', 0)
    c.add('out')
    progs.finish(c)
    exp = ['compile 0 ok'] + ev + ['done 0 sp=0 fc=0', 'out "%s"' % escq(out.decode('latin-1'))]
    c.add('readfile', 'f')
    exp.append('file f "%s"' % escq(s.decode('latin-1')))
    ctx.count('bytes in large files', 2 * len(s) + n)
    yield Unit([(r.choice(['asan', 'fast', 'msan']), c)], lambda rs: diff(exp, rs[0].lines), src.encode('latin-1'), src)


def families(tier):
    v = ('asan', 'fast', 'msan')
    return [
        Fam('large', p_large, 30, 400, v, cpu=60),
        Fam('printf', p_printf, 2500, 20000, v),
        Fam('files', p_files, 2500, 20000, v),
        Fam('many', p_many, 8, 16, ('asan', 'fast')),
        Fam('cycle', p_cycle, 60, 300, ('asan', 'fast')),
        Fam('input', p_input, 1000, 8000, v),
    ]
