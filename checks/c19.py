"""C19: string and math library functions compute their definitions."""
import math, struct
from vlib import progs, gen, lang
from vlib.core import Fam, Unit, diff
from vlib.run import Case, cmd
from checks.c15 import hv, lang_lit

SCALE = 6
RULE = ('Every string and numeric function of the standard library applied to generated arguments: literals, values computed by the program and values handed in by the host (any bytes, embedded zeros, lengths '
        '0 to tens of thousands, all bounds, numbers at the limits of their ranges, texts that are almost numbers); each result must be the one the definition gives, and the arguments must be unchanged '
        'afterwards. Distinct by argument sets.')

WRAP = '''
func w_strlen(s: str): int { return strlen(s) }
func w_stridx(s: str, i: int): int { return stridx(s, i) }
func w_sget(s: str, i: int): int { return sget(s, i) }
func w_index(s: str, i: int): int { return s[i] }
func w_getidx(s: str, i: int): int { return str_get_index(s, i) }
func w_strchr(s: str, c: int): int { return strchr(s, c) }
func w_strcat(a: str, b: str): str { return strcat(a, b) }
func w_strcat3(a: str, b: str, c: str): str { return strcat(a, b, c) }
func w_strcat5(a: str, b: str, c: str, d: str, e: str): str { return strcat(a, b, c, d, e) }
func w_substr(s: str, a: int, b: int): str { return substr(s, a, b) }
func w_ston(s: str): float { return ston(s) }
func w_str_to_int(s: str): int { return str_to_int(s) }
func w_stoi(s: str, b: int): int { return stoi(s, b) }
func w_int_to_str(i: int): str { return int_to_str(i) }
func w_ntosi(i: int): str { return ntos(i) }
func w_ntosf(f: float): str { return ntos(f) }
func w_floor(f: float): float { return floor(f) }
func w_ceil(f: float): float { return ceil(f) }
func w_int(f: float): int { return int(f) }
func w_float(i: int): float { return float(i) }
func w_eq(a: str, b: str): bool { return a == b }
func w_ne(a: str, b: str): bool { return a != b }
func w_round(s: str): str { return strcat(substr(s, 0, strlen(s) / 2), substr(s, strlen(s) / 2, -1)) }
func w_copy(s: str): bool { t := "" for i := 0; i < strlen(s); i += 1 { t = strcat(t, substr(s, i, i + 1)) } return t == s }
func w_sum(s: str): int { t := 0 for i := 0; i < strlen(s); i += 1 { t = t * 3 % 1000003 + s[i] } return t }
'''


def sc(b):
    return b - 256 if b > 127 else b


def f32(x):
    try:
        return struct.unpack('<f', struct.pack('<f', x))[0]
    except OverflowError:
        return math.copysign(math.inf, x)


def fmtg(x):
    return ('%g' % x).encode()


WS = b' \t\n\v\f\r'


def strtoll(s, base):
    """(value, in range)"""
    s = s.split(b'\0')[0]
    i = 0
    while i < len(s) and s[i] in WS:
        i += 1
    neg = False
    if i < len(s) and s[i] in b'+-':
        neg = s[i] == 45
        i += 1
    dig = b'0123456789abcdefghijklmnopqrstuvwxyz'

    def ok(c, b):
        return 0 <= dig.find(bytes([c]).lower()) < b
    if base in (0, 16) and s[i:i + 2].lower() == b'0x' and i + 2 < len(s) and ok(s[i + 2], 16):
        i += 2
        base = 16
    elif base == 0:
        base = 8 if s[i:i + 1] == b'0' else 10
    v = 0
    while i < len(s) and ok(s[i], base):
        v = v * base + dig.find(bytes([s[i]]).lower())
        i += 1
    if neg:
        v = -v
    return v, -(1 << 63) <= v < (1 << 63)


import re
FLT = re.compile(rb'[ \t\n\v\f\r]*([+-]?(?:[0-9]+\.?[0-9]*|\.[0-9]+)(?:[eE][+-]?[0-9]+)?)')


def rstr(r, nul=True):
    k = r.randrange(7)
    n = r.choice([0, 1, 2, 3, 7, 8, 15, 16, 31, 64, 255, 256, 1000]) if r.random() < .5 else r.randrange(0, 30)
    if k == 0:
        s = bytes(r.randrange(0, 256) for _ in range(n))
    elif k == 1:
        s = bytes(r.choice(b'ab') for _ in range(n))
    elif k == 2:
        s = bytes(r.choice([0, 1, 97, 255, 128, 127]) for _ in range(n))
    elif k == 3:
        s = b'x' * n
    else:
        s = bytes(r.randrange(32, 127) for _ in range(n))
    return s if nul else s.replace(b'\0', b'.')


def rint(r):
    return r.choice([0, 1, -1, 9, 10, -10, 99, 100, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 2147483647, 2147483648, -2147483648, -2147483649, 4294967295, 4294967296,
                     lang.INT_MAX, -lang.INT_MAX - 1, r.randrange(-1 << 63, 1 << 63), r.randrange(-10 ** 9, 10 ** 9), 10 ** 18, -10 ** 18, 10 ** r.randrange(19)])


def rflt(r):
    return r.choice([0.0, 0.5, -0.5, 1.5, 2.5, -2.5, 0.1, 1e10, -1e10, 123456.789, 2147483647.5, 2147483648.0, -2147483648.5, 4294967296.75, 1e15 + .5, 1e18, -1e18, 9.0e18, 1e-10, 0.999999999,
                     -0.999999999, r.uniform(-1e6, 1e6), r.uniform(-1e12, 1e12), float(r.randrange(-1000, 1000)), r.randrange(1 << 53) / 1024.0])


def rbig(r):
    if r.random() < .8:
        return rflt(r)
    return r.choice((1, -1)) * r.choice([2.0 ** 62, 2.0 ** 63, 2.0 ** 64, 1e19, 1e25, 1e100, 1e300, 2.0 ** 52 + .5, 2.0 ** 53 - 1, 2.0 ** 31 - .5, 2.0 ** 32 + .25, 5e-324, 1e-300, 0.49999999999999994])


def rnum(r):
    """Text of numbers and of almost numbers."""
    k = r.randrange(10)
    if k == 0:
        return b'%d' % rint(r)
    if k == 1:
        return r.choice([b' ', b'\t', b'', b'\n']) + r.choice([b'+', b'-', b'']) + b'%d' % r.randrange(10 ** r.randrange(1, 18)) + r.choice([b'', b' ', b'x', b'.5', b'e3', b'-1'])
    if k == 2:
        return r.choice([b'0x', b'0X', b'-0x', b'0', b'']) + b'%x' % r.randrange(1 << r.randrange(1, 62)) + r.choice([b'', b'g', b'zz'])
    if k == 3:
        return r.choice([b'', b'-', b'+', b'abc', b'-abc', b'.', b'--1', b'+-1', b' ', b'0x', b'0xg', b'z', b'00', b'007', b'09', b'1 2', b'1_000', b'\0001'])
    if k == 4:
        return bytes(r.choice(b'0123456789abcdefghijklmnopqrstuvwxyzABCXYZ') for _ in range(r.randrange(1, 11)))
    if k == 5:
        return ('%.*f' % (r.randrange(0, 7), r.uniform(-10000, 10000))).encode()
    if k == 6:
        return ('%.*e' % (r.randrange(0, 7), r.uniform(-10, 10) * 10 ** r.randrange(-20, 20))).encode()
    if k == 7:
        return r.choice([b'1.', b'.5', b'-.5', b'1e5', b'1e', b'1e+', b'1.5.5', b'3.25abc', b'   2.5', b'-0', b'-0.0', b'1E-2', b'100000000', b'16777217', b'0.1', b'3.4e38'])
    return b'%d' % r.randrange(-1000, 1000)


def one(r):
    """(function, arguments, result) ; result NotImplemented when the arguments are outside of the domain"""
    k = r.randrange(25)
    s = rstr(r)
    n = len(s)
    if k == 0:
        return 'w_strlen', [s], n
    if k in (1, 2, 3, 4):
        f = ['w_stridx', 'w_sget', 'w_index', 'w_getidx'][k - 1]
        if not n:
            s, n = b'q', 1
        i = r.choice([0, n - 1, r.randrange(n)])
        return f, [s, i], sc(s[i])
    if k == 5:
        if r.random() < .4:      # at one place only
            n = r.choice([1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 192, 255, 256, 257, 512, 1024, r.randrange(1, 600)])
            b = bytearray(b'y' * n)
            b[r.choice([0, n - 1, n - 1, r.randrange(n)])] = 120
            return 'w_strchr', [bytes(b), 120], b.find(b'x')
        c = r.choice([r.randrange(1, 256), s[r.randrange(n)] if n else 97]) or 97
        if r.random() < .3:
            c = sc(c)
        return 'w_strchr', [s, c], s.find(bytes([c & 255]))
    if k == 6:
        b = rstr(r)
        return 'w_strcat', [s, b], s + b
    if k == 7:
        b, c = rstr(r), rstr(r)
        return 'w_strcat3', [s, b, c], s + b + c
    if k == 8:
        p = [rstr(r) for _ in range(5)]
        return 'w_strcat5', p, b''.join(p)
    if k in (9, 10, 11):
        a = r.choice([0, n, r.randrange(n + 1)])
        b = r.choice([-1, n, a, r.randrange(a, n + 1), min(n, a + 1)])
        return 'w_substr', [s, a, b], s[a:n if b == -1 else b]
    if k == 12:
        t = rnum(r)
        m = FLT.match(t.split(b'\0')[0])
        if not m:
            if re.match(rb'[ \t\n\v\f\r]*[+-]?(inf|nan|0x)', t, re.I):
                return None
            return 'w_ston', [t], 0.0
        if re.match(rb'[ \t\n\v\f\r]*[+-]?0x', t, re.I):
            return None
        return 'w_ston', [t], f32(float(m.group(1)))
    if k == 13:
        t = rnum(r)
        v, ok = strtoll(t, 10)
        return ('w_str_to_int', [t], v) if ok else None
    if k in (14, 15):
        t = rnum(r)
        b = r.choice([10, 16, 2, 8, 36, 0, 3, 35, r.randrange(2, 37)])
        v, ok = strtoll(t, b)
        return ('w_stoi', [t, b], v) if ok else None
    if k == 16:
        i = rint(r)
        return 'w_int_to_str', [i], b'%d' % i
    if k == 17:
        i = rint(r)
        return 'w_ntosi', [i], fmtg(f32(float(i)))
    if k == 18:
        f = rflt(r)
        return 'w_ntosf', [f], fmtg(f32(f))
    if k == 19:
        f = rbig(r)
        v = float(math.floor(f))
        return 'w_floor', [f], v
    if k == 20:
        f = rbig(r)
        v = float(math.ceil(f))
        return 'w_ceil', [f], -0.0 if v == 0 and f < 0 else v
    if k == 21:
        f = rflt(r)
        return 'w_int', [f], int(f)
    if k == 22:
        i = rint(r)
        return 'w_float', [i], float(i)
    if k == 23:
        b = r.choice([s, s, s[:-1], s + b'\0', s + b'x', s[:n // 2] + b'?' + s[n // 2 + 1:], rstr(r), s[::-1]])
        e = r.random() < .5
        return ('w_eq', [s, b], s == b) if e else ('w_ne', [s, b], s != b)
    f = r.choice(['w_round', 'w_copy', 'w_sum'])
    if f == 'w_round':
        return f, [s], s
    if len(s) > 70:
        s = s[:70]
    if f == 'w_copy':
        return f, [s], True
    t = 0
    for c in s:
        t = int(math.fmod(t * 3, 1000003)) + sc(c)
    return f, [s], t


def p_host(ctx):
    r = ctx.rng
    c = Case(gen.setup())
    c.add('compile', 0, 'm', WRAP)
    progs.begin(c, gc=r.choice([0, 0, 1, 2]), seed=r.randrange(99))
    c.add('run', 0)
    exp = ['compile 0 ok', 'done 0 sp=0 fc=0']
    n = 0
    key = []
    while n < 60:
        o = one(r)
        if o is None:
            continue
        f, a, v = o
        c.add('call', 0, f, *[hv(x) if not isinstance(x, bytes) else r.choice([b's:', b'o:', b'c:' if 0 not in x else b's:']) + x for x in a])
        exp.append('ret 0 ' + lang.ser(v))
        n += 1
    progs.finish(c)
    ctx.count('calls', n)

    def judge(rs):
        l = rs[0].lines
        d = diff(exp, l)
        if d:
            k = next((i for i, (x, y) in enumerate(zip(exp, l)) if x != y), len(l))
            calls = [x for x in c.cmds if x.startswith('call ')]
            return '%s: %s' % (calls[k - 2][:300] if k >= 2 and k - 2 < len(calls) else '', d)
    yield Unit([(r.choice(['asan', 'fast', 'asan']), c)], judge, '\n'.join(c.cmds), None)


def p_text(ctx):
    """The same in program text: literals and computed strings; arguments stay as they are."""
    r = ctx.rng
    L, ev = [], []

    def arg(v):
        """(source, needs variable)"""
        if isinstance(v, bytes):
            t = lang_lit(v)
            k = r.randrange(4)
            if k == 1:
                h = r.randrange(len(v) + 1)
                return 'strcat(%s, %s)' % (lang_lit(v[:h]), lang_lit(v[h:]))
            if k == 2:
                return 'substr(%s, 2, %s)' % (lang_lit(b'..' + v), '-1' if r.random() < .5 else str(len(v) + 2)) if v else '""'
            return t
        if isinstance(v, float):
            return None
        return lang_lit(v)
    j = 0
    while j < 40:
        o = one(r)
        if o is None:
            continue
        f, a, v = o
        if any(isinstance(x, bytes) and (0 in x or 13 in x or len(x) > 300) for x in a) or f not in NAMES:
            continue
        if any(isinstance(x, int) and x == -lang.INT_MAX - 1 for x in a):
            continue
        src = [arg(x) for x in a]
        if any(x is None for x in src):
            src = [s if s is not None else lang_lit(x) for s, x in zip(src, a)]
            if any(isinstance(x, float) and (abs(x) > 1e15 or 0 < abs(x) < 1e-5) for x in a):
                continue
        names = []
        keep = r.random() < .5
        if keep:
            for q, s in enumerate(src):
                L.append('v%d_%d := %s' % (j, q, s))
                names.append('v%d_%d' % (j, q))
        else:
            names = src
        g = NAMES[f]
        if g in ('==', '!='):
            e = '%s %s %s' % (names[0], g, names[1])
        elif g == '[]':
            e = '%s[%s]' % (names[0] if keep else '(%s)' % names[0], names[1])
        elif r.random() < .3 and keep:
            e = '%s -> %s(%s)' % (names[0], g, ', '.join(names[1:]))
        else:
            e = '%s(%s)' % (g, ', '.join(names))
        L.append('r%d := %s' % (j, e))
        L.append('emit(r%d)' % j)
        ev.append(progs.emitted(v))
        if keep:
            if r.random() < .3:
                L.append('garbage(20)')
            L.append('emit(%s)' % ', '.join(names + ['r%d' % j]))
            ev.append(progs.emitted(*a, v))
        j += 1
    src = '\n'.join(L)
    yield progs.text_unit(src, ev, var=r.choice(['asan', 'fast']), gc=r.choice([0, 0, 1, 2]), seed=r.randrange(99))


NAMES = {'w_strlen': 'strlen', 'w_stridx': 'stridx', 'w_sget': 'sget', 'w_index': '[]', 'w_getidx': 'str_get_index', 'w_strchr': 'strchr', 'w_strcat': 'strcat', 'w_strcat3': 'strcat',
         'w_strcat5': 'strcat', 'w_substr': 'substr', 'w_ston': 'ston', 'w_str_to_int': 'str_to_int', 'w_stoi': 'stoi', 'w_int_to_str': 'int_to_str', 'w_ntosi': 'ntos', 'w_ntosf': 'ntos',
         'w_floor': 'floor', 'w_ceil': 'ceil', 'w_int': 'int', 'w_float': 'float', 'w_eq': '==', 'w_ne': '!='}


def p_long(ctx):
    """Long strings."""
    r = ctx.rng
    n = r.choice([4095, 4096, 5000, 65535, 65536, 70000, 200000])
    s = bytes(r.randrange(0, 256) for _ in range(997)) * (n // 997 + 1)
    s = s[:n]
    a, b = sorted((r.randrange(n + 1), r.randrange(n + 1)))
    c = Case(gen.setup())
    c.add('compile', 0, 'm', WRAP)
    progs.begin(c, gc=r.choice([0, 1]))
    c.add('run', 0)
    exp = ['compile 0 ok', 'done 0 sp=0 fc=0']

    def call(f, v, *args):
        c.add('call', 0, f, *[hv(x) for x in args])
        exp.append('ret 0 ' + lang.ser(v))
    call('w_strlen', n, s)
    call('w_substr', s[a:b], s, a, b)
    call('w_substr', s[a:], s, a, -1)
    call('w_stridx', sc(s[-1]), s, n - 1)
    call('w_strcat', s + s[:b], s, s[:b])
    call('w_eq', True, s, s)
    call('w_eq', False, s, s[:-1] + bytes([s[-1] ^ 1]))
    call('w_strchr', s.find(bytes([s[b - 1] or 7 if b else 7])), s, s[b - 1] or 7 if b else 7)
    progs.finish(c)
    yield Unit([(r.choice(['asan', 'fast']), c)], lambda rs: diff(exp, rs[0].lines), '\n'.join(c.cmds), None)


def p_cat(ctx):
    """strcat of any number of strings."""
    r = ctx.rng
    L, ev = [], []
    for _ in range(12):
        p = [rstr(r)[:r.choice([0, 1, 5, 30, 100])] for _ in range(r.choice([2, 3, 4, 7, 8, 9, 12, 16, 17, 32, 40, 100, 200]))]
        e = ['mkbytes(%s)' % ', '.join(map(str, s)) if (0 in s or 13 in s or r.random() < .2) and s else lang_lit(s) for s in p]
        L.append('emit(strcat(%s))' % ', '.join(e))
        ev.append(progs.emitted(b''.join(p)))
    ctx.count('calls', 12)
    yield progs.text_unit('\n'.join(L), ev, var=r.choice(['asan', 'fast', 'msan']), gc=r.choice([0, 0, 1, 2]), seed=r.randrange(99), extra=[cmd('bind', '0', 'mkbytes(...): str', 'mkbytes')])


def p_misc(ctx):
    """rand/srand/time, and results that are fresh values."""
    r = ctx.rng
    seed = r.randrange(1 << 31)
    k = r.randrange(1, 20)
    src = '''
use array("int") as array_int
srand(%d)
a := array_int()
for i := 0; i < %d; i += 1 { a -> array_int_push(rand()) }
srand(%d)
same := true
pos := true
for i2 := 0; i2 < %d; i2 += 1 { x := rand() same = same && x == a[i2] pos = pos && x >= 0 }
emit(same, pos)
t := time()
emit(t > 1600000000, time() >= t, time() - t < 100)
s := strcat("ab", "cd")
p := substr(s, 0, 4)
q := substr(s, 0, -1)
e := substr(s, 2, 2)
emit(p == s, q == s, e == "", strlen(e))
s = strcat(s, "ef")
emit(p, q, s, e)
emit(strcat("", ""), strlen(strcat("", "")), substr("", 0, 0), substr("", 0, -1), strcat("", "x", ""))
l := "lit"
m := strcat(l, "")
emit(m == l, l, m)
''' % (seed, k, seed, k)
    ev = [progs.emitted(True, True), progs.emitted(True, True, True), progs.emitted(True, True, True, 0), progs.emitted(b'abcd', b'abcd', b'abcdef', b''),
          progs.emitted(b'', 0, b'', b'', b'x'), progs.emitted(True, b'lit', b'lit')]
    yield progs.text_unit(src, ev, var='asan', gc=r.choice([0, 1]))


def families(tier):
    v = ('asan', 'fast')
    return [
        Fam('host', p_host, 500, 12000, v),
        Fam('text', p_text, 400, 9000, v),
        Fam('long', p_long, 24, 300, v),
        Fam('concatenation', p_cat, 150, 3000, v + ('msan',)),
        Fam('misc', p_misc, 10, 100, ('asan',)),
    ]
