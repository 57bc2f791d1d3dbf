"""C20: equality is a consistent equivalence on values."""
import struct
from vlib import progs, gen, lang
from vlib.core import Fam, Unit, diff
from vlib.run import Case, cmd
from checks.c15 import hv, lang_lit

SCALE = 6
RULE = ('All pairs of large random sets of values are compared with ==, !=, the host comparison and as dictionary keys: null, booleans, integers and floats at the limits of their ranges and close together, strings '
        'of equal and nearly equal contents made in every way (literal, computed, owned, constant, embedded zeros), light and ordinary native values, structs, arrays, dictionaries and aliases of them. The '
        'whole matrix must be the one the definition gives, which is reflexive, symmetric and transitive. Distinct by value sets.')

INTS = [0, 1, -1, 2, 97, 255, 256, 1 << 31, (1 << 31) - 1, -(1 << 31), 1 << 32, (1 << 32) + 1, (1 << 53), (1 << 53) + 1, lang.INT_MAX, lang.INT_MAX - 1, -lang.INT_MAX - 1, 1 << 62]
FLTS = [0.0, -0.0, 1.0, -1.0, 2.0, 97.0, 0.1, 0.1 + 2 ** -56, 0.30000000000000004, 0.3, 5e-324, 1e300, float(1 << 53), float(lang.INT_MAX), 1.0000000000000002, float('inf'), float('-inf')]
STRS = [b'', b'a', b'b', b'ab', b'aB', b'abc', b'abd', b'\0', b'\0a', b'\0b', b'a\0', b'a\0b', b'a\0c', b'0', b'1', b'true', b'null', b'x' * 100, b'x' * 99 + b'y', b'y' + b'x' * 99, b'\xff', b'\x7f', b'ab\0', b' ', b'A']


X = [cmd('bind', '0', 'mkbytes(...): str', 'mkbytes'), cmd('bind', '0', 'eqv(any, any): bool', 'eqv')]


def eq(a, b):
    """Definition of equality; objects are ('o', id)."""
    if type(a) is not type(b):
        return False
    return a == b


def p_host(ctx):
    """Tiny_AreValuesEqual on values made by the host."""
    r = ctx.rng
    vals, toks = [], []
    pool = r.sample(INTS, 8) + r.sample(FLTS, 9) + r.sample(STRS, 14) + [True, False, None, True, None]
    pool += [r.choice(pool) for _ in range(20)]
    pool += [r.randrange(-5, 5) for _ in range(4)] + [float(r.randrange(-5, 5)) for _ in range(4)]
    r.shuffle(pool)
    for v in pool:
        if isinstance(v, bytes):
            t = r.choice([b's:', b'o:', b'c:' if 0 not in v else b's:']) + v
        else:
            t = hv(v)
        vals.append(v)
        toks.append(t)
    # strings which begin alike and whose lengths agree in their low bits
    w, n = r.choice((b'', b'a', b'w' * 7)), r.choice((256, 256, 512, 65536))
    for s in (w, w + b'w' * n, w + b'w' * (n - 1) + b'v', w + b'w' * (2 * n), w + b'\0' * n):
        vals.append(s)
        toks.append(r.choice([b's:', b'o:', b'c:' if 0 not in s else b's:']) + s)
    for k in range(6):
        a = r.choice([0x10, 0x20, 1, 97, 0x100000010, 0x8000000000000010, 0x100000001, 0x1000000000010, 0x110])
        vals.append(('L', a))
        toks.append('l%x' % a)
    for k in range(8):
        a = r.choice([1, 2, 10, 12])
        kind = r.choice('KKMm')
        vals.append(('K' if kind == 'M' else kind, a))
        toks.append('%s%d' % (kind, a))
    c = Case(gen.setup(extra=X))
    c.add('compile', 0, 'm', '''func e(a: any, b: any): bool { return a == b }
func n(a: any, b: any): bool { return a != b }
func h(a: any, b: any): bool { return eqv(a, b) }
func k(a: any, b: any): bool { d := dict() dict_put(d, a, 1) return dict_exists(d, b) }
func k2(a: any, b: any): int { d := dict() dict_put(d, a, 1) dict_put(d, b, 2) return cast(dict_get(d, a), int) }
func se(a: str, b: str): bool { return a == b }
func ie(a: int, b: int): bool { return a == b }
func fe(a: float, b: float): bool { return a == b }
func be(a: bool, b: bool): bool { return a == b }
func ife(a: int, b: float): bool { return a == b || b == a }
''')
    progs.begin(c)
    c.add('eqm', 0, *toks)
    exp = ['compile 0 ok']
    for i, a in enumerate(vals):
        exp.append('eqm %d ' % i + ''.join('%d' % eq(a, b) for b in vals))
    prim = [k for k, v in enumerate(vals) if not isinstance(v, tuple) or v[0] in 'LKm']
    for _ in range(60):
        i = r.choice(prim)
        j = r.choice(prim if r.random() < .5 else [k for k in prim if type(vals[k]) is type(vals[i]) and (eq(vals[k], vals[i]) or r.random() < .4)] or prim)
        a, b = vals[i], vals[j]
        fs = ['e', 'n', 'h']
        if a is not None and b is not None:
            fs += ['k', 'k2']
        if isinstance(a, bytes) and isinstance(b, bytes):
            fs += ['se', 'se']
        if type(a) is int and type(b) is int:
            fs += ['ie']
        if type(a) is float and type(b) is float:
            fs += ['fe']
        if type(a) is bool and type(b) is bool:
            fs += ['be']
        if type(a) is int and type(b) is float:
            fs += ['ife']
        f = r.choice(fs)
        c.add('call', 0, f, toks[i], toks[j])
        v = eq(a, b)
        exp.append('ret 0 ' + ('i%d' % (2 if v else 1) if f == 'k2' else lang.ser(v != (f == 'n'))))
    progs.finish(c)
    ctx.count('pairs compared', len(vals) ** 2)
    yield Unit([(r.choice(['asan', 'fast', 'msan']), c)], lambda rs: diff(exp, rs[0].lines), '\n'.join(c.cmds), None)


PRE = '''struct P { x: int }
struct Q { x: int }
use array("any") as array_any
use array("int") as array_int
vs := array_any()
func add(v: any) { vs -> array_any_push(v) }
func row(i: int): str {
    s := ""
    for j := 0; j < array_any_len(vs); j += 1 {
        s = strcat(s, if vs[i] == vs[j] "1" else "0")
        a := vs[i] != vs[j]
        if a == (vs[i] == vs[j]) { emit("inconsistent", i, j) }
        if eqv(vs[i], vs[j]) == a { emit("host", i, j) }
        if !(vs[i] == vs[j]) != a { emit("not", i, j) }
    }
    return s
}
'''


def p_script(ctx):
    r = ctx.rng
    L, vals = [], []
    nid = [0]

    def add(e, v):
        L.append('add(%s)' % e)
        vals.append(v)

    def obj(e):
        nid[0] += 1
        n = 'o%d' % nid[0]
        L.append('%s := %s' % (n, e))
        add(n, ('o', nid[0]))
        if r.random() < .5:
            add(n, ('o', nid[0]))
        if r.random() < .3:
            L.append('%sb := %s' % (n, n))
            add('cast(%sb, any)' % n, ('o', nid[0]))
    for _ in range(r.randrange(10, 40)):
        k = r.randrange(9)
        if k == 0:
            v = r.choice(INTS)
            if v == -lang.INT_MAX - 1:
                v = 5
            add(lang_lit(v), v)
        elif k == 1:
            v = r.choice([x for x in FLTS if abs(x) < 1e15 and x != 5e-324])
            add(lang_lit(v), v)
        elif k == 2:
            v = r.random() < .5
            add(r.choice([lang_lit(v), '1 < 2' if v else '2 < 1', '!%s' % lang_lit(not v)]), v)
        elif k == 3:
            add('null', None)
        elif k in (4, 5):
            v = r.choice([x for x in STRS if 0 not in x])
            h = r.randrange(len(v) + 1)
            add(r.choice([lang_lit(v), 'strcat(%s, %s)' % (lang_lit(v[:h]), lang_lit(v[h:])), 'mkbytes(%s)' % ', '.join(map(str, v)),
                          'substr(%s, 1, %d)' % (lang_lit(b'.' + v + b'.'), len(v) + 1)]), v)
        elif k == 6:
            v = r.choice([x for x in STRS if len(x) < 9])
            add('mkbytes(%s)' % ', '.join(map(str, v)), v)
        elif k == 7:
            obj(r.choice(['new P { 1 }', 'new P { 2 }', 'new Q { 1 }', 'array_int(1)', 'array_int()', 'dict()', 'dict("a", 1)', 'mknat(1)', 'box(1)', 'new P { 1 }']))
        else:
            i = r.choice([1, 5, 1 << 31, (1 << 32) + 1, (1 << 40) + 5, (1 << 48) + 1, 257])
            add('int_to_i64(%d)' % i, ('L', i))
    ev = []
    for i, a in enumerate(vals):
        L.append('emit(row(%d))' % i)
        ev.append(progs.emitted(''.join('%d' % eq(a, b) for b in vals).encode()))
    if r.random() < .4:
        # the same after collections and a change of the objects' contents
        L.append('garbage(40)')
        L.append('gc()')
        for i, a in enumerate(vals):
            L.append('emit(row(%d))' % i)
        ev += ev
    # as dictionary keys
    L.append('d := dict()')
    m = {}
    for i, a in enumerate(vals):
        if a is None:
            continue
        k = (type(a), a)
        L.append('emit(dict_exists(d, vs[%d]))' % i)
        ev.append(progs.emitted(k in m))
        L.append('dict_put(d, vs[%d], %d)' % (i, i))
        m[k] = i
    for i, a in enumerate(vals):
        if a is not None:
            L.append('emit(dict_get(d, vs[%d]))' % i)
            ev.append(progs.emitted(m[(type(a), a)]))
    src = PRE + '\n'.join(L)
    ctx.count('pairs compared', len(vals) ** 2)
    yield progs.text_unit(src.encode('latin-1'), ev, var=r.choice(['asan', 'fast']), gc=r.choice([0, 0, 1, 2]), seed=r.randrange(99), extra=X)


def p_typed(ctx):
    """Comparisons of expressions of the same type, in every place where a condition may stand."""
    r = ctx.rng
    L, ev = ['struct P { x: int n: P? }', 'p1 := new P { 1, cast(null, P?) }', 'p2 := new P { 1, cast(null, P?) }', 'p3 := p1', 'q := new P { 2, cast(cast(p1, any), P?) }'], []

    def pair():
        k = r.randrange(6)
        if k == 0:
            a, b = r.choice(INTS[:-2]), r.choice(INTS[:-2])
            if r.random() < .5:
                b = a
            if -lang.INT_MAX - 1 in (a, b):
                a = b = 3
            return lang_lit(a), lang_lit(b), a == b
        if k == 1:
            fl = [x for x in FLTS if abs(x) < 1e15 and x != 5e-324]
            a, b = r.choice(fl), r.choice(fl)
            if r.random() < .5:
                b = a
            return lang_lit(a), lang_lit(b), a == b
        if k == 2:
            a, b = r.choice(STRS), r.choice(STRS)
            if r.random() < .5:
                b = a
            if 0 in a or 0 in b:
                return 'mkbytes(%s)' % ', '.join(map(str, a)), 'mkbytes(%s)' % ', '.join(map(str, b)), a == b
            h = r.randrange(len(a) + 1)
            return 'strcat(%s, %s)' % (lang_lit(a[:h]), lang_lit(a[h:])), lang_lit(b), a == b
        if k == 3:
            a, b = r.random() < .5, r.random() < .5
            return lang_lit(a), lang_lit(b), a == b
        if k == 4:
            ps = [('p1', 1), ('p2', 2), ('p3', 1), ('q', 3)]
            a, b = r.choice(ps), r.choice(ps)
            return a[0], b[0], a[1] == b[1]
        ps = [('p1.n', 0), ('q.n', 1), ('cast(null, P?)', 0), ('cast(cast(p3, any), P?)', 1), ('cast(cast(p2, any), P?)', 2)]
        a, b = r.choice(ps), r.choice(ps)
        return a[0], b[0], a[1] == b[1]
    for j in range(40):
        a, b, v = pair()
        op = r.choice(['==', '!='])
        v = v != (op == '!=')
        e = '%s %s %s' % (a, op, b)
        k = r.randrange(5)
        if k == 0:
            L.append('emit(%s)' % e)
            ev.append(progs.emitted(v))
        elif k == 1:
            L.append('if %s { emit(1) } else { emit(0) }' % e)
            ev.append(progs.emitted(int(v)))
        elif k == 2:
            L.append('emit(!(%s), %s)' % (e, e))
            ev.append(progs.emitted(not v, v))
        elif k == 3:
            L.append('x%d := %s\ny%d := %s\nemit(x%d %s y%d)' % (j, a, j, b, j, op, j))
            ev.append(progs.emitted(v))
        else:
            L.append('emit(if %s 7 else 8)' % e)
            ev.append(progs.emitted(7 if v else 8))
    yield progs.text_unit('\n'.join(L).encode('latin-1'), ev, var=r.choice(['asan', 'fast']), gc=r.choice([0, 1]), extra=X)


def families(tier):
    v = ('asan', 'fast', 'msan')
    return [
        Fam('host', p_host, 300, 6000, v),
        Fam('scripts', p_script, 250, 5000, ('asan', 'fast')),
        Fam('typed', p_typed, 250, 5000, ('asan', 'fast')),
    ]
