"""C16: foreign functions see exactly the call the program makes."""
from vlib import progs, gen, lang
from vlib.core import Fam, Unit, diff
from vlib.run import Case, f2hex
from checks.c15 import hv, lang_lit, rndval

SCALE = 6
RULE = ('Foreign functions that record their name, thread, argument count and every argument (deeply, with object identity) are called from generated programs and from generated calls over random signatures '
        '(typed, variadic, untyped; up to 255 arguments; hundreds of functions) and give back an argument, a constant of any kind or a new string; the records and all later effects must be those '
        'predicted. Conforming calls must be accepted and calls that break the signature refused. Values made through the API are read back by every accessor. Distinct by program.')

# kind: type, expressions with their values
VALS = {
    'int': [('7', 7), ('(0 - 5)', -5), ('h_i(3)', 3), ('gi', 41), ('(1 << 40)', 1 << 40), ("'a'", 97), ('9223372036854775807', lang.INT_MAX), ('3 * 4 + 1', 13), ('stridx("ab", 1)', 98)],
    'float': [('1.5', 1.5), ('float(2)', 2.0), ('0.1', 0.1), ('gf', 2.25), ('gf * 2', 4.5), ('ceil(1.2)', 2.0)],
    'bool': [('true', True), ('false', False), ('1 < 2', True), ('gb', True), ('!gb', False), ('gb && 1 == 2', False)],
    'str': [('"lit"', b'lit'), ('strcat("a", "b")', b'ab'), ('""', b''), ('gs', b'glob'), ('"dup"', b'dup'), ('int_to_str(12)', b'12'), ('substr(gs, 1, 3)', b'lo')],
}
PRE = b'''gi := 41
gf := 2.25
gb := true
gs := "glob"
struct P { x: int s: str }
gp := new P { 4, "pp" }
use array("int") as array_int
ga := array_int(1, 2)
gd := dict("k", 9)
gn := mknat(6)
gx := box("bx")
gl := int_to_i64(77)
func h_i(a: int): int { return a }
'''
OBJ = {
    'P': [('gp', 'S#%d{i4,s"pp"}'), ('new P { 1, "q" }', 'S#%d{i1,s"q"}')],
    'array_int': [('ga', 'A#%d[i1,i2]'), ('array_int()', 'A#%d[]'), ('array_int(5)', 'A#%d[i5]')],
    'nat': [('gn', 'N6'), ('mknat(3)', 'N3')],
    'box': [('gx', 'B#%d(s"bx")')],
    'i64': [('gl', 'L4d')],
    'dict': [('gd', 'D')],
}


class Args:
    """Random arguments with the text the trace shows for them."""

    def __init__(self, r):
        self.r = r
        self.n = 0
        self.seen = {}

    def one(self, t):
        r = self.r
        if t == 'any':
            t = r.choice(['int', 'float', 'bool', 'str', 'P', 'array_int', 'nat', 'null', 'box', 'i64'])
            if t == 'null':
                return 'null', 'n'
            e, s = self.one(t)
            return 'cast(%s, any)' % e if r.random() < .5 else e, s
        if t in VALS:
            e, v = r.choice(VALS[t])
            return e, lang.ser(v)
        e, s = r.choice(OBJ[t])
        if '#%d' in s:
            # the same object is shown as a reference the second time
            if e in self.seen:
                return e, s.split('%d')[0] + str(self.seen[e])
            if e.startswith('g'):
                self.seen[e] = self.n
            s = s % self.n
            self.n += 1
        return e, s


RETS = [('n', 'n'), ('a', None), ('v i-77', 'i-77'), ('v f' + f2hex(0.375), lang.ser(0.375)), ('v b1', 'b1'), ('v b0', 'b0'), ('v n', 'n'), ('v c:cst', 's"cst"'), ('v l7f', 'L7f'),
        ('s made', 's"made"'), ('s a%00b', 's"a%00b"'), ('s ~', 's""')]
TYPES = ['int', 'float', 'bool', 'str', 'any', 'nat', 'box', 'i64', 'array_int']


def sig(r):
    k = r.random()
    if k < .2:
        return None, True
    n = r.choice([0, 1, 2, 3, 4, 6, 10])
    return [r.choice(TYPES) for _ in range(n)], r.random() < .4


def p_sigs(ctx):
    """Functions with random signatures, called in statements, expressions and from functions."""
    r = ctx.rng
    c = Case(gen.setup())
    fs = []
    lines = []
    for t in ('array_int',):
        c.add('type', 0, t)
    for k in range(r.choice([1, 4, 10])):
        ts, var = sig(r)
        slot = 8 + k          # the lower spies belong to the standard set-up
        rt = r.choice([None, 'any', 'int', 'str']) if ts is not None else None
        name = r.choice(['f%d', 'fn_%d', 'Foreign%d', 'f%d' + 'y' * 80]) % k
        s = name if ts is None else '%s(%s)%s' % (name, (',' if r.random() < .2 else ', ').join(ts + (['...'] if var else [])), ': ' + rt if rt else '')
        mode = r.choice(RETS)
        if rt in ('int', 'str'):
            mode = ('v i%d' % (k + 5), 'i%d' % (k + 5)) if rt == 'int' else ('s r%d' % k, 's"r%d"' % k)
        c.cmds.append('bind 0 %s spy%d' % (_esc(s), slot))
        fs.append((name, ts, var, rt, mode, slot))
    src = PRE.decode()
    ev = []
    body = []
    for j in range(r.choice([5, 20, 60])):
        name, ts, var, rt, mode, slot = r.choice(fs)
        A = Args(r)
        want = list(ts or [])
        if var:
            want += ['any'] * r.choice([0, 0, 1, 2, 5, 20])
        got = [A.one(t) for t in want]
        call = '%s(%s)' % (name, ', '.join(e for e, _ in got))
        if got and r.random() < .2 and got[0][0].isalnum() and got[0][0] != 'null':
            call = '%s -> %s(%s)' % (got[0][0], name, ', '.join(e for e, _ in got[1:]))
        rec = ' '.join(['spy%d 0 %d' % (slot, len(got))] + [s for _, s in got])
        res = mode[1]
        if mode[0] == 'a':
            res = got[0][1] if got else 'n'
        w = r.randrange(6)
        e2 = [rec]
        if '#' in res and res[0] not in 'SAB':
            w = 0
        if w == 0:
            body.append(call)
        elif w == 1:
            body.append('emit(%s)' % call)
            e2.append('emit 0 1 ' + _first(res, A))
        elif w == 2:
            body.append('emit(1, %s, 2)' % call)
            e2.append('emit 0 3 i1 %s i2' % _first(res, A))
        elif w == 3:
            body.append('v%d := %s\nemit(v%d)' % (j, call, j))
            e2.append('emit 0 1 ' + _first(res, A))
        elif w == 4 and rt == 'int':
            body.append('emit(100 + %s * 2)' % call)
            e2.append('emit 0 1 i%d' % (100 + int(res[1:]) * 2))
        elif w == 4:
            body.append('func w%d(p: int): any {\n    l := p + 1\n    z := %s\n    emit(l)\n    return z\n}\nemit(w%d(%d))' % (j, call, j, j))
            e2 += ['emit 0 1 i%d' % (j + 1), 'emit 0 1 ' + _first(res, A)]
        else:
            n = r.randrange(0, 4)
            body.append('for i%d := 0; i%d < %d; i%d += 1 { %s emit(i%d) }' % (j, j, n, j, call, j))
            e2 = [x for q in range(n) for x in (rec, 'emit 0 1 i%d' % q)]
        ev += e2
    src += '\n'.join(body) + '\nemit(gi, gf, gb, gs)\n'
    ev.append(progs.emitted(41, 2.25, True, b'glob'))
    for name, ts, var, rt, mode, slot in fs:
        c.cmds.append('spy %d %s' % (slot, 'a0' if mode[0] == 'a' else mode[0]))
    c.add('compile', 0, 'm', src)
    progs.begin(c, gc=r.choice([0, 0, 1, 2]), seed=r.randrange(99))
    c.add(r.choice(['run', 'run', 'runraw']), 0)
    progs.finish(c)
    ctx.count('calls of foreign functions', len(ev))
    exp = ['compile 0 ok'] + ev + ['done 0 sp=0 fc=0']
    yield Unit([(r.choice(['asan', 'fast']), c)], lambda rs: diff(exp, rs[0].lines), src, src)


def _esc(s):
    from vlib.run import esc
    return esc(s)


def _first(res, A):
    """As the first object of another record."""
    import re
    k = [0]

    def f(m):
        k[0] += 1
        return '#%d' % (k[0] - 1)
    if '#' in res and not any(ch in res for ch in '{[('):
        # a reference to an object shown in full before
        for e, i in A.seen.items():
            if res == OBJ_prefix(e) + '#%d' % i:
                return full(e)
    return re.sub(r'#\d+', f, res)


def full(e):
    for t, l in OBJ.items():
        for x, s in l:
            if x == e:
                return s % 0 if '%d' in s else s


def OBJ_prefix(e):
    return full(e)[0]


def p_refuse(ctx):
    """Calls that break a signature are refused, at once with a conforming one being accepted."""
    r = ctx.rng
    ts = [r.choice(TYPES) for _ in range(r.randrange(0, 5))]
    var = r.random() < .4
    s = 'ff(%s): int' % ', '.join(ts + (['...'] if var else []))
    A = Args(r)
    good = [A.one(t)[0] for t in ts] + ['1', 'gs'][:r.randrange(3)] * var
    bads = []
    for i, t in enumerate(ts):
        if t == 'any':
            continue
        for u in TYPES:
            if u != t:
                g = list(good)
                g[i] = Args(r).one(u)[0]
                if u == 'any' and not g[i].startswith('cast') and g[i] != 'null':
                    g[i] = 'cast(%s, any)' % g[i]
                bads.append((g, 'argument %d is %s, not %s' % (i, u, t)))
    if ts:
        bads.append((good[:r.randrange(len(ts))], 'too few arguments'))
        bads.append(([], 'no arguments'))
    if not var:
        bads.append((good + ['1'], 'too many arguments'))
        bads.append((good + ['1'] * r.randrange(1, 40), 'too many arguments'))
    r.shuffle(bads)
    c = Case(gen.setup())
    c.add('type', 0, 'array_int')
    c.cmds.append('bind 0 %s spy9' % _esc(s))
    c.add('compile', 0, 'pre', PRE)
    tests = []
    for g, why in bads[:12]:
        tests.append((False, 'ff(%s)' % ', '.join(g), why))
        tests.append((True, 'ff(%s)' % ', '.join(good), 'conforms'))
    if not tests:
        tests.append((True, 'ff(%s)' % ', '.join(good), 'conforms'))
    for k, (ok, call, why) in enumerate(tests):
        w = r.randrange(3)
        c.add('compile', 0, 't', [call, 'emit(%s)' % call, 'func q%d() { %s }' % (k, call)][w])
    c.add('delstate', 0)

    def judge(rs):
        l = rs[0].lines
        if l[0] != 'compile 0 ok':
            return l[0][:300]
        for (ok, call, why), x in zip(tests, l[1:]):
            if ok != (x == 'compile 0 ok'):
                return '%s with %s: %s: %s' % (s, call, why, x[:200])
    ctx.count('refused calls', len(tests))
    yield Unit([('fast', c)], judge, s + str(tests), s)


def p_many(ctx):
    """Hundreds of functions, many arguments: each call reaches its own function."""
    r = ctx.rng
    nf = r.choice([10, 255, 256, 257, 300, 600])
    c = Case(gen.setup())
    for k in range(nf):
        c.cmds.append('bind 0 %s spy%d' % (_esc('m%d(...): int' % k), 8 + k % 24))
    for k in range(8, 32):
        c.cmds.append('spy %d a%d' % (k, 0))
    src, ev = '', []
    for j in range(40):
        f = r.choice([0, nf - 1, nf - 2, r.randrange(nf), min(nf - 1, 255), min(nf - 1, 256)])
        n = r.choice([0, 1, 2, 10, 100, 200, 254, 255])
        vs = [rndval(r, r.choice(['int', 'float', 'bool', 'str'])) if n < 20 else r.randrange(1000) for _ in range(n)]
        vs = [v.replace(b'\n', b'').replace(b'\r', b'') if isinstance(v, bytes) else v for v in vs]
        call = 'm%d(%s)' % (f, ', '.join(lang_lit(v) for v in vs))
        rec = ' '.join(['spy%d 0 %d' % (8 + f % 24, n)] + [lang.ser(v) for v in vs])
        if r.random() < .5:
            src += call + '\n'
            ev.append(rec)
        else:
            src += 'emit(5, %s)\n' % call
            ev += [rec, 'emit 0 2 i5 ' + (lang.ser(vs[0]) if vs else 'n')]
    c.add('compile', 0, 'm', src.encode('latin-1'))
    progs.begin(c)
    c.add('run', 0)
    progs.finish(c)
    exp = ['compile 0 ok'] + ev + ['done 0 sp=0 fc=0']
    yield Unit([(r.choice(['asan', 'fast']), c)], lambda rs: diff(exp, rs[0].lines), src, src[:2000])


def p_progs(ctx):
    r = ctx.rng
    m = progs.make(ctx, 'host', steps=6000, trace=r.choice([.2, .5, .8]))
    src = progs.source(m, r)
    c = progs.start(m, src, gc=r.choice([0, 0, 1, 2]), seed=r.randrange(99))
    c.add('run', 0)
    progs.finish(c)
    yield progs.unit(m, src, [(r.choice(['asan', 'fast']), c)], [['compile 0 ok'] + m.it.ev + ['done 0 sp=0 fc=0']])


def p_values(ctx):
    """Values made and read through the API."""
    r = ctx.rng
    vals = []
    for _ in range(40):
        k = r.randrange(8)
        if k == 0:
            vals.append(('n', None))
        elif k == 1:
            b = r.random() < .5
            vals.append(('b%d' % b, b))
        elif k == 2:
            i = r.choice([0, 1, -1, lang.INT_MAX, -lang.INT_MAX - 1, 1 << 31, 1 << 32, -(1 << 31), r.randrange(-1 << 62, 1 << 62)])
            vals.append(('i%d' % i, i))
        elif k == 3:
            f = r.choice([0.0, -0.0, 1.5, 1e300, 5e-324, float('inf'), r.uniform(-1e6, 1e6)])
            vals.append(('f' + f2hex(f), f))
        elif k < 7:
            s = bytes(r.randrange(0 if k < 6 else 1, 256) for _ in range(r.choice([0, 1, 2, 7, 8, 30, 300])))
            if k == 6:
                s = s.replace(b'\0', b'x')
            vals.append((b'soc'[k - 4:k - 3] + b':' + s, s))
        else:
            vals.append(('l7f0', lang.L64(0x7f0)))
    c = Case(gen.setup())
    c.add('compile', 0, 'm', 'func same(v: any): any { return v }\nfunc two(a: any, b: any): any { emit(a, b) return b }\ng := cast(0, any)\n')
    progs.begin(c, gc=r.choice([0, 1]))
    c.add('run', 0)
    exp = ['compile 0 ok', 'done 0 sp=0 fc=0']
    for tok, v in vals:
        c.add('val', 0, tok)
        st = isinstance(v, bytes)
        i = v if type(v) is int else 0
        f = v if type(v) is float else 0.0
        num = v if type(v) is float else float(i)
        exp.append('val %s null=%d bool=%d int=%d float=%s num=%s str=%s len=%d addr=%d prop=0 field=n self=1' % (
            lang.ser(v), v is None, v is True, i, lang.ser(f), lang.ser(num),
            '"%s"' % lang.escq(v) if st else 'none', len(v) if st else 0, type(v) is lang.L64))
        c.add('call', 0, 'same', tok)
        exp.append('ret 0 ' + lang.ser(v))
        c.add('call', 0, 'two', 'i1', tok)
        exp += ['emit 0 2 i1 ' + lang.ser(v), 'ret 0 ' + lang.ser(v)]
        c.add('setg', 0, 'g', tok)
        c.add('getg', 0, 'g')
        exp.append('glob 0 g ' + lang.ser(v))
    progs.finish(c)
    yield Unit([(r.choice(['asan', 'msan', 'fast']), c)], lambda rs: diff(exp, rs[0].lines), '\n'.join(c.cmds), None)


def p_made(ctx):
    """Strings made by each of the API's constructors, used by the script."""
    r = ctx.rng
    src, ev = 'acc := ""\n', []
    acc = b''
    for j in range(30):
        kind, seed, n = r.randrange(5), r.randrange(20), r.choice([0, 1, 2, 15, 16, 17, 100, 1000, 4000])
        v = lang._mkstr(None, [kind, seed, n])
        src += 's%d := mkstr(%d, %d, %d)\nemit(s%d, strlen(s%d), s%d == mkstr(%d, %d, %d))\n' % (j, kind, seed, n, j, j, j, (kind + 1) % 5, seed, n)
        ev.append(progs.emitted(v, len(v), True))
        if n <= 100 and len(acc) < 2000:
            src += 'acc = strcat(acc, s%d)\n' % j
            acc += v
        if r.random() < .3:
            src += 'garbage(20) gc() emit(s%d, acc)\n' % r.choice([j])
            ev.append(progs.emitted(v, acc))
    src += 'emit(acc)\n'
    ev.append(progs.emitted(acc))
    yield progs.text_unit(src, ev, var=r.choice(['asan', 'fast', 'msan']), gc=r.choice([0, 1, 2]))


def p_index(ctx):
    """Index functions of the host: called with exactly the value, the index and what is assigned."""
    r = ctx.rng
    c = Case(gen.setup())
    subj = []
    slot = 8
    for n, e, s in r.sample([('nat', 'gn', 'N6'), ('box', 'gx', 'B#0(s"bx")'), ('P', 'gp', 'S#0{i4,s"pp"}'), ('i64', 'gl', 'L4d')], 3):
        kt = r.choice(['int', 'str', 'any', 'float', 'bool'])
        vt = r.choice(['int', 'str', 'any'])
        get = r.choice(['%s, %s' % (n, kt), '%s, ...' % n, '...', 'any, any', '%s, any' % n, '%s, %s, ...' % (n, kt), 'any, ...'])
        sett = r.choice(['%s, %s, %s' % (n, kt, vt), '%s, ...' % n, '...', 'any, any, any', '%s, any, ...' % n])
        if n == 'P' and n in get + sett:
            get, sett = get.replace('P', 'any'), sett.replace('P', 'any')
        mode = {'int': ('v i%d' % slot, 'i%d' % slot), 'str': ('s r%d' % slot, 's"r%d"' % slot), 'any': ('v f' + f2hex(slot + .5), lang.ser(slot + .5))}[vt]
        c.cmds.append('bind 0 %s spy%d' % (_esc('%s_get_index(%s): %s' % (n, get, vt)), slot))
        c.cmds.append('bind 0 %s spy%d' % (_esc('%s_set_index(%s): void' % (n, sett)), slot + 1))
        subj.append((e, s, kt, vt, slot, mode))
        slot += 2
    body, ev = [], []
    for j in range(25):
        e, s, kt, vt, sl, mode = r.choice(subj)
        A = Args(r)
        if '#' in s:
            A.n = 1
            A.seen[e] = 0
        ke, ks = A.one(kt)
        k = r.randrange(4)
        if k < 2:
            body.append(('emit(%s[%s])' if k else 'v%d := %%s[%%s] emit(v%d)' % (j, j)) % (e, ke))
            ev += ['spy%d 0 2 %s %s' % (sl, s, ks), 'emit 0 1 ' + mode[1]]
        elif k == 2:
            ve, vs = A.one(vt)
            A2 = Args(r)
            body.append('%s[%s] = %s' % (e, ke, ve))
            ev.append((sl + 1, s, ks, vs))
            ev[-1] = 'spy%d 0 3 %s %s %s' % (sl + 1, s, ks, vs)
        else:
            if vt != 'int':
                continue
            q = r.randrange(100)
            if '(' in ke or 'new' in ke:
                continue
            body.append('%s[%s] += %d' % (e, ke, q))
            ev += ['spy%d 0 2 %s %s' % (sl, s, ks), 'spy%d 0 3 %s %s i%d' % (sl + 1, s, ks, sl + q)]
    src = PRE + ('func idx() {\n%s\n}\nidx()' if r.random() < .4 else '%s').__mod__('\n'.join(body)).encode()
    for _, _, _, _, sl, mode in subj:
        c.add('spy', sl, *mode[0].split(' ', 1))
        c.add('spy', sl + 1, 'n')
    c.add('compile', 0, 'main', src)
    progs.begin(c, gc=r.choice([0, 0, 1]))
    c.add('run', 0)
    progs.finish(c)
    exp = ['compile 0 ok'] + ev + ['done 0 sp=0 fc=0']
    yield Unit([(r.choice(['asan', 'fast']), c)], lambda rs: diff(exp, rs[0].lines), '\n'.join(c.cmds), src.decode())


def families(tier):
    v = ('asan', 'fast')
    return [
        Fam('signatures', p_sigs, 500, 12000, v),
        Fam('refused', p_refuse, 250, 5000, ('fast',)),
        Fam('many', p_many, 60, 1000, v),
        Fam('index functions', p_index, 120, 2500, v),
        Fam('programs', p_progs, 500, 12000, v),
        Fam('values', p_values, 120, 2000, ('asan', 'fast', 'msan')),
        Fam('strings', p_made, 60, 1000, ('asan', 'fast', 'msan')),
    ]
