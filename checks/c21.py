"""C21: disassembly covers and names every instruction executed."""
import re, struct
from urllib.parse import unquote_to_bytes
from vlib import progs, gen, lang
from vlib.core import Fam, Unit, diff
from vlib.run import Case, cmd

SCALE = 5
RULE = ('Generated programs, programs with every width of operand and many units and failed units are compiled and disassembled from the start: positions increase, the end is reached, jump and call targets '
        'are positions visited, texts agree with each other. Then each program is run while every instruction is disassembled just before it executes, and a machine that knows only the text of the '
        'disassembly predicts the effect on the stack, frames, variables, structs and position; it must agree with the thread after every step, and the trace of the run must be the predicted one. Buffers '
        'of every size, with guards, give a prefix of the text. The memory of the state must not change. Distinct by source.')

EX = re.compile(r'^ex (-?\d+) (\d) (-?\d+) sp=(\d+) fc=(\d+) "([^"]*)" (\S+) top=(.*)$')
EX2 = re.compile(r'^ex> (-?\d+) sp=(\d+) fc=(\d+) top=(.*?)(?: was=(.*))?$')
DIS = re.compile(r'^dis (-?\d+) (\d) (-?\d+) "([^"]*)"( UNTERMINATED)?$')
TEXT = re.compile(rb'^(-?\d+) \((.*?):(-?\d+)\)\t([A-Za-z_0-9]+)(?: (.*))?$', re.S)


def unq(s):
    return unquote_to_bytes(s)


def listing(lines):
    """[(pc, next, text)], error"""
    out = []
    for l in lines:
        m = DIS.match(l)
        if not m:
            if l.startswith('dis end '):
                continue
            return out, 'disassembly: %s' % l[:200]
        if m.group(5):
            return out, 'disassembly of position %s is not terminated' % m.group(1)
        if m.group(2) != '1':
            return out, 'position %s cannot be disassembled: %s' % (m.group(1), m.group(4))
        out.append((int(m.group(1)), int(m.group(3)), unq(m.group(4))))
    return out, None


def check_listing(ls):
    if not ls or ls[0][0] != 0:
        return 'the disassembly does not begin at 0'
    for (a, n, t), (b, _, _) in zip(ls, ls[1:]):
        if n != b or b <= a:
            return 'position %d is followed by %d, listed next is %d' % (a, n, b)
    if ls[-1][1] != -1:
        return 'the disassembly does not end: %s' % (ls[-1],)
    pcs = {p for p, _, _ in ls}
    strs, funcs = {}, {}
    for p, n, t in ls:
        m = TEXT.match(t)
        if not m or int(m.group(1)) != p:
            return 'odd text for position %d: %r' % (p, t[:100])
        op, arg = m.group(4), m.group(5)
        if op not in OPS:
            return 'unknown mnemonic %r at %d' % (op, p)
        if op in (b'GOTO', b'GOTOZ'):
            if int(arg) not in pcs:
                return 'jump at %d to %s, which is no instruction' % (p, arg)
        elif op == b'CALL':
            m2 = re.match(rb'^(\d+) (\d+) \((\d+)\)$', arg or b'')
            if not m2:
                return 'odd text for position %d: %r' % (p, t[:100])
            if int(m2.group(3)) not in pcs:
                return 'call at %d of %s, which is no instruction' % (p, m2.group(3))
            if funcs.setdefault(m2.group(2), m2.group(3)) != m2.group(3):
                return 'function %s is at two positions' % m2.group(2)
        elif op in (b'PUSH_STRING', b'PUSH_STRING_FF'):
            m2 = re.match(rb'^(\d+) \("(.*)', arg or b'', re.S)
            if not m2:
                return 'odd text for position %d: %r' % (p, t[:100])
            s = m2.group(2)
            o = strs.setdefault(m2.group(1), s)
            if len(t) < 500 and o != s and not (len(o) > 400):
                return 'string constant %s is shown as %r and %r' % (m2.group(1), o[:60], s[:60])


OPS = set(b'PUSH_NULL PUSH_NULL_N PUSH_TRUE PUSH_FALSE PUSH_0 PUSH_1 PUSH_CHAR PUSH_INT PUSH_FLOAT PUSH_STRING PUSH_STRING_FF PUSH_STRUCT STRUCT_GET STRUCT_SET ADD SUB MUL DIV MOD OR AND '
          b'SHIFT_LEFT SHIFT_RIGHT LT LTE GT GTE ADD1 SUB1 EQU LOG_NOT SET GET GOTO GOTOZ CALL RETURN RETURN_VALUE CALLF GETLOCAL GETLOCAL_W SETLOCAL GET_RETVAL HALT MISALIGNED_INSTRUCTION'.split())


def fields(s):
    """Fields of a serialised struct S#k{...}."""
    m = re.match(r'^S#\d+\{(.*)\}$', s)
    if not m:
        return None
    out, d, cur, q = [], 0, '', False
    for ch in m.group(1):
        if ch == '"':
            q = not q
        if not q:
            if ch in '{[(':
                d += 1
            elif ch in '}])':
                d -= 1
            elif ch == ',' and d == 0:
                out.append(cur)
                cur = ''
                continue
        cur += ch
    out.append(cur)
    return out


def stable(s):
    return s is not None and '#' not in s and s[:1] not in 'DANBO'


def num(s):
    if s[0] == 'i':
        return int(s[1:])
    if s == 'fnan':
        return float('nan')
    if s[0] == 'f':
        return struct.unpack('<d', struct.pack('<Q', int(s[1:], 16)))[0]
    return None


def w64(x):
    return ((x + (1 << 63)) & ((1 << 64) - 1)) - (1 << 63)


def arith(op, a, b):
    """Predicted result, None when not predicted."""
    x, y = num(a), num(b)
    if x is None or y is None:
        return None
    ii = type(x) is int and type(y) is int
    if not ii and op in ('ADD', 'SUB', 'MUL', 'DIV', 'LT', 'LTE', 'GT', 'GTE'):
        x, y = float(x), float(y)
    try:
        if op == 'ADD':
            v = x + y
        elif op == 'SUB':
            v = x - y
        elif op == 'MUL':
            v = x * y
        elif op == 'DIV':
            v = (abs(x) // abs(y)) * (1 if (x < 0) == (y < 0) else -1) if ii else x / y
        elif op == 'MOD':
            v = abs(x) % abs(y) * (-1 if x < 0 else 1)
        elif op == 'OR':
            v = x | y
        elif op == 'AND':
            v = x & y
        elif op == 'SHIFT_LEFT':
            v = x << y
        elif op == 'SHIFT_RIGHT':
            v = x >> y
        else:
            return lang.ser({'LT': x < y, 'LTE': x <= y, 'GT': x > y, 'GTE': x >= y}[op])
    except (ZeroDivisionError, OverflowError, TypeError, ValueError):
        return None
    if type(v) is int and v != w64(v):
        return None
    return lang.ser(v)


class Machine:
    """Executes the text of the disassembly."""

    def __init__(self, events):
        self.st = []
        self.fp = 0
        self.fr = []
        self.gl = {}
        self.ret = None
        self.ops = {}
        self.names = events

    def step(self, ex, evs, after, ls):
        pc, ok, nxt, sp, fc, text, top = ex
        if not ok:
            return 'position %d, about to be executed, cannot be disassembled' % pc
        if len(text) < 500 and ls.get(pc) is not None and ls[pc] != text:
            return 'position %d is shown as %r and %r' % (pc, ls[pc], text)
        if pc not in ls:
            return 'the thread is at position %d, which disassembly does not visit' % pc
        m = TEXT.match(text)
        if not m:
            return 'odd text %r' % text[:100]
        op = m.group(4).decode('latin-1')
        arg = m.group(5)
        st = self.st
        if sp != len(st) or fc != len(self.fr):
            return 'machine has %d values, %d frames; thread has %d, %d' % (len(st), len(self.fr), sp, fc)
        if st and stable(st[-1]) and top != st[-1]:
            return 'machine has %s on top, thread has %s' % (st[-1], top)
        if st:
            st[-1] = top
        self.ops[op] = self.ops.get(op, 0) + 1
        want = nxt
        apc, asp, afc, atop, was = after
        try:
            if op == 'PUSH_NULL':
                st.append('n')
            elif op == 'PUSH_NULL_N':
                st.extend(['n'] * int(arg))
            elif op in ('PUSH_TRUE', 'PUSH_FALSE', 'PUSH_0', 'PUSH_1'):
                st.append({'E': 'b1', 'S': 'b0', '0': 'i0', '1': 'i1'}[op[-1] if op != 'PUSH_FALSE' else 'S'])
            elif op == 'PUSH_CHAR':
                if len(arg) < 2 or arg[:1] != b"'" :
                    return 'odd character %r' % arg
                st.append('i%d' % (arg[1] if len(arg) == 3 else 0))
            elif op == 'PUSH_INT':
                st.append('i%d' % int(arg))
            elif op == 'PUSH_FLOAT':
                v = num(atop)
                if type(v) is not float or ('%g' % v).encode() != arg:
                    return 'PUSH_FLOAT %s pushed %s' % (arg.decode('latin-1'), atop)
                st.append(atop)
            elif op in ('PUSH_STRING', 'PUSH_STRING_FF'):
                m2 = re.match(rb'^(\d+) \("(.*)$', arg, re.S)
                if not re.match(r'^s"[^"]*"$', atop):
                    return '%s pushed %s' % (op, atop)
                s = unq(atop[2:-1])
                t = m2.group(2)
                if len(text) < 500:
                    if t != s + b'")':
                        return '%s (%r) pushed %r' % (op, t[:-2][:100], s[:100])
                elif not (s + b'")').startswith(t):
                    return '%s (%r) pushed %r' % (op, t[:100], s[:100])
                st.append(atop)
            elif op == 'PUSH_STRUCT':
                n = int(arg)
                f = fields(atop)
                if f is None or len(f) != n:
                    return 'PUSH_STRUCT %d made %s' % (n, atop[:200])
                for x, y in zip(f, st[-n:]):
                    if stable(y) and x != y:
                        return 'PUSH_STRUCT of %s made %s' % (st[-n:], atop[:300])
                del st[-n:]
                st.append(atop)
            elif op == 'STRUCT_GET':
                f = fields(top)
                i = int(arg)
                if f is None or i >= len(f):
                    return 'STRUCT_GET %d of %s' % (i, top[:200])
                st[-1] = f[i] if stable(f[i]) else None
            elif op == 'STRUCT_SET':
                i = int(arg)
                st.pop()
                v = st.pop()
                if was:
                    f, g = fields(top), fields(was)
                    if not f or not g or i >= len(f) or len(f) != len(g):
                        return 'STRUCT_SET %d of %s' % (i, top[:200])
                    for k in range(len(f)):
                        o = v if k == i else f[k]
                        if stable(o) and g[k] != o:
                            return 'STRUCT_SET %d to %s of %s gave %s' % (i, v, top[:200], was[:200])
            elif op in ('ADD', 'SUB', 'MUL', 'DIV', 'MOD', 'OR', 'AND', 'SHIFT_LEFT', 'SHIFT_RIGHT', 'LT', 'LTE', 'GT', 'GTE'):
                b = st.pop()
                a = st.pop()
                st.append(arith(op, a, b) if a and b else None)
            elif op in ('ADD1', 'SUB1'):
                a = st.pop()
                st.append(arith(op[:3], a, 'i1'))
            elif op == 'EQU':
                b = st.pop()
                a = st.pop()
                prim = a and b and stable(a) and stable(b) and (a[0] in 'nbis' or a[0] == 'f') and b[0] in 'nbisf'
                if prim:
                    x, y = num(a), num(b)
                    st.append(lang.ser(a[0] == b[0] and (x == y if x is not None else a == b)))
                else:
                    st.append(None)
            elif op == 'LOG_NOT':
                a = st.pop()
                st.append({'b0': 'b1', 'b1': 'b0'}[a])
            elif op == 'SET':
                self.gl[int(arg)] = st.pop()
            elif op == 'GET':
                st.append(self.gl.get(int(arg)))
            elif op == 'GOTO':
                want = int(arg)
            elif op == 'GOTOZ':
                v = st.pop()
                if v == 'b0':
                    want = int(arg)
                elif v != 'b1':
                    return 'GOTOZ on %s' % v
            elif op == 'CALL':
                n, f, p = [int(x) for x in re.match(rb'^(\d+) (\d+) \((\d+)\)$', arg).groups()]
                self.fr.append((nxt, self.fp, n))
                self.fp = len(st)
                want = p
            elif op in ('RETURN', 'RETURN_VALUE'):
                self.ret = st.pop() if op == 'RETURN_VALUE' else 'n'
                want, fp, n = self.fr.pop()
                del st[self.fp - n:]
                self.fp = fp
            elif op == 'CALLF':
                m2 = re.match(rb'^(.*)\((\d+)\)$', arg, re.S)
                n = int(m2.group(2))
                args = st[len(st) - n:]
                name = m2.group(1).decode('latin-1')
                ev = self.names.get(name)
                mine = [e for e in evs if e.split(' ', 1)[0] == ev] if ev else evs
                if ev and not mine:
                    return 'CALLF %s called something else: %s' % (name, evs)
                if not ev and name in gen.STD and evs:
                    return 'CALLF %s called something else: %s' % (name, evs)
                if ev:
                    e = mine[-1] if name != 'callback' else mine[0]
                    if ev == 'emit' and len(mine) != 1:
                        return 'CALLF emit gave %s' % mine
                    p = e.split(' ')
                    if int(p[2]) != n:
                        return 'CALLF %s with %d arguments got %s' % (name, n, p[2])
                    if all(stable(x) for x in args) and p[3:] != args:
                        return 'CALLF %s of %s got %s' % (name, args, e)
                del st[len(st) - n:]
                self.ret = None
                if 'call' in name:
                    self.gl = {}
            elif op in ('GETLOCAL', 'GETLOCAL_W'):
                st.append(st[self.fp + int(arg)] if self.fp + int(arg) >= 0 else None)
            elif op == 'SETLOCAL':
                v = st.pop()
                st[self.fp + int(arg)] = v
            elif op == 'GET_RETVAL':
                st.append(self.ret)
            elif op == 'HALT':
                want = -1
            else:
                return 'executed %s' % op
        except (ValueError, TypeError, IndexError, KeyError, AttributeError) as e:
            return 'the text %r cannot be executed (%s: %s)' % (text[:100], type(e).__name__, e)
        if apc != want:
            return '%r leads to position %d, the thread went to %d' % (text[:100], want, apc)
        if asp != len(st) or afc != len(self.fr):
            return '%r should leave %d values, %d frames; there are %d, %d' % (text[:100], len(st), len(self.fr), asp, afc)
        if st:
            if stable(st[-1]) and st[-1] != atop:
                return '%r should leave %s on top, there is %s' % (text[:100], st[-1], atop)
            st[-1] = atop


HN = {n: (h[1] if h[1].startswith('spy') or h[1] == 'emit' else None) for n, h in gen.HOST.items()}
HN = {n: v for n, v in HN.items() if v}


def judge_trace(ctx, exp, lines, names, fresh=True):
    """Lines: [listing], trace of the execution, rest."""
    dl = [l for l in lines if l.startswith('dis ')]
    ls, e = listing(dl)
    e = e or check_listing(ls)
    if e:
        return e
    lm = {p: t for p, _, t in ls}
    nm = {p: n for p, n, _ in ls}
    mach = Machine(names)
    evs, rest = [], []
    cur = None
    for l in lines:
        if l.startswith('ex '):
            m = EX.match(l)
            if not m:
                return 'harness: %s' % l[:200]
            cur = (int(m.group(1)), m.group(2) == '1', int(m.group(3)), int(m.group(4)), int(m.group(5)), unq(m.group(6)), m.group(8))
            evs = []
            if cur[0] in nm and nm[cur[0]] != cur[2]:
                return 'position %d is followed by %d and by %d' % (cur[0], nm[cur[0]], cur[2])
        elif l.startswith('ex> '):
            m = EX2.match(l)
            a = (int(m.group(1)), int(m.group(2)), int(m.group(3)), m.group(4), m.group(5))
            e = mach.step(cur, evs, a, lm)
            if e:
                return 'at %d (%s): %s' % (cur[0], cur[5][:60].decode('latin-1'), e)
            cur = None
        elif l.startswith('dis '):
            pass
        else:
            rest.append(l)
            if cur:
                evs.append(l)
    for k, v in mach.ops.items():
        ctx.count('executed ' + k, v)
    ctx.count('instructions listed', len(ls))
    return diff(exp, rest)


def case(src, extra=(), units=None, gc=3, lim=6000):
    c = Case(gen.setup(extra=extra))
    for fn, s in units or [('main.tiny', src)]:
        c.add('compile', 0, fn, s)
    c.add('savehash', 0, 's')
    c.add('disasm', 0)
    c.add('savehash', 0, 'c')
    progs.begin(c, gc=gc)
    c.add('exectrace', 0, lim)
    c.add('run', 0)
    progs.finish(c)
    return c


def p_prog(ctx):
    r = ctx.rng
    m = progs.make(ctx, r.choice(sorted(progs.PRESETS)), steps=700, main=r.randrange(2, 6))
    src = progs.source(m, r)
    c = case(src)
    exp = ['compile 0 ok'] + m.it.ev + ['done 0 sp=0 fc=0']
    yield Unit([(r.choice(['fast', 'asan']), c)], lambda rs: judge_trace(ctx, exp, rs[0].lines, HN), src, src.decode('latin-1'))


def tok(r):
    k = r.randrange(9)
    if k == 0:
        v = r.choice([0, 1, 2, 127, 128, 255, 256, 65535, 65536, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 63 - 1, r.getrandbits(r.randrange(1, 63))])
        return str(v), 'i%d' % v
    if k == 1:
        v = r.choice(['0.0', '1.5', '0.1', '123456789.25', '100000.0', '0.0001', '2.5'])
        return v, lang.ser(float(v))
    if k == 2:
        ch = r.choice('abcXYZ09 ~!"%')
        return "'%s'" % ch, 'i%d' % ord(ch)
    if k == 3:
        return r.choice(['true', 'false']), None
    s = ''.join(r.choice('abcdefgh %!()[]<>:;,.~') for _ in range(r.choice([0, 1, 3, 10, 50, 600 if r.random() < .2 else 20])))
    return '"%s"' % s, lang.ser(s.encode())


def p_wide(ctx):
    """Many constants, globals, locals, fields, functions and parameters."""
    r = ctx.rng
    L, ev = [], []

    lits = []   # the number of constants is limited

    def lit():
        if len(lits) > 500:
            return r.choice(lits)
        t, s = tok(r)
        lits.append((t, s or ('b1' if t == 'true' else 'b0')))
        return lits[-1]

    def emit(*vs):
        return 'emit(%s)' % ', '.join(v[0] for v in vs), 'emit 0 %d%s' % (len(vs), ''.join(' ' + v[1] for v in vs))
    nstr = r.choice([0, 0, 250, 300])
    for k in range(nstr):
        L.append('sx%d :: "k%d"' % (k, k))
    ng = r.choice([3, 30, 300])
    G = []
    for k in range(ng):
        G.append(lit())
        L.append('g%d := %s' % (k, G[-1][0]))
    nf = r.choice([1, 5, 40])
    F = []
    for k in range(nf):
        n = r.choice([0, 1, 3, 30, r.choice([127, 128, 200, 255]) if r.random() < .3 else 2])
        args = [lit() for _ in range(n)]
        nl = r.choice([0, 2, 20, 200 if r.random() < .2 else 3])
        loc = [lit() for _ in range(nl)]
        body = []
        bev = []
        for i, x in enumerate(loc):
            body.append('v%d := %s' % (i, x[0]))
        for i in r.sample(range(nl), min(nl, 4)):
            body.append('emit(v%d)' % i)
            bev.append('emit 0 1 ' + loc[i][1])
        for i in r.sample(range(n), min(n, 4)):
            body.append('emit(a%d)' % i)
            bev.append('emit 0 1 ' + args[i][1])
        if nl:
            i = r.randrange(nl)
            j = r.randrange(nl)
            body.append('{ w := v%d emit(w) }' % i)
            bev.append('emit 0 1 ' + loc[i][1])
        body.append('return v%d' % (nl - 1) if nl else 'return %s' % lit()[0])
        ty = {'i': 'int', 'f': 'float', 's': 'str', 'b': 'bool'}
        rv = loc[-1] if nl else None
        if rv is None:
            t = lit()
            body[-1] = 'return %s' % t[0]
            rv = t
        F.append(('func f%d(%s): %s {\n%s\n}' % (k, ', '.join('a%d: %s' % (i, ty[a[1][0]]) for i, a in enumerate(args)), ty[rv[1][0]], '\n'.join(body)), k, args, bev, rv))
    body = []
    for f in F:
        body.append(f[0])
    r.shuffle(body)
    pre = r.random() < .5
    if pre:
        L = body + L
    for f in F[:12]:
        L.append('emit(f%d(%s))' % (f[1], ', '.join(a[0] for a in f[2])))
        ev += f[3] + ['emit 0 1 ' + f[4][1]]
    if r.random() < .4:
        vs = [lit() for _ in range(r.choice([127, 128, 129, 200, 254, 255]))]
        e = emit(*vs)
        L.append(e[0])
        ev.append(e[1])
    for _ in range(10):
        i = r.randrange(ng)
        L.append('emit(g%d)' % i)
        ev.append('emit 0 1 ' + G[i][1])
    ns = r.choice([1, 5, 100, 255])
    L.insert(0, 'struct S { %s }' % ' '.join('f%d: any' % i for i in range(ns)))
    fv = [lit() for _ in range(ns)]
    if ns <= 100:
        L.append('s := new S { %s }' % ', '.join('cast(%s, any)' % v[0] for v in fv))
        for i in sorted({0, ns - 1, r.randrange(ns), ns // 2}):
            L.append('emit(s.f%d)' % i)
            ev.append('emit 0 1 ' + fv[i][1])
            x = lit()
            L.append('s.f%d = cast(%s, any)\nemit(s.f%d)' % (i, x[0], i))
            ev.append('emit 0 1 ' + x[1])
            fv[i] = x
    for k in r.sample(range(nstr), min(nstr, 3)):
        L.append('emit(sx%d)' % k)
        ev.append('emit 0 1 s"k%d"' % k)
    if not pre:
        L += body
    src = '\n'.join(L)
    c = case(src, lim=4000)
    exp = ['compile 0 ok'] + ev + ['done 0 sp=0 fc=0']
    yield Unit([(r.choice(['asan', 'fast']), c)], lambda rs: judge_trace(ctx, exp, rs[0].lines, HN), src, None)


def p_host(ctx):
    """Hundreds of functions of the host: each call names the one it reaches."""
    r = ctx.rng
    nf = r.choice([20, 200, 300, 600])
    names = dict(HN)
    extra = []
    pre = r.choice(['m', 'M_', 'k' * 40])
    for k in range(nf):
        extra.append('bind 0 %s spy%d' % (pre + str(k) + r.choice(['', '(...):%20any']), 8 + k % 24))
        names[pre + str(k)] = 'spy%d' % (8 + k % 24)
    for k in range(8, 32):
        extra.append('spy %d a0' % k)
    L, ev = [], []
    for j in range(40):
        f = r.choice([0, nf - 1, min(nf - 1, 255), min(nf - 1, 256), r.randrange(nf), r.randrange(nf)])
        v = r.randrange(1000)
        n = r.choice([0, 0, 1, 5])
        w = r.choice([0, 1, 2])
        call = '%s%d(%s)' % (pre, f, ', '.join([str(v)] + ['true'] * n))
        rec = 'spy%d 0 %d i%d%s' % (8 + f % 24, n + 1, v, ' b1' * n)
        L.append([call, 'emit(%s)' % call, 'func w%d() { %s }\nw%d()' % (j, call, j)][w])
        ev += [rec] + (['emit 0 1 i%d' % v] if w == 1 else [])
    src = '\n'.join(L)
    c = case(src, extra=extra)
    exp = ['compile 0 ok'] + ev + ['done 0 sp=0 fc=0']
    yield Unit([(r.choice(['asan', 'fast']), c)], lambda rs: judge_trace(ctx, exp, rs[0].lines, names), '\n'.join(c.cmds), src)


def p_far(ctx):
    """Jumps over long code."""
    r = ctx.rng
    n = r.choice([10, 60, 300, 3000, 9000])
    fill = '\n'.join('x%s %d' % (r.choice([' =', ' +=']), r.choice([1, 300, 70000, 2 ** 40])) for _ in range(n))
    k = r.randrange(4)
    big = 'x = 1\n%s\n' % fill
    if k == 0:
        src = 'x := 0\nif false {\n%s} else { emit(1) }\nif true { emit(2) } else {\n%s}\nemit(3)\n' % (big, big)
        ev = [1, 2, 3]
    elif k == 1:
        src = 'x := 0\ni := 0\nwhile i < 2 {\ni += 1\nif i == 2 { break }\nemit(i)\nif x == 5 {\n%s}\n}\nemit(9)\n' % big
        ev = [1, 9]
    elif k == 2:
        src = 'x := 0\nfunc f(a: int): int {\nif a == 0 {\n%s}\nreturn a + 1\n}\nemit(f(1))\nemit(f(f(2)))\n' % big
        ev = [2, 4]
    else:
        src = 'x := 0\nfor i := 0; i < 3; i += 1 {\nif i == 1 { continue }\nemit(i)\nif x == 5 {\n%s}\n}\nemit(if x == 0 7 else 8)\n' % big
        ev = [0, 2, 7]
    c = case(src)
    exp = ['compile 0 ok'] + [progs.emitted(v) for v in ev] + ['done 0 sp=0 fc=0']
    yield Unit([('asan' if n < 1000 else 'fast', c)], lambda rs: judge_trace(ctx, exp, rs[0].lines, HN), src, None)


def p_units(ctx):
    """Several units, some of which fail; disassembly between them."""
    r = ctx.rng
    c = Case(gen.setup())
    exp, names = [], []
    nd = 0
    last = None
    marks = []
    for k in range(r.randrange(1, 8)):
        if r.random() < .25 and k:
            c.add('compile', 0, 'bad%d' % k, r.choice(['x%d := 1\nemit(x%d\n', 'func z%d(): int { return 1 }\nemit(nope%d)\n', 'y%d := "abc" emit(q%d)', 'if true { a%d := 1 break b%d }']) % (k, k))
            exp.append('compile 0 err')
        else:
            t = tok(r)
            c.add('compile', 0, 'u%d.tiny' % k, 'v%d := %s\nfunc h%d(a: int): int { return a * %d }\nemit(v%d)\nemit(h%d(%d))\n' % (k, t[0], k, k + 2, k, k, k))
            exp.append('compile 0 ok')
            names += [progs.emitted(True) if t[0] == 'true' else progs.emitted(False) if t[0] == 'false' else 'emit 0 1 ' + t[1], progs.emitted(k * (k + 2))]
        if r.random() < .5:
            c.add('note', 'L')
            c.add('disasm', 0)
    c.add('note', 'L')
    c.add('savehash', 0, 's')
    c.add('disasm', 0)
    c.add('savehash', 0, 'c')
    progs.begin(c, gc=3)
    c.add('exectrace', 0, 5000)
    c.add('run', 0)
    progs.finish(c)
    exp = exp + names + ['done 0 sp=0 fc=0']

    def judge(rs):
        ls = [' '.join(l.split(' ')[:3]) if l.startswith('compile') else l for l in rs[0].lines]
        head, parts = [], [[]]
        for l in ls:
            if l.startswith('note'):
                parts.append([])
            elif l.startswith('dis '):
                parts[-1].append(l)
            else:
                parts[-1].append(l)
        for p in parts[1:-1]:
            x, e = listing([l for l in p if l.startswith('dis ')])
            e = e or check_listing(x)
            if e:
                return e
        rest = [l for p in parts[:-1] for l in p if not l.startswith('dis ')]
        return judge_trace(ctx, exp, rest + parts[-1], HN)
    yield Unit([(r.choice(['asan', 'fast']), c)], judge, '\n'.join(c.cmds), None)


def p_caps(ctx):
    """Buffers of every size, positions outside."""
    r = ctx.rng
    m = progs.make(ctx, r.choice(sorted(progs.PRESETS)), steps=700, main=r.randrange(2, 6))
    src = progs.source(m, r) + b'\nzz := "%s"\nzy := \'q\'\n' % (b'long ' * r.choice([1, 30, 130]))
    fn = r.choice(['m', 'main.tiny', 'a/b/c.tiny', 'n' * 90])

    c = Case(gen.setup())
    c.add('compile', 0, fn, src)
    var = r.choice(['asan', 'asan', 'msan'])
    if var != 'msan':
        c.add('savehash', 0, 's')
    c.add('disasm', 0, 4000)
    caps = [0, 1, 2, 3, 5, 8, 13, 20, 30, len(fn) + 4, len(fn) + 5, len(fn) + 6, len(fn) + 7, len(fn) + 8, len(fn) + 12, len(fn) + 20, 100, 128, 256, 512]
    for cap in caps + [r.randrange(1, 150) for _ in range(10)]:
        c.add('note', cap)
        c.add('disasm', 0, cap)
    for p in (-1, -2, -100000, -2 ** 31, 1 << 24, 2 ** 31 - 1):
        for cap in (0, 1, 5, 15, 16, 17, 64):
            c.add('disat', 0, p, cap)
    if var != 'msan':
        c.add('savehash', 0, 'c')
    c.add('delstate', 0)

    def judge(rs):
        full = {}
        part = 0
        for l in rs[0].lines:
            if l.startswith('note '):
                part = int(l.split()[1])
                continue
            m = DIS.match(l)
            if not m:
                continue
            pc, ok, nxt, t = int(m.group(1)), m.group(2) == '1', int(m.group(3)), unq(m.group(4))
            if m.group(5):
                return 'position %d with a buffer of %d: not terminated' % (pc, part)
            if pc < 0 or pc >= 1 << 24:
                if ok:
                    return 'position %d can be disassembled' % pc
                if nxt != pc:
                    return 'position %d moved to %d' % (pc, nxt)
                continue
            if part == 0 and pc not in full:
                full[pc] = (ok, nxt, t)
                continue
            f = full[pc]
            if part and part > len(f[2]):
                if (ok, nxt, t) != f:
                    return 'position %d with a buffer of %d: %r, otherwise %r' % (pc, part, t[:100], f[2][:100])
            elif not f[2].startswith(t):
                if part:
                    return 'position %d with a buffer of %d: %r is no beginning of %r' % (pc, part, t[:100], f[2][:100])
            elif nxt not in (pc, f[1]):
                return 'position %d with a buffer of %d leads to %d' % (pc, part, nxt)
        if rs[0].lines[0] != 'compile 0 ok' or not full:
            return 'not compiled: %s' % rs[0].lines[:1]
    yield Unit([(var, c)], judge, src + fn.encode(), None)


def families(tier):
    return [
        Fam('programs', p_prog, 250, 5000, ('asan', 'fast')),
        Fam('wide', p_wide, 60, 1500, ('asan', 'fast')),
        Fam('far', p_far, 24, 300, ('asan', 'fast')),
        Fam('host functions', p_host, 20, 300, ('asan', 'fast')),
        Fam('units', p_units, 80, 1500, ('asan', 'fast')),
        Fam('caps', p_caps, 40, 600, ('asan', 'fast', 'msan')),
    ]
