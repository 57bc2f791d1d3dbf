"""C27: modules brought in by use define what they promise."""
import json
from vlib import progs, gen, lang
from vlib.core import Fam, Unit, diff
from vlib.run import Case, cmd, unesc
from checks.c07 import macros
from checks.c15 import lang_lit

SCALE = 6
RULE = ('Random programs with use statements among their declarations: recording modules log their arguments, name and what they can look up (compared with the text, in order, exactly once), failing and unknown ones '
        'must make the compile fail with their message, compiling and binding ones define functions, types and constants that the program uses before and after them. The array, dict, delegate and json modules are '
        'instantiated for random types and names, several times and in several compiles, and driven by random operations whose results are compared with Python models (JSON also with an independent parser). Distinct by program.')

E = progs.emitted


def escq(s):
    return lang.escq(s.encode('latin-1') if isinstance(s, str) else s)


def b2s(v):
    return v.encode('latin-1') if isinstance(v, str) else v


def Ev(*vals):
    return E(*[b2s(v) for v in vals])


def q(s):
    """Language literal of a str."""
    out = ''
    for ch in s:
        out += {'"': '\\"', '\\': '\\\\', '\n': '\\n', '\t': '\\t'}.get(ch, ch)
    return '"' + out + '"'


def name(r, used, pre=''):
    while True:
        n = pre + ''.join(r.choice('abcdefghijXYZ_019'[:14 if k == 0 else 17]) for k in range(r.choice([1, 2, 3, 5, 9, 30])))
        if n not in used and n not in ('if', 'else', 'func', 'for', 'use', 'as', 'int', 'str', 'any', 'new'):
            used.add(n)
            return n


def argtext(r):
    k = r.randrange(6)
    if k == 0:
        return ''
    if k == 1:
        return r.choice(['use', 'func f() {', '}', '//', '"', '\\', '\n', 'a b', '%s', '\t|', "'"])
    if k == 2:
        return 'x' * r.choice([10, 255, 256, 1000, 5000])
    return ''.join(r.choice('abc XYZ,.()"\\{}019') for _ in range(r.randrange(1, 12)))


TYS = ['int', 'float', 'str', 'bool', 'any']


# ---- the protocol --------------------------------------------------------------------------------

def p_protocol(ctx):
    """log and refl modules among declarations; perhaps one fails or is unknown."""
    r = ctx.rng
    used = set()
    parts, info = [], {}     # info: name -> what refl must say
    structs, funcs = [], []
    for _ in range(r.choice([0, 1, 3])):
        s = name(r, used, 'S')
        structs.append(s)
    def ty():
        t = r.choice(TYS + structs)
        return t + '?' if r.random() < .2 and t != 'any' else t
    decl = []
    for s in structs:
        fs = [('f%d' % i, ty()) for i in range(r.randrange(1, 6))]
        decl.append('struct %s { %s }' % (s, ' '.join('%s: %s' % f for f in fs)))
        info[s] = 'struct ' + ' '.join('%s:%s' % f for f in fs)
    for _ in range(r.choice([0, 1, 3])):
        f = name(r, used, 'f')
        a = [('p%d' % i, ty()) for i in range(r.randrange(0, 5))]
        ret = r.choice([None, 'int', 'str', 'bool'])
        decl.append('func %s(%s)%s { %s }' % (f, ', '.join('%s: %s' % x for x in a), ': ' + ret if ret else '', {None: '', 'int': 'return 1', 'str': 'return "s"', 'bool': 'return true'}[ret]))
        info[f] = 'func' + ''.join(' %s:%s' % x for x in a) + ' -> ' + (ret or 'void')
    for _ in range(r.choice([0, 1, 2])):
        c = name(r, used, 'C')
        t = r.choice(['int', 'float', 'str', 'bool'])
        v = {'int': r.randrange(10 ** 12), 'float': r.choice([0.5, 1.25, 1e6]), 'str': r.choice(['', 'abc', 'a b']), 'bool': r.random() < .5}[t]
        decl.append('%s :: %s' % (c, lang_lit(v.encode() if t == 'str' else v)))
        info[c] = 'const %s %s' % (t, lang.ser(v.encode() if t == 'str' else v))
    info['strlen'] = 'foreign str -> int'
    info['nosuch_zz'] = 'missing'
    info['int'] = 'type int'
    exp = []
    uses = []
    nu = r.choice([1, 2, 4, 9])
    bad = r.randrange(nu) if r.random() < .35 else None
    badmsg = None
    like = r.sample(['As', 'AS', 'aS', 'asx', 'as_', 'a', 'ass'], 4)
    for i in range(nu):
        as_ = name(r, used, 'm') if r.random() < .7 else None
        tail = ' as ' + as_ if as_ else ''
        if not as_ and bad != i and like and r.random() < .5:
            # the next statement only begins nearly like that
            tail = ' %s := %d' % (like.pop(), i)
        if bad == i:
            k = r.randrange(3)
            if k == 0:
                msg = r.choice(['plain message', 'with %s %d %n', 'x' * r.choice([100, 500]), 'q"uo\\te', ''])
                uses.append('use fail(%s)%s' % (q(msg), tail))
                exp.append('macro fail %s 1 "%s"' % (as_ or '-none-', escq(msg)))
                badmsg = msg
            elif k == 1:
                nm = name(r, used, 'u')
                uses.append('use %s(%s)%s' % (nm, ', '.join(q(argtext(r)[:50]) for _ in range(r.randrange(1, 4))), tail))
                badmsg = nm
            else:
                inner = r.choice(['emit(undefined_thing)', 'func (', 'x := 1 x := 2', 'z : nosuchtype = 4'])
                uses.append('use comp(%s)%s' % (q(inner), tail))
                exp.append('macro comp %s 1 "%s"' % (as_ or '-none-', escq(inner)))
                badmsg = 'nested: '
            continue
        if r.random() < .5:
            args = [argtext(r) for _ in range(r.choice([1, 2, 5, 20, 100]))]
            uses.append('use log(%s)%s' % (', '.join(q(a) for a in args), tail))
            if bad is None or i < bad:
                exp.append('macro log %s %d %s' % (as_ or '-none-', len(args), ' '.join('"%s"' % escq(a) for a in args)))
        else:
            args = r.sample(sorted(info), r.randrange(1, min(5, len(info)) + 1))
            uses.append('use refl(%s)%s' % (', '.join(q(a) for a in args), tail))
            if bad is None or i < bad:
                exp.append('macro refl %s %d %s' % (as_ or '-none-', len(args), ' '.join('"%s"' % a for a in args)))
                exp += ['refl %s %s' % (a, info[a]) for a in args]
    # interleave, keeping the order of the uses; constants come first because they are known in text order anyway
    seq = decl + ['emit(%d)' % i for i in range(r.randrange(3))]
    r.shuffle(seq)
    pos = sorted(r.randrange(len(seq) + 1) for _ in uses)
    evs = [int(s[5:-1]) for s in seq if s.startswith('emit(')]
    for p, u in reversed(list(zip(pos, uses))):
        seq.insert(p, u)
    lines = []
    for s in seq:
        lines.append(s + r.choice(['\n', '\n\n', '\n', ' // c\n']))
    src = ''.join(lines) + 'z_last := 0'
    badline = src[:src.index(uses[bad])].count('\n') + 1 if bad is not None else None
    if bad is not None and src.count(uses[bad]) > 1:
        return
    c = Case(gen.setup())
    macros(c, 0)
    c.add('compile', 0, 'main.tiny', src)
    ctx.count('use statements', nu)
    if bad is None:
        progs.begin(c)
        c.add('run', 0)
        progs.finish(c)
        exp += ['compile 0 ok'] + [E(v) for v in evs] + ['done 0 sp=0 fc=0']
        yield Unit([(r.choice(['asan', 'fast']), c)], lambda rs: diff(exp, rs[0].lines), src, src[:3000])
        return
    ctx.count('failing uses')
    c.add('delstate', 0)

    def judge(rs):
        l = rs[0].lines
        d = diff(exp, l[:-1])
        if d:
            return d
        if not l[-1].startswith('compile 0 err '):
            return 'not refused: ' + l[-1][:200]
        m = unesc(l[-1].split('"')[1]).decode('latin-1')
        if badmsg[:60] not in m[m.find('ERROR main'):]:
            return 'the message does not tell the reason: ' + m[-250:]
        if 'main.tiny(%d)' % badline not in m:
            return 'the message does not name line %d: %s' % (badline, m[-300:])
    yield Unit([(r.choice(['asan', 'fast']), c)], judge, src, src[:3000])


def p_place(ctx):
    """use belongs to the top level."""
    r = ctx.rng
    u = r.choice(['use log("a")', 'use array("int") as zz', 'use log("a") as n'])
    src, what = r.choice([
        ('func f() { %s }' % u, 'a use in a function'),
        ('if true { %s }' % u, 'a use in a block'),
        ('{ %s }' % u, 'a use in a block'),
        ('while false { %s }' % u, 'a use in a loop'), ('while false %s' % u, 'a use in a loop'), ('for i := 0; i < 2; i += 1 %s' % u, 'a use in a loop'), ('if true %s' % u, 'a use as the body of an if'), ('if true { } else %s' % u, 'a use as the body of an if'),
        ('if true emit(1) else if false { } else %s' % u, 'a use as the body of an if'), ('if false %s else { }' % u, 'a use as the body of an if'), ('func f() %s' % u, 'a use in a function'), ('func f() { if true %s }' % u, 'a use in a function'),
        ('use', 'use alone'), ('use log', 'no argument list'), ('use log(', 'unterminated'), ('use log("a"', 'unterminated'), ('use log(a)', 'argument not a string'),
        ('use log(1)', 'argument not a string'), ('use log("a") as', 'no name'), ('use log("a") as 5', 'no name'), ('use "log"("a")', 'no name'), ('use log("a") as "x"', 'no name'),
        ('struct S { %s }' % u, 'a use among fields'), ('x := %s' % u, 'a use as an expression')])
    c = Case(gen.setup())
    macros(c, 0)
    c.add('compile', 0, 'm', src + r.choice(['', '\nemit(1)', ' x := 5']))
    c.add('delstate', 0)

    def judge(rs):
        if len(rs[0].lines) != 1 or not rs[0].lines[0].startswith('compile 0 err '):
            return 'accepted although %s: %s' % (what, rs[0].lines[:3])
    yield Unit([(r.choice(['asan', 'fast']), c)], judge, '\n'.join(c.cmds), src)


# ---- modules that define things ------------------------------------------------------------------

def p_define(ctx):
    r = ctx.rng
    used = set()
    pre, post, uses, exp_m = [], [], [], []
    first, ev_first, ev = [], [], []       # the top-level code of modules runs before the program's own
    for _ in range(r.choice([1, 2, 4])):
        k = r.randrange(6)
        n = name(r, used, 'd')
        a, b = r.randrange(1000), r.randrange(1000)
        if k == 0:
            t = 'func %s(a: int): int { return a * %d + %d }' % (n, a, b)
            uses.append(('comp', [t], None))
            (pre if r.random() < .5 else post).append(('emit(%s(3))' % n, E(3 * a + b)))
        elif k == 1:
            t = 'struct %s { a: int b: str }\nfunc mk_%s(x: int): %s { return new %s { x, "m" } }' % (n, n, n, n)
            uses.append(('comp', [t], None))
            (pre if r.random() < .5 else post).append(('emit(mk_%s(%d).a, (new %s { %d, "w" }).b)' % (n, a, n, b), E(a, b'w')))
        elif k == 2:
            t = '%s :: %d\nemit("mod", %s)' % (n, a, n)
            uses.append(('comp', [t], None))
            ev_first.append(E(b'mod', a))
        elif k == 3:
            t = '%s := %d\nfunc inc_%s() { %s += 1 }' % (n, a, n, n)
            uses.append(('comp', [t], None))
            post.append(('inc_%s() inc_%s()\nemit(7)' % (n, n), E(7)))
        elif k == 4:
            uses.append(('bind', ['(int, str): void'], n))
            (pre if r.random() < .5 else post).append(('%s(%d, "t")' % (n, a), E(a, b't')))
        else:
            uses.append(('mtype', [''], n))
            f = name(r, used, 'h')
            # the handler names the type in its signature before or after the use
            t = 'func %s(x: %s): int { return %s_id(x) + %s_answer * 0 }' % (f, n, n, n)
            t = 'func %s(x: %s): int { return %s_id(x) }' % (f, n, n)
            (pre if r.random() < .5 else post).append(('%s\nemit(%s(%s_make(%d)))' % (t, f, n, a), E(a)))
        u = uses[-1]
        exp_m.append('macro %s %s %d %s' % ({'mtype': 'type'}.get(u[0], u[0]), u[2] or '-none-', len(u[1]), ' '.join('"%s"' % escq(x) for x in u[1])))
    body = [x[0] for x in pre]
    mid = ['use %s(%s)%s' % (m, ', '.join(q(x) for x in a), ' as ' + n if n else '') for m, a, n in uses]
    # a type has to be known where it is named
    pre_ok = [x for x in pre if not x[0].startswith('func h')]
    late = [x for x in pre if x[0].startswith('func h')]
    # structs made by modules are only known by name after parsing, so they may be named before too
    src = '\n'.join([x[0] for x in pre_ok] + mid + [x[0] for x in late + post])
    ev = [x[1] for x in pre_ok] + [x[1] for x in late + post]
    c = Case(gen.setup())
    macros(c, 0)
    c.add('compile', 0, 'm', src)
    progs.begin(c, gc=r.choice([0, 1]))
    c.add('run', 0)
    progs.finish(c)
    exp = exp_m + ['compile 0 ok'] + ev_first + ev + ['done 0 sp=0 fc=0']
    yield Unit([(r.choice(['asan', 'fast']), c)], lambda rs: diff(exp, rs[0].lines), src, src)


# ---- arrays of every type ------------------------------------------------------------------------

class T:
    """An element type: text and a generator of (expression, Python value for serialisation)."""

    def __init__(self, text, make, conv=None):
        self.text, self.make = text, make


class Raw(str):
    """Already serialised."""


def ser(v):
    return v if isinstance(v, Raw) else lang.ser(b2s(v))


def emitl(*vals):
    return 'emit 0 %d %s' % (len(vals), ' '.join(ser(v) for v in vals))


def mkint(r, st):
    v = r.choice([0, 1, -1, 7, 255, 256, 2 ** 31, -2 ** 40, r.randrange(-99, 99)])
    return lang_lit(v), v


def mkfloat(r, st):
    v = r.choice([0.0, 1.5, -2.25, 100.0, r.randrange(-800, 800) / 8])
    return lang_lit(v), v


def mkstr(r, st):
    v = r.choice(['', 'a', 'abc', 'x' * 40, 'q"\\'])
    return q(v), v


def mkbool(r, st):
    v = r.random() < .5
    return lang_lit(v), v


def mkany(r, st):
    e, v = r.choice([mkint, mkfloat, mkstr, mkbool])(r, st)
    return 'cast(%s, any)' % e, v


def mkstruct(r, st):
    a = r.randrange(100)
    return 'new P { %d, "p%d" }' % (a, a), ('P', a)


PRIM = [T('int', mkint), T('float', mkfloat), T('str', mkstr), T('bool', mkbool), T('any', mkany), T('P', mkstruct)]


def show(v):
    """How emit shows one value that occurs alone."""
    if isinstance(v, tuple):
        return Raw('S#0{i%d,s"p%d"}' % (v[1], v[1]))
    return v


def p_array(ctx):
    r = ctx.rng
    used = set()
    L = ['struct P { a: int s: str }']
    kinds = []
    for _ in range(r.choice([1, 2, 3])):
        t = r.choice(PRIM)
        n = name(r, used, 'v')
        L.append('use array("%s") as %s' % (t.text, n))
        kinds.append((n, t))
        if r.random() < .2:
            L.append(L[-1])          # once more the same
    if r.random() < .4:              # arrays of arrays
        n, t = kinds[0]
        n2 = name(r, used, 'w')
        L.append('use array("%s") as %s' % (n, n2))
        nested = (n2, n, t)
    else:
        nested = None
    ev = []
    arrs = []
    nv = 0
    if r.random() < .5:
        # uses may follow what they define
        L = L[:1] + ['func early(): int { return %s_len(%s()) }' % (kinds[0][0], kinds[0][0])] + L[1:]
    for _ in range(r.choice([5, 20, 50])):
        if not arrs or r.random() < .15:
            n, t = r.choice(kinds)
            init = [t.make(r, None) for _ in range(r.choice([0, 1, 3, 10]))]
            nv += 1
            L.append('x%d := %s(%s)' % (nv, n, ', '.join(e for e, _ in init)))
            arrs.append(('x%d' % nv, n, t, [v for _, v in init]))
            continue
        x, n, t, vals = r.choice(arrs)
        k = r.randrange(13)
        e, v = t.make(r, None)
        i = r.randrange(len(vals)) if vals else None
        if k < 2:
            L.append('%s_push(%s, %s)' % (n, x, e) if k else '%s->%s_push(%s)' % (x, n, e))
            vals.append(v)
        elif k == 2 and vals:
            L.append('emit(%s[%d])' % (x, i))
            ev.append(emitl(show(vals[i])))
        elif k == 3 and vals:
            L.append('%s[%d] = %s' % (x, i, e))
            vals[i] = v
        elif k == 4 and vals:
            L.append('emit(%s_pop(%s))' % (n, x))
            ev.append(emitl(show(vals.pop())))
        elif k == 5 and vals:
            L.append('emit(%s_shift(%s))' % (n, x))
            ev.append(emitl(show(vals.pop(0))))
        elif k == 6 and vals:
            L.append('%s_remove(%s, %d)' % (n, x, i))
            vals.pop(i)
        elif k == 7 and vals:
            L.append('%s_insert(%s, %d, %s)' % (n, x, i, e))
            vals.insert(i, v)
        elif k == 8:
            m = r.choice([0, 1, len(vals), len(vals) + 3, 20])
            L.append('%s_resize_fill(%s, %d, %s)' % (n, x, m, e))
            vals[:] = vals[:m] + [v] * (m - len(vals))
        elif k == 9 and vals:
            L.append('%s_set(%s, %d, %s)\nemit(%s_get(%s, %d))' % (n, x, i, e, n, x, i))
            vals[i] = v
            ev.append(emitl(show(v)))
        elif k == 10 and r.random() < .3:
            L.append('%s_clear(%s)' % (n, x))
            vals.clear()
        elif k == 11 and t.text == 'int':
            L.append('%s_sort(%s)' % (n, x))
            vals.sort()
        else:
            L.append('emit(%s_len(%s), %d)' % (n, x, nv))
            ev.append(emitl(len(vals), nv))
    if nested:
        n2, n, t = nested
        mine = [a for a in arrs if a[1] == n]
        if mine:
            L.append('zz := %s(%s)' % (n2, ', '.join(a[0] for a in mine)))
            for j, a in enumerate(mine):
                L.append('emit(%s_len(zz[%d]), zz[%d] == %s)' % (n, j, j, a[0]))
                ev.append(emitl(len(a[3]), True))
                if a[3]:
                    L.append('emit(zz[%d][%d])' % (j, len(a[3]) - 1))
                    ev.append(emitl(show(a[3][-1])))
    for x, n, t, vals in arrs:
        for i in range(min(len(vals), 6)):
            L.append('emit(%s[%d])' % (x, i))
            ev.append(emitl(show(vals[i])))
    ctx.count('array types instantiated', len(kinds))
    src = '\n'.join(L) + '\nemit("end")'
    yield progs.text_unit(src, ev + [emitl('end')], var=r.choice(['asan', 'fast']), gc=r.choice([0, 1, 2]))


WRONG = {'int': '"s"', 'float': '1', 'str': '5', 'bool': '1', 'P': '5'}


def p_types(ctx):
    """The functions of a module carry the types promised: misuse is rejected, use with the right type is not."""
    r = ctx.rng
    t = r.choice(PRIM)
    ok = r.random() < .5
    u = r.choice(PRIM)
    e, _ = t.make(r, None)
    pre = 'struct P { a: int s: str }\nstruct R { z: int }\nuse array("%s") as av\nuse array("%s") as aw\nx := av(%s)\ny := aw()\n' % (t.text, u.text, e)
    w = WRONG.get(t.text)
    goods = ['av_push(x, %s)' % e, 'x[0] = %s' % e, 'av_set(x, 0, %s)' % e, 'av_resize_fill(x, 4, %s)' % e, 'av_insert(x, 0, %s)' % e, 'v: %s = x[0]' % t.text, 'v: %s = av_pop(x)' % t.text, 'v: int = av_len(x)', 'av_resize(x, 1)',
             'func f(a: av): %s { return a[0] }\nemit(f(x))' % t.text, 'struct Q { m: av } q := new Q { x } q.m = x', 'av_remove(x, 0)', 'v: any = x[0]', 'v: %s? = cast(null, %s?)' % ('av', 'av')]
    bads = ['x = y', 'aw_push(x, %s)' % u.make(r, None)[0], 'av_push(y, %s)' % e, 'v: aw = x', 'v: int = x', 'x["a"]', 'emit(x["a"])', 'x[1.5] = %s' % e, 'emit(x[true])', 'av_len()', 'av_len(x, 1)', 'av_push(x)', 'av_remove(x, "a")',
            'func f(a: aw) { }\nf(x)', 'struct Q { m: aw } q := new Q { x }', 'emit(x + x)', 'x.len', 'v := av_push(x, %s)' % e, 'v: str = av_len(x)', 'av_set(x, "k", %s)' % e, 'v: R = x[0]' if t.text != 'R' else 'x = y', 'x += 1', 'if x { }']
    if w:
        bads += ['av_push(x, %s)' % w, 'x[0] = %s' % w, 'av_set(x, 0, %s)' % w, 'av_resize_fill(x, 3, %s)' % w, 'av_insert(x, 0, %s)' % w]
        bads += ['v: %s = x[0]' % z for z in ('int', 'float', 'str', 'bool') if z != t.text] * 2
        bads += ['av_push(x, cast(1, any))']
    if t.text not in ('int',):
        bads.append('av_sort(x)')
    if ok:
        yield progs.accept_unit(pre + r.choice(goods), 'a right use of an array of %s' % t.text)
    else:
        for b in set(r.choice(bads) for _ in range(3)) | set(['av_sort(x)'] if t.text != 'int' and r.random() < .5 else []):
            yield progs.reject_unit(pre + b, 'a wrong use of an array of %s' % t.text)


BADUSE = [('use array("nosuch") as aa', 'exist'), ('use array("int")', 'as'), ('use array("int", "str") as aa', 'argument'), ('use array("") as aa', ''), ('use delegate("nosuch") as dd', 'exist'),
          ('func f() { }\nuse delegate("f")', 'as'), ('func f() { }\nuse delegate("f", "f") as dd', 'argument'), ('use json("nosuch")', ''), ('use json("int")', 'struct'), ('struct P { a: int }\nuse json("P", "P")', 'argument'),
          ('struct P { a: P? b: int }\nuse json("P")', ''), ('use nosuch("a")', 'nosuch'), ('use arrayx("int") as ax', 'arrayx'), ('use arra("int") as ax', 'arra'), ('use Array("int") as ax', 'Array'), ('struct P { a: int }\nuse jsons("P")', 'jsons'),
          ('struct P { a: int }\nuse jso("P")', 'jso'), ('func f() { }\nuse delegate_("f") as mk', 'delegate_'), ('func f() { }\nuse delegat("f") as mk', 'delegat'), ('use dict("int") as d', 'dict'),
          ('func f(a: int) { }\nuse delegate("f1") as mk', 'exist'), ('func f1(a: int) { }\nuse delegate("f") as mk', 'exist'), ('struct P { a: int }\nuse array("P1") as ax', 'exist'), ('struct P1 { a: int }\nuse array("P") as ax', 'exist'), ('struct P1 { a: int }\nuse json("P")', ''),
           ('struct A { b: B }\nstruct B { a: A }\nuse json("A")', ''), ('struct A { a: A }\nuse json("A")', 'contains itself'),
          ('use fopen("a")', 'fopen'), ('use int("a")', ''), ('struct P { d: dict }\nuse json("P")', ''), ('use array("P2") as ap', 'exist')]


def p_baduse(ctx):
    """Instantiations that cannot work are refused with a message; the state goes on."""
    r = ctx.rng
    src, word = BADUSE[ctx.i % len(BADUSE)]
    c = Case(gen.setup())
    if r.random() < .5:
        c.add('compile', 0, 'zero', 'z0 := 1')
    ln = r.randrange(4)
    pre = '\n' * ln
    c.add('compile', 0, 'main', pre + src)
    c.add('compile', 0, 'after', 'use array("int") as aa\nx := aa(3)\nemit(x[0])')
    c.add('thread', 0, 0)
    c.add('start', 0)
    c.add('run', 0)
    progs.finish(c)
    line = src[:src.index('use ')].count('\n') + 1 + ln

    def judge(rs):
        l = [x for x in rs[0].lines]
        if len(l) > 3:
            l = l[-4:]
        if not l[0].startswith('compile 0 err '):
            return 'not refused: %s' % l[0][:200]
        m = unesc(l[0].split('"')[1]).decode('latin-1')
        if 'main(%d)' % line not in m or word not in m.rsplit('ERROR', 1)[-1]:
            return 'message: ' + m[-300:]
        return diff(['compile 0 ok', E(3), 'done 0 sp=0 fc=0'], l[1:])
    yield Unit([(r.choice(['asan', 'fast']), c)], judge, '\n'.join(c.cmds), src)


# ---- delegates -----------------------------------------------------------------------------------

def p_delegate(ctx):
    r = ctx.rng
    used = set()
    L = ['struct P { a: int s: str }', 'use array("int") as ai']
    funcs = []      # (name, argtypes, ret, foreign)
    binds = []
    mk = {'int': mkint, 'float': mkfloat, 'str': mkstr, 'bool': mkbool, 'any': mkany, 'P': mkstruct}
    sigs = [([r.choice(list(mk)) for _ in range(r.choice([0, 1, 1, 2, 3, 6, 12, 24]))], r.choice(['int', 'str', 'void', 'bool', 'float', 'any', 'P'])) for _ in range(r.choice([1, 2]))]
    n = r.choice([1, 2, 4])
    uses, ev = [], []
    for k in range(n):
        a, ret = r.choice(sigs)
        f = name(r, used, 'f')
        foreign = r.random() < .25 and ret in ('int', 'void') and 'P' not in a
        if foreign:
            j = len(binds)
            binds.append((f, a, ret, j))
        else:
            v = {'int': str(k + 100), 'str': '"r%d"' % k, 'bool': 'true', 'float': '%d.5' % k, 'any': 'cast(%d, any)' % k, 'P': 'new P { %d, "p%d" }' % (k, k), 'void': ''}[ret]
            L.append('func %s(%s)%s { emit("%s"%s) return %s; }' % (f, ', '.join('a%d: %s' % (i, t) for i, t in enumerate(a)), ': ' + ret if ret != 'void' else '', f, ''.join(', a%d' % i for i in range(len(a))), v)
                     if ret == 'void' else 'func %s(%s): %s { emit("%s"%s) return %s }' % (f, ', '.join('a%d: %s' % (i, t) for i, t in enumerate(a)), ret, f, ''.join(', a%d' % i for i in range(len(a))), v))
        funcs.append((f, a, ret, foreign, k))
    for f, a, ret, foreign, k in funcs:
        m = name(r, used, 'mk')
        uses.append(('use delegate("%s") as %s' % (f, m), m, f, a, ret, foreign, k))
    us = [u[0] for u in uses]
    if r.random() < .5:
        L += us
        us = []
    body = []
    groups = {}
    for i, u in enumerate(uses):
        _, m, f, a, ret, foreign, k = u
        t = 'delegate_%s_%s' % ('_'.join(a), ret)
        groups.setdefault(t, []).append(u)
        body.append('%s := %s()' % ('g%d' % i, m))
    def called(u, vals):
        _, m, f, a, ret, foreign, k = u
        shown, ids = [], {}
        for v in vals:
            if isinstance(v, tuple):
                ids[len(ids)] = v
                shown.append('S#%d{i%d,s"p%d"}' % (len(ids) - 1, v[1], v[1]))
            else:
                shown.append(ser(v))
        if foreign:
            j = [b for b in binds if b[0] == f][0][3]
            return ' '.join(['spy%d 0 %d' % (j, len(vals))] + shown)
        return ' '.join(['emit 0 %d s"%s"' % (len(vals) + 1, f)] + shown)

    def result(u):
        _, m, f, a, ret, foreign, k = u
        if foreign:
            return 500 + [b for b in binds if b[0] == f][0][3]
        return {'int': k + 100, 'str': 'r%d' % k, 'bool': True, 'float': k + .5, 'any': k, 'P': ('P', k)}.get(ret)
    for _ in range(r.choice([3, 8])):
        i = r.randrange(len(uses))
        u = uses[i]
        t = 'delegate_%s_%s' % ('_'.join(u[3]), u[4])
        args = [mk[x](r, None) for x in u[3]]
        lst = ''.join(', ' + e for e, _ in args)
        how = r.randrange(5)
        d = 'g%d' % i
        if not u[3]:
            # the call function of a delegate without parameters
            tn = 'delegate__%s' % u[4]
            assert tn == t
        if how == 1:
            d = '%s()' % u[1]
        elif how == 2:        # through another variable, which held another one of the type before
            o = uses.index(r.choice(groups[t]))
            body.append('if true { w := g%d w = g%d %s }' % (o, i, 'emit(%s_call(w%s))' % (t, lst) if u[4] != 'void' else '%s_call(w%s)' % (t, lst)))
            ev.append(called(u, [v for _, v in args]))
            if u[4] != 'void':
                ev.append(emitl(show(result(u))))
            # variables at the top level are global: w may exist once
            body[-1] = body[-1].replace('w :=', 'w%d :=' % len(body)).replace(' w =', ' w%d =' % len(body)).replace('_call(w', '_call(w%d' % len(body))
            continue
        elif how == 3:
            d = 'cast(cast(g%d, any), %s)' % (i, t)
        elif how == 4 and r.random() < .5:
            nm = 'S%d' % len(body)
            body.append('struct %s { d: %s }\nv%s := new %s { g%d }' % (nm, t, nm, nm, i))
            d = 'v%s.d' % nm
        call = '%s->%s_call(%s)' % (d, t, lst[2:]) if r.random() < .3 and how == 0 else '%s_call(%s%s)' % (t, d, lst)
        body.append('emit(%s)' % call if u[4] != 'void' else call)
        ev.append(called(u, [v for _, v in args]))
        if u[4] != 'void':
            ev.append(emitl(show(result(u))))
    L += body
    L = L[:1] + L[1:] + us
    src = '\n'.join(L)
    extra = []
    for f, a, ret, j in binds:
        extra.append(cmd('bind', '0', '%s(%s): %s' % (f, ', '.join(a), ret), 'spy%d' % j))
        if ret == 'int':
            extra.append(cmd('spy', '%d' % j, 'v', 'i%d' % (500 + j)))
    ctx.count('delegates', len(uses))
    yield progs.text_unit(src, ev, var=r.choice(['asan', 'fast']), gc=r.choice([0, 1]), extra=extra)


def p_longdel(ctx):
    """Delegates with long names and many parameters: either they work, or the text is refused and the state stays usable."""
    r = ctx.rng
    tn = 'T' + 'y' * r.choice([0, 3, 20, 60, r.randrange(100, 130), r.randrange(200, 260), r.randrange(440, 520), 1000, 5000])
    w = r.choice([0, 0, 1, 2, 3])
    room = r.choice([100, 300, r.randrange(470, 530), r.randrange(490, 515), 1200])
    kinds = ['int', 'str', 'float', tn]
    a = []
    while True:
        t = r.choice(kinds if w != 1 else kinds[:3])
        if sum(len(x) + 1 for x in a) + len(t) > room or len(a) >= 250:
            break
        a.append(t)
        if w == 3 and len(a) >= r.choice([1, 2, 4]):
            break
    if not a:
        a = [tn]
    ret = r.choice(['void', 'int', 'str', tn])
    f = 'f' + 'u' * r.choice([0, 0, 10, 200, r.randrange(400, 520), r.randrange(1800, 2100), r.randrange(4000, 4100)] if w in (0, 2) else [0, 3])
    mk = 'mk' + 'k' * r.choice([0, 0, 10, 200, r.randrange(400, 520), r.randrange(1800, 2100), r.randrange(4000, 4100)] if w in (0, 3) else [0, 3])
    foreign = r.random() < .3
    rv = {'void': '', 'int': '77', 'str': '"rr"'}.get(ret, 'new %s { 5 }' % tn)
    vals, args, shown = [], [], []
    for i, t in enumerate(a):
        n = r.randrange(50)
        args.append({'int': '%d' % n, 'str': '"s%d"' % n, 'float': '%d.5' % n}.get(t, 'new %s { %d }' % (tn, n)))
        shown.append({'int': 'i%d' % n, 'str': 's"s%d"' % n, 'float': ser(n + .5)}.get(t, 'i%d' % n))
    few = sorted(r.sample(range(len(a)), min(len(a), 6)))
    c = Case(gen.setup())
    decl = 'struct %s { v: int }\n' % tn
    dt = 'delegate_%s_%s' % ('_'.join(a), ret)
    if foreign:
        c.add('compile', 0, 'types', decl)
        c.add('bind', 0, '%s(%s): %s' % (f, ', '.join(a), ret), 'spy9')
        c.add('spy', 9, *{'void': ['n'], 'int': ['v', 'i77'], 'str': ['v', 'c:rr']}.get(ret, ['a%d' % (a.index(tn) if tn in a else 0)]))
        if ret == tn and tn not in a:
            ret = 'int'
            return
        src = ''
    else:
        src = decl + 'func %s(%s)%s { emit(%s) %s }\n' % (f, ', '.join('p%d: %s' % x for x in enumerate(a)), ': ' + ret if ret != 'void' else '',
                                                        ', '.join('p%d%s' % (i, '.v' if a[i] == tn else '') for i in few), 'return ' + rv if rv else '')
    call = '%s_call(%s(), %s)' % (dt, mk, ', '.join(args))
    src += 'use delegate("%s") as %s\n' % (f, mk)
    src += 'emit(1)\n' + ('%s\n' % call if ret == 'void' else 'emit(%s.v)\n' % call if ret == tn else 'emit(%s)\n' % call)
    ev = ['emit 0 1 i1', 'spy' if foreign else ' '.join(['emit 0 %d' % len(few)] + [shown[i] for i in few])]
    if ret != 'void':
        ev.append('emit 0 1 ' + ({'int': 'i77', 'str': 's"rr"'}.get(ret) or ('i5' if not foreign else shown[a.index(tn)])))
    c.add('compile', 0, 'main', src)
    c.add('compile', 0, 'after', 'func good9(n: int): int { return n + 1 }\nuse delegate("good9") as gd9\nemit(delegate_int_int_call(gd9(), 4))')
    progs.begin(c, gc=r.choice([0, 1]))
    c.add('run', 0)
    progs.finish(c)
    small = sum(len(x) + 8 for x in a + [ret]) < 300 and len(f) + len(mk) < 300
    exp = ev + ['emit 0 1 i5', 'done 0 sp=0 fc=0']

    def judge(rs):
        l = rs[0].lines
        l = l[1:] if foreign and l[0] == 'compile 0 ok' else l
        if len(l) < 3:
            return 'incomplete: %s' % l
        ok = l[0] == 'compile 0 ok'
        if small and not ok:
            return 'refused: ' + l[0][:300]
        if l[1] != 'compile 0 ok':
            return 'a correct text is refused afterwards: ' + l[1][:300]
        ctx.count('delegates refused as too long', not ok)
        got = ['spy' if x.startswith('spy9 0 %d ' % len(a)) else x for x in l[2:]]
        return diff(exp if ok else exp[-2:], got)
    yield Unit([('asan', c)], judge, '\n'.join(c.cmds), src[:3000])


TAKEN = ['_push', '_len', '_pop', '_get_index', '_set_index', '_clear', '_sort', '_resize', '_remove', '_insert', '_shift', '_get', '_set', '']


def p_taken(ctx):
    """A module whose functions' names a host function already has is refused; the names of others are free."""
    r = ctx.rng
    mod, ar = 'array', r.choice(['"int"', '"str"', '"float"', '"any"'])
    s = TAKEN[ctx.i % len(TAKEN)]
    c = Case(gen.setup())
    nm = r.choice(['mine', 'm', 'My_arr'])
    c.add('bind', 0, nm + s + r.choice(['', '(...): any', '(any): int']), 'spy9')
    c.add('spy', 9, 'v', 'i55')
    c.add('compile', 0, 'a', 'use %s(%s) as %s' % (mod, ar, nm))
    c.add('compile', 0, 'b', 'use %s(%s) as other\nx := other()\nemit(%s%s(cast(x, any)))' % (mod, ar, nm, s))
    progs.begin(c)
    c.add('run', 0)
    progs.finish(c)

    def judge(rs):
        l = rs[0].lines
        # whether the module minds the name at all is its own affair, but the host's function stays what it is
        if not l[0].startswith('compile 0'):
            return 'odd: %s' % l[0][:200]
        if l[1] != 'compile 0 ok':
            return 'refused: ' + l[1][:300]
        return diff(['spy9 0 1', 'emit 0 1 i55', 'done 0 sp=0 fc=0'], [x[:8] if x.startswith('spy9 0 1 ') else x for x in l[2:]])
    yield Unit([(r.choice(['asan', 'fast']), c)], judge, '\n'.join(c.cmds), None)


def p_clash(ctx):
    """Functions whose parameter types run together to the same delegate type."""
    r = ctx.rng
    base = r.choice([['a', 'b', 'a_b', 'b_a', 'a_b_a'], ['Q', 'Q_Q', 'Q_Q_Q'], ['x', 'y', 'x_int', 'int_x', 'y_x_int'], ['str_S', 'S', 'S_float', 'S_str_S']])
    prim = {'int': 'a%d', 'float': 'a%d', 'str': 'a%d'}
    L = ['struct %s { v: int }' % t for t in base]
    r.shuffle(L)
    tys = base + [t for t in prim if any(t in b for b in base)]
    funcs = []
    sigs = []
    for _ in range(r.choice([1, 2, 3])):
        sigs.append(([r.choice(tys) for _ in range(r.choice([1, 2, 2, 3]))], r.choice(tys + ['void', 'int'])))
    # another way to read the same name
    for a, ret in list(sigs):
        n = '_'.join(a)
        for _ in range(20):
            parts, rest = [], n
            while rest:
                c = [t for t in tys if rest == t or rest.startswith(t + '_')]
                if not c:
                    break
                t = r.choice(c)
                parts.append(t)
                rest = rest[len(t) + 1:]
            else:
                sigs.append((parts, ret))
    val = {'int': ('%d', lambda k: E(k)), 'float': ('%d.5', None), 'str': ('"s%d"', None)}
    seen = {}
    body, ev, uses = [], [], []
    clash = False
    for k in range(r.choice([2, 3, 5])):
        a, ret = r.choice(sigs)
        f = 'f%d' % k
        rv = {'void': '', 'int': '%d' % (100 + k), 'float': '%d.5' % k, 'str': '"r%d"' % k}.get(ret, 'new %s { %d }' % (ret, 100 + k))
        L.append('func %s(%s)%s { emit(%d%s) %s }' % (f, ', '.join('p%d: %s' % x for x in enumerate(a)), ': ' + ret if ret != 'void' else '', k,
                                                      ''.join(', p%d%s' % (i, '.v' if t in base else '') for i, t in enumerate(a)), 'return ' + rv if rv else ''))
        uses.append('use delegate("%s") as mk%d' % (f, k))
        tn = 'delegate_%s_%s' % ('_'.join(a), ret)
        if seen.setdefault(tn, (a, ret)) != (a, ret):
            clash = True
            break
        args, shown = [], []
        for t in a:
            n = r.randrange(50)
            if t in base:
                args.append('new %s { %d }' % (t, n))
                shown.append(n)
            elif t == 'int':
                args.append('%d' % n)
                shown.append(n)
            elif t == 'float':
                args.append('%d.5' % n)
                shown.append(n + .5)
            else:
                args.append('"s%d"' % n)
                shown.append('s%d' % n)
        call = '%s_call(mk%d(), %s)' % (tn, k, ', '.join(args))
        ev.append(' '.join(['emit 0 %d i%d' % (len(a) + 1, k)] + [ser(v) for v in shown]))
        if ret == 'void':
            body.append(call)
        else:
            body.append('r%d := %s\nemit(r%d%s)' % (k, call, k, '.v' if ret in base else ''))
            ev.append('emit 0 1 ' + ser({'int': 100 + k, 'float': k + .5, 'str': 'r%d' % k}.get(ret, 100 + k)))
    # the declarations may come in any order, the instantiations stand in theirs
    src = '\n'.join(r.sample(L, len(L)) + uses + body)
    if clash:
        ctx.count('delegates refused for their name')
        c = progs.text_case(src)
        c.add('compile', 0, 'after', 'emit(1)')
        progs.begin(c)
        c.add('run', 0)
        progs.finish(c)

        def judge(rs):
            l = rs[0].lines
            if not l[0].startswith('compile 0 err ') or 'delegate' not in unesc(l[0].split('"')[1]).decode('latin-1').rsplit('ERROR', 1)[-1]:
                return 'two delegate types with the same name and different parameters: %s' % l[0][-300:]
            return diff(['compile 0 ok', E(1), 'done 0 sp=0 fc=0'], l[1:])
        yield Unit([(r.choice(['asan', 'fast']), c)], judge, src, src)
    else:
        ctx.count('delegates with similar names')
        yield progs.text_unit(src, ev, var=r.choice(['asan', 'fast']), gc=r.choice([0, 1]))


# ---- json ----------------------------------------------------------------------------------------

def p_json(ctx):
    r = ctx.rng
    used = set()
    ns = r.choice([1, 2, 4])
    S = []
    L = []
    for i in range(ns):
        s = name(r, used, 'J')
        fs = []
        fn = set()
        for _ in range(r.choice([1, 2, 5, 12, 40, r.choice([63, 64, 65, 70, 84])])):
            fs.append((name(r, fn, 'f'), r.choice(['int', 'float', 'str', 'bool'] + [x[0] for x in S])))
        S.append((s, fs))
        L.append('struct %s { %s }' % (s, ' '.join('%s: %s' % f for f in fs)))
    D = dict(S)
    r.shuffle(L)
    for s, _ in S if r.random() < .4 else S[-1:]:
        L.append('use json("%s")%s' % (s, r.choice(['', ' as zz%s' % s])))
        if r.random() < .2:
            L.append(L[-1])
    nodes = [0]

    def build(t):
        nodes[0] += 1
        if t == 'int':
            v = r.choice([0, 1, -5, 2 ** 31, -2 ** 63 + 1, 2 ** 63 - 1, r.randrange(1000)])
            return lang_lit(v), str(v), v
        if t == 'float':
            v = r.choice([0.5, 1.25, -3.75, 100.0, 2.0, 1000.5, r.randrange(-8000, 8000) / 8])
            return lang_lit(v), '%g' % v, None
        if t == 'bool':
            v = r.random() < .5
            return ('true', 'true', True) if v else ('false', 'false', False)
        if t == 'str':
            s = r.choice(['', 'abc', 'q"uote', 'back\\slash', 'tab\there', 'two\nlines', '{}[],:', 'x' * 300, 'ab"c\\d\n' * r.choice([150, 700, 3000]), ' ', 'd\xe9j\xe0', '\x7f', '\x01\x1f'])
            return q(s), None, s
        if nodes[0] > 150:
            return None
        es, vs = [], {}
        for f, ft in D[t]:
            x = build(ft)
            if x is None:
                return None
            es.append((f, x[0]))
            vs[f] = x
        if r.random() < .5:
            e = 'new %s { %s }' % (t, ', '.join(x for _, x in es))
        else:
            es2 = list(es)
            r.shuffle(es2)
            e = 'new %s { %s }' % (t, ', '.join('.%s = %s' % x for x in es2))
        return e, vs, t
    vals = []
    for _ in range(r.choice([1, 3])):
        nodes[0] = 0
        x = build(S[-1][0])
        if x:
            vals.append(x)
    if not vals:
        return
    for e, _, _ in vals:
        L.append('emit(%s_to_json(%s))' % (S[-1][0], e))
    if r.random() < .3:       # the use may come before the struct
        u = [l for l in L if l.startswith('use')]
        L = u + [l for l in L if not l.startswith('use')]
    src = '\n'.join(L)
    c = progs.text_case(src.encode('utf-8'))
    progs.begin(c, gc=r.choice([0, 1]))
    c.add('run', 0)
    progs.finish(c)
    ctx.count('values serialised', len(vals))

    def match(j, x):
        e, txt, v = x
        if isinstance(txt, dict):
            if not isinstance(j, dict) or list(j) != [f for f, _ in D[v]]:
                return 'fields %s' % (list(j) if isinstance(j, dict) else j)
            for f in j:
                m = match(j[f], txt[f])
                if m:
                    return m
            return None
        if v is None:
            return None if isinstance(j, (int, float)) and not isinstance(j, bool) and float(j) == float(txt) else '%r for %s' % (j, txt)
        return None if type(j) is type(v) and j == v else '%r for %r' % (j, v)

    def judge(rs):
        l = rs[0].lines
        if l[0] != 'compile 0 ok' or l[-1] != 'done 0 sp=0 fc=0' or len(l) != len(vals) + 2:
            return 'unexpected: %s' % [x[-300:] for x in (l[:1] + l[-1:])]
        for x, line in zip(vals, l[1:]):
            t = unesc(line.split('"')[1]).decode('utf-8', 'surrogateescape')
            try:
                j = json.loads(t)
            except ValueError as ex:
                return 'not JSON (%s): %s' % (ex, t[:300])
            m = match(j, x)
            if m:
                return 'JSON text has %s: %s' % (m, t[:300])
    yield Unit([(r.choice(['asan', 'fast']), c)], judge, src, src[:3000])


def p_with_dict(ctx):
    """The array types the dictionary module names, instantiated by the program."""
    r = ctx.rng
    n = r.choice([0, 1, 5, 20])
    uses = ['use array("any") as array_any', 'use array("str") as array_str']
    L = ['struct P { a: int s: str }', 'd := dict()', 'm := dict_str_int()']
    for i in range(n):
        L.append('dict_put(d, %d, "v%d")' % (i, i))
        L.append('dict_str_int_put(m, "k%d", %d)' % (i, i))
    L += ['ks := dict_keys(d)', 'vs := dict_values(d)', 'ss := dict_str_int_keys(m)', 't := 0', 'u := 0', 'w := 0',
          'for i := 0; i < array_any_len(ks); i += 1 { t += cast(ks[i], int) + 1 }',
          'for i2 := 0; i2 < vs -> array_any_len(); i2 += 1 { w += strlen(cast(vs[i2], str)) }',
          'for i3 := 0; i3 < array_str_len(ss); i3 += 1 { u += dict_str_int_get(m, ss[i3]) + 1 }',
          'emit(t, w, u)', 'array_str_push(ss, "more")', 'array_any_push(ks, 5)', 'emit(array_str_pop(ss), array_any_pop(ks), array_str_len(ss), array_any_len(ks))',
          'f := array_any(1, "two")', 'emit(f[1], array_str("z")[0])']
    tot = n * (n + 1) // 2
    ev = [Ev(tot, sum(len('v%d' % i) for i in range(n)), tot), Ev('more', 5, n, n), Ev('two', 'z')]
    r.shuffle(uses)
    k = r.randrange(4)
    if k == 0:
        src = '\n'.join(uses + L)
    elif k == 1:
        src = '\n'.join(L + uses)
    elif k == 2:
        src = '\n'.join(uses[:1] + L + uses)
    else:
        src = '\n'.join(L)
    if k == 3:
        c = Case(gen.setup())
        c.add('compile', 0, 'first', '\n'.join(uses))
        c.add('compile', 0, 'm', src)
        progs.begin(c, gc=r.choice([0, 1]))
        c.add('run', 0)
        progs.finish(c)
        exp = ['compile 0 ok'] * 2 + ev + ['done 0 sp=0 fc=0']
        yield Unit([(r.choice(['asan', 'fast']), c)], lambda rs: diff(exp, rs[0].lines), '\n'.join(c.cmds), src)
        return
    yield progs.text_unit(src, ev, var=r.choice(['asan', 'fast']), gc=r.choice([0, 1]))


def p_jsonprim(ctx):
    r = ctx.rng
    s = bytes(r.choice([r.randrange(256), r.randrange(32), 34, 92, 97]) for _ in range(r.choice([0, 1, 5, 50, 300])))
    L = ['emit(str_to_json(mkbytes(%s)))' % ', '.join(map(str, s[i:i + 100])) for i in range(0, max(len(s), 1), 100)] if s else ['emit(str_to_json(""))']
    i = r.choice([0, 1, -1, 10, 2 ** 31, -2 ** 31, 2 ** 63 - 1, -2 ** 63 + 1, r.getrandbits(60)])
    L.append('emit(int_to_json(%s), bool_to_json(true), bool_to_json(false))' % lang_lit(i))
    src = '\n'.join(L)
    c = progs.text_case(src, extra=[cmd('bind', '0', 'mkbytes(...): str', 'mkbytes')])
    progs.begin(c)
    c.add('run', 0)
    progs.finish(c)
    parts = [s[k:k + 100] for k in range(0, max(len(s), 1), 100)]

    def judge(rs):
        l = rs[0].lines
        if len(l) != len(parts) + 3:
            return 'unexpected: %s' % l[:3]
        for p, line in zip(parts, l[1:]):
            t = unesc(line.split('"')[1]).decode('utf-8', 'surrogateescape')
            try:
                j = json.loads(t)
            except ValueError as ex:
                return 'not JSON (%s): %r' % (ex, t[:300])
            if j != p.decode('utf-8', 'surrogateescape'):
                return '%r is shown as %r' % (p, t[:300])
        return diff([Ev(str(i), 'true', 'false'), 'done 0 sp=0 fc=0'], l[-2:])
    yield Unit([(r.choice(['asan', 'fast', 'msan']), c)], judge, src, src)


def families(tier):
    v = ('asan', 'fast')
    return [
        Fam('protocol', p_protocol, 700, 12000, v),
        Fam('place', p_place, 120, 800, v),
        Fam('define', p_define, 400, 8000, v),
        Fam('array', p_array, 500, 10000, v),
        Fam('types', p_types, 600, 8000, ('fast',)),
        Fam('bad-use', p_baduse, 108, 540, v),
        Fam('delegate', p_delegate, 500, 10000, v),
        Fam('long delegates', p_longdel, 200, 3000, ('asan',)),
        Fam('taken names', p_taken, 40, 200, v),
        Fam('clash', p_clash, 200, 3000, v),
        Fam('json', p_json, 400, 8000, v),
        Fam('with-dict', p_with_dict, 40, 200, v),
        Fam('json-primitive', p_jsonprim, 200, 3000, v + ('msan',)),
    ]
