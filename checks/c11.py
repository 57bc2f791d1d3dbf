"""C11: accepted programs only produce values of their static types."""
from vlib import progs, gen, lang, mutate, split
from vlib.lang import N, Func, Struc
from vlib.core import Fam, Unit, diff
from vlib.run import Case
from checks import c30
from checks.c10 import TY, PREALL, BINDS, pick

SCALE = 2
RULE = ('Well-typed generated programs (inferred types, any, nullable types, struct and array types used before their definition, casts) must be accepted in any order of their '
        'definitions, and every value they hand to an observing function must be of the static type of the expression and equal to the predicted one. For every pair of assignable types and every '
        'place a value can flow through, the value observed at the end must be the value put in. Distinct by program text. Edited programs (see C30) that follow the rules must be accepted and run as predicted.')


def reorder(m, r):
    """Definitions of types and modules anywhere; functions anywhere after the globals they mention."""
    items = list(m.prog.items)
    mov = [i for i in items if not isinstance(i, (N, Func))]
    items = [i for i in items if isinstance(i, (N, Func))]
    for k in range(len(items) - 1, -1, -1):
        if isinstance(items[k], Func) and r.random() < .5:
            f = items.pop(k)
            items.insert(r.randrange(k, len(items) + 1), f)
    for x in mov:
        items.insert(r.randrange(len(items) + 1), x)
    return items


def p_order(ctx):
    r = ctx.rng
    m = progs.make(ctx, r.choice(['types', 'types', 'struct', 'calls', 'default']), steps=12000)
    items = reorder(m, r)
    src = lang.render_items(items, r.choice(['normal', 'wild', 'tight']), r).encode('latin-1')
    c = progs.start(m, src, gc=r.choice([0, 0, 2]), seed=r.randrange(1000))
    c.add('run', 0)
    progs.finish(c)
    yield progs.unit(m, src, [('fast' if r.random() < .6 else 'asan', c)], [['compile 0 ok'] + m.it.ev + ['done 0 sp=0 fc=0']])


def p_trace(ctx):
    """Most sub-expressions pass through an observer declared with their type."""
    r = ctx.rng
    m = progs.make(ctx, r.choice(['types', 'expr', 'struct', 'heap']), trace=r.choice([.3, .6]), emit=.8, depth=r.choice([3, 5]))
    src = progs.source(m, r)
    c = progs.start(m, src, gc=r.choice([0, 1]))
    c.add('run', 0)
    progs.finish(c)
    yield progs.unit(m, src, [('fast', c)], [['compile 0 ok'] + m.it.ev + ['done 0 sp=0 fc=0']])


PREFIX = {'int': 'i', 'float': 'f', 'bool': 'b', 'str': 's', 'P': 'S', 'Q': 'S', 'ai': 'A', 'ai2': 'A', 'ap': 'A', 'nat': 'N', 'box': 'B', 'dict': 'D',
          'intopt': 'i', 'stropt': 's', 'Popt': 'S', 'aiopt': 'A'}


def routes(to, fr, r, base):
    """Ways a value expression @ of type fr travels into something of type to; # is read at the end."""
    p = TY[to][0]
    q = 'NNN'
    out = [
        ('l%s: %s = @' % (q, p), 'l' + q),
        ('g%s = @' % to, 'g' + to),
        ('q%s := new F%s { @ }' % (q, to), 'q%s.f' % q),
        ('q%s := new F%s { .f = @ }' % (q, to), 'q%s.f' % q),
        ('q%s := new F%s { g%s } q%s.f = @' % (q, to, to, q), 'q%s.f' % q),
        ('', 'ret%s(@)' % to),
        ('', 'ret2%s(1, @, "z")' % to),
        ('l%s: any = cast(@, any)' % q if fr != 'any' else 'l%s: any = @' % q, 'l' + q),
        ('l%s := g%s if true { l%s = @ }' % (q, to, q), 'l' + q),
        ('l%s := g%s i%s := 0 while i%s < 3 { l%s = @ i%s += 1 }' % (q, to, q, q, q, q), 'l' + q),
    ]
    if fr == to:
        out.append(('l%s := @' % q, 'l' + q))
        out.append(('l%s := if true @ else g%s' % (q, to), 'l' + q))
        out.append(('l%s := if !true g%s else @' % (q, to), 'l' + q))
        out.append(('c%s := cast(@, any) l%s := cast(c%s, %s)' % (q, q, q, p), 'l' + q))
    if to == 'any':
        out.append(('b%s := box(@)' % q, 'unbox(b%s)' % q))
        out.append(('d%s := dict("k", @)' % q, 'd%s["k"]' % q))
        out.append(('d%s := dict() d%s["k"] = @' % (q, q), 'dict_get(d%s, "k")' % q))
    if to == 'int':
        out.append(('a%s := array_int(7, 8) a%s[1] = @' % (q, q), 'a%s[1]' % q))
        out.append(('a%s := array_int() a%s -> array_int_push(@)' % (q, q), 'array_int_pop(a%s)' % q))
    if to == 'P':
        out.append(('a%s := array_P(@)' % q, 'a%s[0]' % q))
        out.append(('a%s := array_P() array_P_insert(a%s, 0, @)' % (q, q) if False else 'a%s := array_P() array_P_push(a%s, @)' % (q, q), 'array_P_get(a%s, 0)' % q))
    return [(a.replace('NNN', 'n%d' % (base + i)), b.replace('NNN', 'n%d' % (base + i))) for i, (a, b) in enumerate(out)]


RETS = '\n'.join('func ret%s(a: %s): %s { return a }\nfunc ret2%s(z: int, a: %s, y: str): %s { l := a return l }' % (k, p, p, k, p, p) for k, (p, t, e) in TY.items() if k != 'void')


def padding(r):
    return ''.join(r.choice(['pad%d := %d\n', 'func padf%d(): int { return %d }\n', 'struct PadS%d { zx%d: int }\n', 'PADC%d :: %d\n']) % (i, i) for i in range(r.choice([60, 130, 260, 520])))


def p_flow(ctx):
    r = ctx.rng
    names = sorted(k for k in TY if k != 'void')
    to = names[ctx.i % len(names)]
    body = []
    want = []
    for fr in names:
        if not mutate.assignable(TY[fr][1], TY[to][1]):
            continue
        for st, rd in routes(to, fr, r, len(body)):
            e = pick(r, fr)
            while ' else ' in e or '[0]' in e or 'cast(gany' in e or (' if ' in st and e[0] in '(-'):
                e = pick(r, fr)
            if st.startswith('l') and 'if true @' in st and e[0] in '(-':
                continue
            # the expressions mention globals that earlier routes may have changed: read the value first
            t = 'v%d := %s\n%s\nemit(v%d, %s)' % (len(body), e, st.replace('@', 'v%d' % len(body)), len(body), rd.replace('@', 'v%d' % len(body)))
            body.append(t)
            want.append((fr, to, t))
    infunc = r.random() < .5
    if infunc:
        fs = ['func rt%d(): void {\n%s\n}' % (i, t) for i, t in enumerate(body)]
        src = PREALL + RETS + '\n' + '\n'.join(fs) + '\n' + '\n'.join('rt%d()' % i for i in range(len(body)))
    else:
        src = PREALL + RETS + '\n' + '\n'.join(body)
    if r.random() < .3:
        src = padding(r) + src
    c = progs.text_case(src)
    progs.begin(c, gc=r.choice([0, 1, 2]))
    c.add('run', 0)
    progs.finish(c)
    ctx.count('flows', len(body))

    def judge(rs):
        l = rs[0].lines
        if l[0] != 'compile 0 ok':
            return 'a well-typed program was refused: ' + l[0][-300:]
        if l[-1] != 'done 0 sp=0 fc=0':
            return 'end: ' + l[-1]
        l = [x for x in l[1:-1] if x.startswith('emit')]
        if len(l) != len(want):
            return '%d observations instead of %d' % (len(l), len(want))
        for x, (fr, to, t) in zip(l, want):
            k = x.split(' ')
            a, b = k[3], k[4]
            pa, pb = a, b
            if a.startswith(('S#', 'A#', 'D#', 'B#')):
                # the same object is serialised once and then referred to
                if b != a.split('{')[0].split('[')[0].split('(')[0]:
                    return '%s: put in %s, got out %s' % (t, a, b)
            elif a != b:
                return '%s: put in %s, got out %s' % (t, a, b)
            if fr != 'any' and a[0] != PREFIX[fr] and not (a == 'n' and fr.endswith('opt')):
                return '%s: value %s for static type %s' % (t, a, fr)
    yield Unit([(r.choice(['fast', 'asan']), c)], judge, src, '\n'.join(body[:12]))


import re
from checks.c10 import OPS, op_result

# Q has another shape than P, and nothing is empty, so that what is observed tells the types apart
SPRE = re.sub(r'new Q \{ (\d) \}', r'new Q { \1, "q" }', PREALL).replace('struct Q { x: int }', 'struct Q { x: int q: str }').replace('return array_P()', 'return array_P(new P { 3 })')
SPRE += RETS + '\n' + '\n'.join('func obs%s(a: %s): %s { emit("%s", a) return a }' % (k, p, p, k) for k, (p, t, e) in TY.items() if k != 'void') + '\n'
NULLS = {k: 'cast(null, %s)' % TY[k][0] for k in ('intopt', 'stropt', 'Popt', 'aiopt')}
KIND = {'int': r'i', 'float': r'f', 'bool': r'b', 'str': r's', 'P': r'S#\d+(\{i-?\d+\})?$', 'Q': r'S#\d+(\{i-?\d+,? ?s.*\})?$', 'ai': r'A#\d+(\[i.*\]|\[\])?$', 'ai2': r'A#\d+(\[i.*\]|\[\])?$', 'ap': r'A#\d+(\[S.*\]|\[\])?$', 'nat': 'N', 'box': 'B', 'dict': 'D', 'any': ''}


def kind_ok(t, v):
    if t.endswith('opt'):
        if v == 'n':
            return True
        t = t[:-3]
    return re.match(KIND[t], v) is not None


def other(r, k, to):
    """An expression of static type k whose value is not of type `to`, if there is one."""
    if k in NULLS and r.random() < .8:
        return NULLS[k]
    if k == 'any':
        return r.choice([x for x, t in (('cast("s", any)', 'str'), ('cast(1, any)', 'int'), ('cast(gQ, any)', 'Q'), ('cast(2.5, any)', 'float'), ('cast(gai, any)', 'ai')) if not to.startswith(t)])
    e = pick(r, k)
    while 'cast(gany' in e:
        e = pick(r, k)
    if k == 'Q':
        e = re.sub(r'new Q \{ (\d) \}', r'new Q { \1, "q" }', e)
    if k in ('ai', 'ap') and '()' in e and not e.startswith('mk'):
        e = 'mk%s()' % k
    return e


def p_sound(ctx):
    """Flows of every type into every other: most must be refused (C10); whatever is accepted is run, and what arrives must be of the type of the place."""
    r = ctx.rng
    names = sorted(k for k in TY if k != 'void')
    to = names[ctx.i % len(names)]
    tests = []
    for fr in names:
        ok = mutate.assignable(TY[fr][1], TY[to][1])
        rts = routes(to, to, r, len(tests) * 40) if to == 'any' else routes(to, fr, r, len(tests) * 40) + [
            ('l# := g%s l# = @' % to, 'l#'), ('l#: %s = g%s if gbool { l# = @ } else { l# = @ }' % (TY[to][0], to), 'l#'),
            ('q# := new F%s { g%s } p# := q# p#.f = @' % (to, to), 'q#.f')]
        for st, rd in rts:
            if ok and r.random() < .8:
                continue
            e = other(r, fr, to)
            if ' else ' in e and ' if ' in st + rd:
                continue
            if 'if true @' in st and e[0] in '(-' or '@ else' in st and ' else ' in e or '[' in e and 'dict' in st:
                continue
            if re.search(r':= array_(P|int)\(@', st) and not ok:
                continue        # constructors take anything
            if '@' in rd:
                rd, st = 'x#', st + ' x# := ' + rd
            tests.append((to, st.replace('@', e) + ' emit("to") obs%s(%s)' % (to, rd)))
        for a, b, w in ((fr, to, to), (to, fr, to), (fr, to, fr), (to, fr, fr), (fr, fr, to), (to, to, fr), (fr, fr, fr)):
            ea, eb = other(r, a, w), other(r, b, w)
            if ' else ' in ea + eb or ea[0] in '(-':
                continue
            c = r.choice(['gbool', '!gbool', 'gint == 1'])
            tests.append((w, 'l# := if %s %s else %s emit("to") obs%s(l#)' % (c, ea, eb, w)))
            tests.append((w, 'emit("to") obs%s(if %s %s else %s)' % (w, c, ea, eb)))
    # what a function of that result type returns, what a function for [] is given, compound assignments, fields
    # of structs reached through functions
    for fr in names:
        e = other(r, fr, to)
        tf, tt = TY[fr][0], TY[to][0]
        if mutate.assignable(TY[fr][1], TY[to][1]) and r.random() < .8:
            continue
        tests += [
            (to, 'emit("to") obs%s(rx#(%s))' % (to, e), 'func rx#(a: %s): %s { return a }' % (tf, tt)),
            (to, 'emit("to") obs%s(rx#(%s))' % (to, e), 'func rx#(a: %s): %s { if gbool { return a } return g%s }' % (tf, tt, to)),
            (to, 'emit("to") obs%s(rx#(%s))' % (to, e), 'func rx#(b: %s): %s { a := b return if gbool a else a }' % (tf, tt)),
            (to, 'emit("to") obs%s(rx#())' % to, 'func rx#(): %s { return %s }' % (tt, e)),
            (to, 'v# := new Ix# { 1 } emit("to") obs%s(v#[%s])' % (to, e), 'struct Ix# { n: int } func Ix#_get_index(v: Ix#, k: %s): %s { return k }' % (tt, tt)),
            (to, 'v# := new Ix# { g%s } v#[2] = %s emit("to") obs%s(v#[0])' % (to, e, to),
             'struct Ix# { n: %s } func Ix#_get_index(v: Ix#, k: int): %s { return v.n } func Ix#_set_index(v: Ix#, k: int, x: %s) { v.n = x }' % (tt, tt, tt)),
            (to, 'v# := new Ix# { g%s } v#[%s] = g%s emit("to") obs%s(v#[0])' % (to, e, to, to),
             'struct Ix# { n: %s } func Ix#_get_index(v: Ix#, k: int): %s { return v.n } func Ix#_set_index(v: Ix#, k: %s, x: %s) { v.n = k }' % (tt, tt, tt, tt)),
            (to, 'l# := g%s l# %s %s emit("to") obs%s(l#)' % (to, r.choice(['+=', '-=', '*=', '/=', '%=', '|=', '&=']), e, to), ''),
            (to, 'q# := new F%s { g%s } mk# (q#).f = %s emit("to") obs%s(q#.f)' % (to, to, e, to) if False else 'q# := new F%s { g%s } ff#(q#).f = %s emit("to") obs%s(q#.f)' % (to, to, e, to),
             'func ff#(a: F%s): F%s { return a }' % (to, to)),
            (to, 'q# := new G# { g%s, g%s } w# := new G# { .b = %s, .a = g%s } emit("to") obs%s(w#.b)' % (to, to, e, to, to), 'struct G# { a: %s b: %s }' % (tt, tt)),
            (to, 'q# := new G# { g%s, new H# { %s } } emit("to") obs%s(q#.h.f)' % (to, e, to), 'struct G# { a: %s h: H# } struct H# { f: %s }' % (tt, tt)),
        ]
    for _ in range(25):
        op = r.choice(OPS)
        a, b = to, r.choice(names)
        if op in ('==', '!=') or r.random() < .5:
            a, b = b, a
        res = op_result(op, TY[a][1], TY[b][1])
        w = res or r.choice(['int', 'float', 'bool', a, b])
        tests.append((w, 'l# := (%s) %s (%s) emit("to") obs%s(l#)' % (other(r, a, 'zz'), op if op not in ('/', '%', '<<', '>>') else '*', other(r, b, 'zz'), w)))
    if ctx.tier == 'quick' and len(tests) > 600:
        tests = r.sample(tests, 600)
    # what is declared besides the function
    extra = [t[2] if len(t) > 2 else '' for t in tests]
    tests = [t[:2] for t in tests]
    c = Case(gen.setup())
    if r.random() < .4:
        c.add('compile', 0, 'pad', padding(r))
    else:
        c.add('compile', 0, 'pad', '')
    c.add('compile', 0, 'pre', SPRE)
    for i, (w, t) in enumerate(tests):
        c.add('compile', 0, 't', '%s func t%d(): void { %s }' % (extra[i].replace('#', str(i)), i, t.replace('#', str(i)) + ' '))
    progs.begin(c, gc=r.choice([0, 1]))
    c.add('run', 0)
    for i in range(len(tests)):
        c.add('call', 0, 't%d' % i)
    progs.finish(c)
    ctx.count('flows attempted', len(tests))

    def judge(rs):
        l = rs[0].lines[1:]
        if l[0] != 'compile 0 ok':
            return 'the declarations were refused: ' + l[0][-300:]
        comp = [x.endswith(' ok') for x in l if x.startswith('compile 0')][1:]
        pend = None
        i = -1
        n = 0
        for x in l:
            if x.startswith('ret 0'):
                i += 1
                if ('missing' in x) == comp[i]:
                    return 'accepted and callable disagree: ' + tests[i][1]
            elif x.startswith('emit 0 '):
                k = x.split(' ', 3)[3].split(' ', 1)
                if len(k) == 2 and k[0].startswith('s"') and k[0][2:-1] in TY:
                    n += 1
                    if not kind_ok(k[0][2:-1], k[1]):
                        return 'a place of type %s holds %s: %s' % (TY[k[0][2:-1]][0], k[1], tests[i + 1][1])
        ctx_seen[0] += n
        if n < sum(comp):
            return '%d observations for %d accepted programs' % (n, sum(comp))
    ctx_seen = [0]
    yield Unit([(r.choice(['fast', 'asan']), c)], judge, '\n'.join(c.cmds), '\n'.join(t for w, t in tests[:12]))


p_edited = c30.mixed(lambda why, exp: why is None, ['types', 'types', 'default', 'struct', 'calls', 'expr'])


def families(tier):
    n = len(TY) - 1
    return [
        Fam('order', p_order, 900, 20000, ('fast', 'asan')),
        Fam('observed', p_trace, 500, 12000, ('fast',)),
        Fam('sound', p_sound, n * 12, n * 40, ('fast', 'asan'), shard=3),
        Fam('flows', p_flow, n * 5, n * 60, ('fast', 'asan'), shard=3),
        Fam('edited programs', p_edited, 80, 2400, ('fast', 'asan'), shard=4),
    ]
