"""C10: programs that break the typing rules are rejected."""
from vlib import progs, gen, lang, mutate, split
from vlib.lang import N, Func, Struc, lit, ident, call
from vlib.core import Fam, Unit, diff
from vlib.run import Case
from checks import c30

RULE = ('(1) one typed place of a generated program (operand, condition, initial or assigned value, argument, return value, field, initialiser, index) gets an expression '
        'of a type that place does not allow, or a call, return, new, field name or type name is broken: the compile must fail and the program with the original expression must be '
        'accepted; (2) every operator on every pair of types, and every pair of types in every place a value can flow to, against the typing rules. Edited programs (see C30) that break a typing rule must be refused. Distinct by text (1) and by place, operator and types (2).')


def refused(lines):
    return bool(lines) and lines[0].startswith('compile 0 err ')


def reject(ctx, src, what, var='fast'):
    c = Case(gen.setup())
    c.add('compile', 0, 'main', src)
    c.add('delstate', 0)

    def judge(rs):
        l = rs[0].lines
        if not refused(l):
            return 'accepted although %s: %s' % (what, l[:2])
        if len(l) != 1:
            return 'something ran: %s' % l[1:3]
    return Unit([(var, c)], judge, src, what + '\n' + src.decode('latin-1'))


def types_used(prog):
    sigs = {}
    for i in prog.items:
        if isinstance(i, tuple) and i[0] == 'use' and i[1] == 'array':
            el = i[2][0]
            t = el if el in ('int', 'float', 'str', 'bool', 'any') else ('S', el)
            sigs.update(mutate.arr_sig(i[3], t))
    return sigs


def fresh(e):
    import copy
    return copy.deepcopy(e)


def wrong_for(slot, cands, indexed=()):
    """Candidates that must not stand in the slot."""
    w = slot.want
    out = []
    cur = slot.get()
    for e in cands:
        t = mutate.static(e.t)
        if slot.ctx == 'dotbase':
            if isinstance(t, tuple) and t[0] == 'S' and t[1] != 'Wrong':
                continue
            out.append(e)
        elif slot.ctx == 'idxbase':
            if t in ('str', 'dict', 'void') or isinstance(t, tuple) and t[0] == 'S' and t[1] in indexed:
                continue
            out.append(e)
        elif w is None:
            continue
        elif isinstance(w, tuple) and w[0] == 'same':
            o = mutate.static(w[1].t)
            if o is not None and o != t and t != 'void' and cur.t is not None:
                out.append(e)
        elif isinstance(w, tuple) and w[0] == 'cast':
            tt = mutate.static(w[1])
            if tt == 'any':
                if t == 'void':
                    out.append(e)
            elif t != 'any':
                out.append(e)
        elif not mutate.ok(t, w):
            out.append(e)
    return out


def prep(ctx, preset=None):
    r = ctx.rng
    m = progs.make(ctx, preset or r.choice(['types', 'types', 'default', 'struct', 'calls', 'expr', 'scope']), main=r.choice([4, 8, 14]), steps=6000)
    p = mutate.clone(m.prog)
    w = Struc('Wrong', [('q', 'int')])
    p.items.insert(r.choice([0, len(p.items)]), w)
    p.structs['Wrong'] = w
    return m, p


def p_slot(ctx):
    r = ctx.rng
    m, p0 = prep(ctx)
    sigs = types_used(p0)
    n = len(mutate.Walk(p0, sigs).slots)
    done = 0
    control = True
    for _ in range(40):
        if done >= 6:
            break
        p = mutate.clone(p0)
        p.structs['Wrong'] = p0.structs['Wrong']
        w = mutate.Walk(p, sigs)
        if r.random() < .5:
            s = r.choice(w.slots)
        else:
            kind = r.choice(sorted({x.ctx for x in w.slots}))
            s = r.choice([x for x in w.slots if x.ctx == kind])
        c = wrong_for(s, mutate.wrong_exprs(p), {n[:-10] for n in p.funcs if n.endswith('_get_index')})
        if not c:
            continue
        e = fresh(r.choice(c))
        old = s.get()
        s.set(e)
        try:
            src = lang.render(p, r.choice(['normal', 'normal', 'wild']), r, 0).encode('latin-1')
        except ValueError:
            continue        # no such statement can be written
        ctx.count('place ' + s.ctx.split(' ')[0])
        yield reject(ctx, src, 'a value of type %s stands where %s is required (%s)' % (
            lang.tname(mutate.static(e.t)) if e.t else '?', s.want if not isinstance(s.want, tuple) else s.want[:1], s.ctx))
        done += 1
    if control:
        src = lang.render(p0, 'normal', r, 0).encode('latin-1')
        yield progs.accept_unit(src, 'it is well-typed')


def calls_of(p):
    out = []

    def ex(e):
        if isinstance(e, N):
            if e.k in ('call', 'new', 'dot', 'id', 'cast'):
                out.append(e)
            for v in list(e.__dict__.values()):
                if isinstance(v, N):
                    ex(v)
                elif isinstance(v, list):
                    for x in v:
                        ex(x)
    for i in p.items:
        if isinstance(i, Func):
            for s in i.body:
                ex(s)
        elif isinstance(i, N):
            ex(i)
    return out


def p_struct(ctx):
    """Wrong counts, returns, names of types and fields."""
    r = ctx.rng
    m, p0 = prep(ctx)
    sigs = types_used(p0)
    allsigs = dict(mutate.SIGS)
    allsigs.update(sigs)
    done = 0
    for _ in range(60):
        if done >= 6:
            break
        p = mutate.clone(p0)
        p.structs['Wrong'] = p0.structs['Wrong']
        k = r.choice(['argdel', 'argadd', 'retadd', 'retdel', 'type', 'field', 'newdel', 'newadd', 'newname', 'void', 'newstruct', 'rettype', 'fcall', 'fieldassign', 'dup'])
        es = calls_of(p)
        what = None
        if k in ('argdel', 'argadd'):
            cs = [e for e in es if e.k == 'call' and (e.f in p.funcs or e.f in allsigs)]
            if not cs:
                continue
            e = r.choice(cs)
            if e.f in p.funcs:
                np, va = len(p.funcs[e.f].params), False
            else:
                ps, va = allsigs[e.f]
                np = len(ps)
            if k == 'argdel':
                if not e.args or np == 0 or (va and len(e.args) > np):
                    continue
                e.args.pop(r.randrange(len(e.args)) if len(e.args) > 1 and False else -1)
                what = 'a call to %s lacks an argument' % e.f
            else:
                if va:
                    continue
                e.args.append(fresh(r.choice([lit('int', 1), lit('str', b'x'), lit('bool', True)])))
                what = 'a call to %s has an argument too many' % e.f
        elif k == 'fcall':
            # an unknown function
            cs = [e for e in es if e.k == 'call']
            if not cs:
                continue
            e = r.choice(cs)
            e.f = e.f + '_nosuch'
            what = 'the called function does not exist'
        elif k in ('retadd', 'retdel'):
            rets = []
            for i in p.items:
                if isinstance(i, Func):
                    w = mutate.Walk.__new__(mutate.Walk)

                    def rec(l):
                        for s in l:
                            if s.k == 'return':
                                rets.append((i, s))
                            for v in list(s.__dict__.values()):
                                if isinstance(v, N) and v.k in ('if', 'block', 'while', 'for', 'return'):
                                    rec([v])
                                elif isinstance(v, list):
                                    rec([x for x in v if isinstance(x, N)])
                    rec(i.body)
            if k == 'retadd':
                vf = [i for i in p.items if isinstance(i, Func) and i.ret == 'void']
                if not vf:
                    continue
                f = r.choice(vf)
                f.body.insert(r.randrange(len(f.body) + 1), N('if', c=lit('bool', False), a=N('block', body=[N('return', e=fresh(r.choice(mutate.wrong_exprs(p)[:8])))]), b=None))
                what = 'a void function returns a value'
            else:
                rs = [s for f, s in rets if f.ret != 'void']
                if not rs:
                    continue
                r.choice(rs).e = None
                what = 'a function with a result returns none'
        elif k == 'type':
            places = []
            for i in p.items:
                if isinstance(i, Struc) and i.fields:
                    places.append(i)
                elif isinstance(i, Func):
                    places.append(i)
            if not places:
                continue
            i = r.choice(places)
            bad = ('S', r.choice(['Nosuch', 'Int', 'string', 'array_nosuch', 'boolean', 'WRONG']))
            if r.random() < .3:
                bad = ('opt', bad)
            if isinstance(i, Struc):
                j = r.randrange(len(i.fields))
                i.fields[j] = (i.fields[j][0], bad)
                if i.name == 'Wrong':
                    continue
                what = 'a field has an unknown type'
            elif i.params and r.random() < .7:
                j = r.randrange(len(i.params))
                i.params[j] = (i.params[j][0], bad)
                what = 'a parameter has an unknown type'
            else:
                i.ret = bad
                what = 'the result has an unknown type'
        elif k == 'field':
            cs = [e for e in es if e.k == 'dot']
            if not cs:
                continue
            e = r.choice(cs)
            e.field = r.choice(['nosuch', e.field + '_', 'X', 'q'])
            what = 'the struct has no such field'
        elif k in ('newdel', 'newadd', 'newname', 'newstruct'):
            cs = [e for e in es if e.k == 'new' and len(e.args) > 0]
            if not cs:
                continue
            e = r.choice(cs)
            if k == 'newadd' and e.names is not None and len(e.args) > 1 and r.random() < .6:
                # one value for each field but two for the same
                j, h = r.sample(range(len(e.args)), 2)
                e.names = list(e.names)
                e.names[j] = e.names[h]
                e.args[j] = fresh(e.args[h])
                what = 'a field gets two values and another none'
            elif k == 'newdel':
                j = r.randrange(len(e.args))
                if e.names is None:
                    j = len(e.args) - 1
                e.args.pop(j)
                if e.names is not None:
                    e.names = list(e.names)
                    e.names.pop(j)
                    if not e.names:
                        continue
                what = 'a field gets no value'
            elif k == 'newadd':
                j = r.randrange(len(e.args))
                if e.names is not None:
                    e.names = list(e.names) + [e.names[j]]
                    what = 'a field gets two values'
                else:
                    what = 'there are more values than fields'
                e.args.append(fresh(e.args[j]))
            elif k == 'newname':
                if e.names is None:
                    continue
                e.names = list(e.names)
                e.names[r.randrange(len(e.names))] = 'nosuch'
                what = 'an initialiser names no field'
            else:
                e.name = r.choice(['Nosuch', 'int', 'str', 'array_nosuch', 'any'])
                what = 'the struct does not exist'
        elif k == 'rettype':
            fs = [i for i in p.items if isinstance(i, Func) and i.ret in ('int', 'float', 'bool', 'str')]
            if not fs:
                continue
            f = r.choice(fs)
            f.ret = r.choice([t for t in ('int', 'float', 'bool', 'str', ('S', 'Wrong'), 'void', 'nat') if t != f.ret])
            what = 'the values returned are not of the result type'
        elif k == 'dup':
            fs = [i for i in p.items if isinstance(i, Func) and i.params]
            if not fs:
                continue
            f = r.choice(fs)
            f.params = list(f.params)
            f.params.insert(r.randrange(len(f.params) + 1), (r.choice(f.params)[0], r.choice(['int', 'str', f.params[0][1]])))
            what = 'two parameters have the same name'
        else:
            continue
        try:
            src = lang.render(p, r.choice(['normal', 'normal', 'wild']), r, 0).encode('latin-1')
        except ValueError:
            continue        # no such statement can be written
        ctx.count('broken ' + k)
        yield reject(ctx, src, what)
        done += 1


# ------------------------------------------------------------------ matrices

PRE = '''struct P { x: int } struct Q { x: int }
use array("int") as array_int
use array("P") as array_P
use array("int") as array_int2
func mkvoid() { }
func mkintopt(): int? { return 5 }
func mkstropt(): str? { return "o" }
func mkpopt(): P? { return new P { 1 } }
func mkany(): any { return cast(5, any) }
func mkp(): P { return new P { 1 } }
func mkq(): Q { return new Q { 1 } }
func mkai(): array_int { return array_int(1) }
func mkap(): array_P { return array_P() }
func mkaiopt(): array_int? { return array_int(1) }
func mkint(): int { return 5 }
func mkfloat(): float { return 5.5 }
func mkbool(): bool { return true }
func mkstr2(): str { return "s" }
gint := 1 gfloat := 1.5 gbool := true gstr := "s" gany := mkany() gP := mkp() gQ := mkq() gintopt := mkintopt() gPopt := mkpopt() gai := mkai() gap := mkap() gai2 := array_int2(2, 3) gnat := mknat(1) gbox := box(1) gdict := dict() gstropt := mkstropt() gaiopt := mkaiopt()
struct Fint { f: int } struct Ffloat { f: float } struct Fbool { f: bool } struct Fstr { f: str } struct Fany { f: any } struct FP { f: P } struct FQ { f: Q } struct Fintopt { f: int? } struct FPopt { f: P? } struct Fai { f: array_int } struct Fai2 { f: array_int2 } struct Fap { f: array_P } struct Fnat { f: nat } struct Fbox { f: box } struct Fdict { f: dict } struct Fstropt { f: str? } struct Faiopt { f: array_int? }
'''
# name -> (printed type, type, expressions)
TY = {
    'int': ('int', 'int', ['1', 'gint', 'mkint()', 'tint(3)', "'c'", '-gint', 'gP.x', 'gai[0]', '(1 + 2)', 'strlen("a")', 'if gbool 1 else 2', 'cast(gany, int)']),
    'float': ('float', 'float', ['1.5', 'gfloat', 'mkfloat()', 'tfloat(2.5)', '(1 + 2.5)', '(1.5 * 2)', 'float(3)', '-1.5', '(1 / 2.0)']),
    'bool': ('bool', 'bool', ['true', 'gbool', 'mkbool()', '(1 < 2)', '!gbool', '(gP == gP)', '(gbool && gbool)', '(1.5 >= 2)', '(gint != 4)']),
    'str': ('str', 'str', ['"s"', 'gstr', 'mkstr2()', 'strcat("a", "b")', 'tstr("q")']),
    'any': ('any', 'any', ['gany', 'mkany()', 'cast(1, any)', 'gdict["k"]', 'unbox(gbox)', 'cast("s", any)']),
    'void': (None, 'void', ['mkvoid()', 'emit(1)', 'gc()', '(mkvoid())', '((gc()))']),
    'intopt': ('int?', ('opt', 'int'), ['gintopt', 'mkintopt()', 'cast(gany, int?)']),
    'stropt': ('str?', ('opt', 'str'), ['gstropt', 'mkstropt()']),
    'Popt': ('P?', ('opt', ('S', 'P')), ['gPopt', 'mkpopt()', 'cast(gany, P?)']),
    'P': ('P', ('S', 'P'), ['gP', 'mkp()', 'new P { 2 }', 'new P { .x = 2 }', 'gap[0]', 'cast(gany, P)']),
    'Q': ('Q', ('S', 'Q'), ['gQ', 'mkq()', 'new Q { 2 }']),
    'ai': ('array_int', ('A', 'int'), ['gai', 'mkai()', 'array_int()', 'array_int(1, 2)']),
    'ai2': ('array_int2', ('A', 'int2'), ['gai2', 'array_int2()', 'array_int2(3)']),
    'ap': ('array_P', ('A', ('S', 'P')), ['gap', 'mkap()', 'array_P()']),
    'aiopt': ('array_int?', ('opt', ('A', 'int')), ['gaiopt', 'mkaiopt()']),
    'nat': ('nat', 'nat', ['gnat', 'mknat(2)']),
    'box': ('box', 'box', ['gbox', 'box(2)']),
    'dict': ('dict', 'dict', ['gdict', 'dict()']),
}
OPS = ['+', '-', '*', '/', '%', '&', '|', '<<', '>>', '<', '>', '<=', '>=', '==', '!=', '&&', '||']


def op_result(op, a, b):
    """Type of a op b, or None if not allowed."""
    if op in ('==', '!='):
        return None if 'void' in (a, b) else 'bool'
    if op in ('&&', '||'):
        return 'bool' if a == b == 'bool' else None
    num = ('int', 'float')
    if op in ('%', '&', '|', '<<', '>>'):
        return 'int' if a == b == 'int' else None
    if a not in num or b not in num:
        return None
    if op in ('<', '>', '<=', '>='):
        return 'bool'
    return 'int' if a == b == 'int' else 'float'


def flows(to):
    """Places a value can flow into a variable of type `to` (statement templates with @)."""
    p = TY[to][0]
    out = ['l: %s = @' % p, 'l := g%s l = @' % to, 'g%s = @' % to, 'q := new F%s { @ }' % to, 'q := new F%s { .f = @ }' % to,
           'q := new F%s { g%s } q.f = @' % (to, to), 'pass%s(@)' % to, 'pass2%s(1, @, 2)' % to, 'foreign%s(@)' % to, 'foreign2%s(1, @)' % to, 'foreign3%s(@, 1, "s")' % to,
           'l := if gbool g%s else g%s l = @' % (to, to)]
    return out


def matrix_state():
    pre = PRE
    binds = []
    for k, (p, t, ex) in TY.items():
        if k == 'void':
            continue
        pre += 'func pass%s(a: %s) { }\nfunc pass2%s(z: int, a: %s, y: int) { }\n' % (k, p, k, p)
        for n, sig in (('foreign', '(%s): void'), ('foreign2', '(int, %s): void'), ('foreign3', '(%s, ...): void')):
            binds.append((n + k, n + k + sig % p))
    return pre, binds


PREALL, BINDS = matrix_state()


def matrix_unit(ctx, tests, label):
    """tests: [(body, expected bool, what)]; each is compiled as a function body into one state."""
    c = Case(gen.setup())
    # signatures that mention types of the text are bound by a module once the text has been parsed
    early = [b for n, b in BINDS if 'P' not in b and 'Q' not in b and 'array' not in b]
    for b in early:
        c.add('bind', 0, b, 'emit')
    c.add('macro', 0, 'bindsig', 'bind')
    pad = ''
    if ctx.rng.random() < .4:
        pad = ''.join(ctx.rng.choice(['pad%d := %d\n', 'func padf%d(): int { return %d }\n', 'struct PadS%d { zx%d: int }\n', 'PADC%d :: %d\n']) % (i, i) for i in range(ctx.rng.choice([60, 130, 260, 520])))
    c.add('compile', 0, 'pre', pad + PREALL)
    late = [(n, b) for n, b in BINDS if b not in early]
    use = '\n'.join('use bindsig("%s") as %s' % (b[len(n):], n) for n, b in late)
    c.add('compile', 0, 'late', use)
    for i, (body, want, what) in enumerate(tests):
        if not body.startswith('func'):
            body = 'func t%d(): void { %s }' % (i, body)
        c.add('compile', 0, 't', body.replace('t#', 't%d' % i))
    c.add('delstate', 0)
    ctx.count('type combinations', len(tests))
    ctx.count('of these to be refused', sum(1 for t in tests if not t[1]))

    def judge(rs):
        l = [x for x in rs[0].lines if x.startswith('compile')]
        if l[:2] != ['compile 0 ok'] * 2:
            return 'the declarations were refused: %s' % l[:2]
        l = l[2:]
        out = []
        for (body, want, what), x in zip(tests, l):
            ok = x.endswith(' ok')
            if ok != want:
                out.append('%s: %s although %s: %s' % (body, 'accepted' if ok else 'refused', what, x[-160:]))
        return out or None
    return Unit([('fast', c)], judge, label, '\n'.join(t[0] for t in tests[:20]))


def pick(r, k, thorough=False):
    return r.choice(TY[k][2])


def p_ops(ctx):
    r = ctx.rng
    op = OPS[ctx.i % len(OPS)]
    tests = []
    for a in TY:
        for b in TY:
            ta, tb = TY[a][1], TY[b][1]
            res = op_result(op, ta, tb)
            e = '(%s) %s (%s)' % (pick(r, a), op, pick(r, b)) if r.random() < .5 else '%s %s %s' % (pick(r, a), op, pick(r, b))
            if '?' not in e and ' else ' in e and e[0] != '(':
                e = '(%s) %s (%s)' % (pick(r, a), op, pick(r, b))
            if res is None:
                tests.append((r.choice(['emit(%s)', 'l := %s', 'if true { emit(%s) }', 'gany = cast(%s, any)']) % e, False, '%s %s %s is not allowed' % (a, op, b)))
            else:
                tests.append(('l: %s = %s' % (res, e), True, '%s %s %s is %s' % (a, op, b, res)))
                if r.random() < .15:
                    w = r.choice([t for t in ('int', 'float', 'bool', 'str', 'P') if t != res])
                    tests.append(('l: %s = %s' % (w, e), False, '%s %s %s is %s' % (a, op, b, res)))
    yield matrix_unit(ctx, tests, 'ops %s %d' % (op, ctx.i))


FROM = sorted(TY)


def p_flow(ctx):
    """Every type into every type, in every place."""
    r = ctx.rng
    to = sorted(k for k in TY if k != 'void')[ctx.i % (len(TY) - 1)]
    tests = []
    for fr in TY:
        want = mutate.assignable(TY[fr][1], TY[to][1])
        for tmpl in flows(to):
            tests.append((tmpl.replace('@', pick(r, fr)), want, '%s into %s' % (fr, to)))
        tests.append(('func t#(): %s { return %s }' % (TY[to][0], pick(r, fr)), want, 'return %s as %s' % (fr, to)))
        tests.append(('func t#(a: %s): %s { if gbool { return a } return %s }' % (TY[to][0], TY[to][0], pick(r, fr)), want, 'return %s as %s' % (fr, to)))
    yield matrix_unit(ctx, tests, 'flow %s %d' % (to, ctx.i))


def p_more(ctx):
    """Conditions, unary operators, conditional branches, index, field, cast and compound assignment on every type."""
    r = ctx.rng
    k = ctx.i % 6
    tests = []
    if k == 0:
        for t in TY:
            ok = t == 'bool'
            e = pick(r, t)
            for tm in ('if %s { }', 'while %s { break }', 'for i := 0; %s; i += 1 { break }', 'if gbool { } else if %s { }', 'l := if %s 1 else 2', 'l := !(%s)', 'l := gbool && %s', 'l := %s || gbool'):
                if '{' in e and tm.startswith(('if %s', 'while', 'for')):
                    e = '(' + e + ')'
                if ' else ' in e and tm != 'l := !(%s)':
                    e = '(' + e.strip('()') + ')'
                tests.append((tm % e, ok, '%s as condition' % t))
            if t == 'void':
                for e in TY['void'][2]:
                    for tm in ('l := %s', 'l: any = %s', 'l := gany l = %s', 'gany = %s', 'l := new Fany { gany } l.f = %s', 'l := new Fany { %s }', 'l := new Fany { .f = %s }', 'gdict["k"] = %s', 'l := cast(%s, any)', 'l := %s == %s',
                               'l := (%s)', 'l := %s != null', 'l := gany == %s', 'l := -%s', 'l := !%s', 'tany(%s)', 'for l := %s; gbool; gint += 1 { }', 'l := if gbool 1 else %s', 'l := if gbool %s else 1', 'unbox(box(%s))'):
                        tests.append((tm.replace('%s', e), False, 'void as a value'))
                e = pick(r, t)
            ok = t in ('int', 'float')
            tests.append(('l := -(%s)' % e, ok, 'minus %s' % t))
    elif k == 1:
        for a in TY:
            for b in TY:
                if 'void' in (a, b):
                    continue
                ea, eb = pick(r, a), pick(r, b)
                while ' else ' in ea or ea[0] in '(-':
                    ea = pick(r, a)
                tests.append(('l := if gbool %s else %s' % (ea, eb), a == b, 'branches %s and %s' % (a, b)))
                if a == b:
                    if isinstance(TY[a][1], tuple) and TY[a][1][0] == 'opt':
                        base = [t for t in TY if TY[t][1] == TY[a][1][1]][0]
                        tests.append(('l: %s = if gbool %s else %s' % (TY[base][0], ea, eb), False, 'branches of %s' % a))
                        tests.append(('l: %s = if gbool %s else %s' % (TY[a][0], ea, eb), True, 'branches of %s' % a))
                    w = r.choice([t for t in TY if t not in ('void', 'any') and not mutate.assignable(TY[a][1], TY[t][1])])
                    tests.append(('l: %s = if gbool %s else %s' % (TY[w][0], ea, eb), False, 'branches %s and %s give %s' % (a, b, a)))
    elif k == 2:
        for t in TY:
            e = pick(r, t)
            e = '(' + e + ')'
            for fld in ('x', 'nosuch'):
                ok = t in ('P', 'Q') and fld == 'x'
                tests.append(('emit(%s.%s)' % (e, fld), ok, '.%s of %s' % (fld, t)))
                if t != 'void':
                    tests.append(('l := %s l.%s = 5' % (e, fld), ok, '.%s of %s assigned' % (fld, t)))
                    tests.append(('l := %s l.%s += 5' % (e, fld), ok, '.%s of %s assigned' % (fld, t)))
            if t in ('P', 'Q'):
                for w in TY:
                    if w != 'int':
                        tests.append(('l := %s l.x = %s' % (e, pick(r, w)), False, 'int field gets %s' % w))
                        if w != 'void':
                            tests.append(('l: %s = %s.x' % (TY[w][0], e), mutate.assignable('int', TY[w][1]), 'int field read as %s' % w))
    elif k == 3:
        for t in TY:
            for i in TY:
                e = '(' + pick(r, t) + ')'
                ok = {'ai': i == 'int', 'ai2': i == 'int', 'ap': i == 'int', 'dict': i == 'str', 'str': i == 'int'}.get(t, False)
                tests.append(('emit(%s[%s])' % (e, pick(r, i)), ok, '%s indexed by %s' % (t, i)))
                if t in ('ai', 'ai2', 'ap', 'dict'):
                    v = {'ai': 'gint', 'ai2': 'gint', 'ap': 'gP', 'dict': 'gany'}[t]
                    tests.append(('l := %s l[%s] = %s' % (e, pick(r, i), v), ok, '%s indexed by %s' % (t, i)))
                    # and the element
                    ix = '"k"' if t == 'dict' else '0'
                    el = {'ai': 'int', 'ai2': 'int', 'ap': ('S', 'P'), 'dict': 'any'}[t]
                    tests.append(('l := %s l[%s] = %s' % (e, ix, pick(r, i)), mutate.assignable(TY[i][1], el), '%s element gets %s' % (t, i)))
                    if i != 'void':
                        tests.append(('l: %s = %s[%s]' % (TY[i][0], e, ix), mutate.assignable(el, TY[i][1]), '%s element read as %s' % (t, i)))
            if t == 'str':
                tests.append(('l := gstr l[0] = 65', False, 'strings cannot be assigned to by index'))
    elif k == 4:
        for t in TY:
            for to in TY:
                if to == 'void':
                    continue
                ok = t != 'void' and (TY[t][1] == 'any' or TY[to][1] == 'any')
                tests.append(('emit(cast(%s, %s))' % (pick(r, t), TY[to][0]), ok, 'cast of %s to %s' % (t, to)))
                if ok and to != 'any':
                    w = r.choice([x for x in TY if x not in ('void', 'any') and not mutate.assignable(TY[to][1], TY[x][1])])
                    tests.append(('l: %s = cast(%s, %s)' % (TY[w][0], pick(r, t), TY[to][0]), False, 'cast to %s used as %s' % (to, w)))
    else:
        for op in ('+=', '-=', '*=', '/=', '%=', '&=', '|='):
            for t in TY:
                if t == 'void':
                    continue
                for v in TY:
                    if op in ('%=', '&=', '|='):
                        ok = t == v == 'int'
                    else:
                        ok = t == v and t in ('int', 'float')
                    tests.append(('l := g%s l %s %s' % (t, op, pick(r, v)), ok, '%s %s %s' % (t, op, v)))
                    if r.random() < .3:
                        tests.append(('g%s %s %s' % (t, op, pick(r, v)), ok, '%s %s %s' % (t, op, v)))
                    if (t == v or r.random() < .5) and 'struct F%s ' % t in PRE:
                        tests.append(('l := new F%s { g%s } l.f %s %s' % (t, t, op, pick(r, v)), ok, 'field of type %s %s %s' % (t, op, v)))
                    if t in ('int', 'P'):
                        tests.append(('ga%s[1] %s %s' % (t[0].lower(), op, pick(r, v)), ok, 'element of type %s %s %s' % (t, op, v)))
    for lo in range(0, len(tests), 700):
        yield matrix_unit(ctx, tests[lo:lo + 700], 'more %d %d %d' % (k, ctx.i, lo))


def p_calls(ctx):
    """Argument counts and types against signatures of script and foreign functions."""
    r = ctx.rng
    tests = []
    names = sorted(k for k in TY if k != 'void')
    pre = []
    binds = []
    for j in range(12):
        ps = [r.choice(names) for _ in range(r.randrange(0, 5) if r.random() < .75 else r.choice([6, 9, 15, 16, 17, 18, 24, 31, 32, 33, 40]))]
        va = r.random() < .4
        ret = r.choice(['void', 'int', 'any', 'str'])
        prim = [p for p in ps if TY[p][0] in ('int', 'float', 'bool', 'str', 'any', 'nat', 'box', 'dict', 'int?', 'str?')]
        binds.append(('ff%d(%s): %s' % (j, ', '.join([TY[p][0] for p in prim] + (['...'] if va else [])), ret)))
        pre.append('func sf%d(%s): %s { %s }' % (j, ', '.join('a%d: %s' % (i, TY[p][0]) for i, p in enumerate(ps)), ret,
                                                 {'void': '', 'int': 'return 1', 'any': 'return gany', 'str': 'return "s"'}[ret]))
        for fn, sig, var in (('sf%d' % j, ps, False), ('ff%d' % j, prim, va)):
            for _ in range(8):
                args = list(sig)
                how = r.choice(['ok', 'ok', 'less', 'more', 'type', 'void'])
                ok = True
                if how == 'less':
                    if not args:
                        continue
                    args = args[:r.randrange(len(args))]
                    ok = False
                elif how == 'more':
                    for _ in range(r.randrange(1, 4)):
                        args.append(r.choice(names))
                    ok = var
                elif how in ('type', 'void'):
                    if not args:
                        continue
                    i = r.randrange(len(args))
                    args[i] = 'void' if how == 'void' else r.choice(names)
                    ok = mutate.assignable(TY[args[i]][1], TY[sig[i]][1])
                call_ = '%s(%s)' % (fn, ', '.join(pick(r, a) for a in args))
                if args and r.random() < .3 and args[0] != 'void':
                    ea = pick(r, args[0])
                    if ea[0] not in '-!' and not ea.startswith(('if ', 'new ', 'cast')):
                        call_ = '%s -> %s(%s)' % (ea, fn, ', '.join(pick(r, a) for a in args[1:]))
                use = r.choice(['stmt', 'val'])
                if use == 'stmt' and not call_.startswith(("'", '(', '"', '1', 't', 'if')):
                    tests.append((call_, ok, 'call with %s' % how))
                else:
                    w = {'void': None, 'int': 'int', 'any': 'any', 'str': 'str'}[ret]
                    if w is None:
                        tests.append(('l := ' + call_, False, 'void value used'))
                    else:
                        tests.append(('l: %s = %s' % (w, call_), ok, 'call with %s' % how))
                        if r.random() < .2 and ok:
                            o = r.choice([x for x in ('int', 'str', 'float', 'P') if x != w])
                            tests.append(('l: %s = %s' % (TY[o][0], call_), False, 'result %s used as %s' % (w, o)))
    c = Case(gen.setup())
    for b in binds:
        c.add('bind', 0, b, 'emit')
    c.add('compile', 0, 'pre', PREALL + '\n'.join(pre))
    for i, (body, want, what) in enumerate(tests):
        c.add('compile', 0, 't', 'func t%d(): void { %s }' % (i, body))
    c.add('delstate', 0)
    ctx.count('calls', len(tests))

    def judge(rs):
        l = [x for x in rs[0].lines if x.startswith('compile')]
        if l[0] != 'compile 0 ok':
            return 'declarations: ' + l[0]
        out = []
        for (body, want, what), x in zip(tests, l[1:]):
            ok = x.endswith(' ok')
            if ok != want:
                out.append('%s: %s although %s (%s; %s)' % (body, 'accepted' if ok else 'refused', what, ' '.join(binds), x[-160:]))
        return out or None
    yield Unit([('fast', c)], judge, '\n'.join(c.cmds), '\n'.join(t[0] for t in tests[:20]))


def p_many(ctx):
    """Structs and functions of any size: every count, name and position of an initialiser or an argument."""
    r = ctx.rng
    A = mutate.assignable
    tests, pre, binds = [], [], []
    names = sorted(k for k in TY if k != 'void')
    prims = [k for k in names if TY[k][0] in ('int', 'float', 'bool', 'str', 'any', 'nat', 'box', 'dict', 'int?', 'str?')]
    base = r.choice(['f', 'field_with_a_long_common_name_', 'x' * 70 + '_'])

    def bad(k):
        """A type that cannot stand for k."""
        o = [x for x in names if not A(TY[x][1], TY[k][1])] + ['void']
        return r.choice(o)
    for j in range(5):
        n = r.choice([1, 2, 2, 3, 5, 8, 16, 17, 20, 33, 40, 64, 65, 70])
        fs = [r.choice(names) for _ in range(n)]
        s = '%sS%d' % (base.capitalize() if r.random() < .5 else 'M', j)
        pre.append('struct %s { %s }' % (s, ' '.join('%s%d: %s' % (base, i, TY[k][0]) for i, k in enumerate(fs))))
        for _ in range(14):
            how = r.choice(['ok', 'type', 'less', 'more', 'twice', 'unknown', 'twiceadd', 'void'])
            named = r.random() < .6 or how in ('twice', 'unknown', 'twiceadd')
            l = [(i, k) for i, k in enumerate(fs)]
            if named:
                how2 = r.choice(['order', 'shuffle', 'reverse'])
                if how2 == 'shuffle':
                    r.shuffle(l)
                elif how2 == 'reverse':
                    l.reverse()
            x = [('.%s%d = ' % (base, i) if named else '', k) for i, k in l]
            p = r.randrange(n)
            if how == 'type':
                x[p] = (x[p][0], bad(x[p][1]))
            elif how == 'void':
                x[p] = (x[p][0], 'void')
            elif how == 'less':
                if named:
                    x.pop(p)
                else:
                    x = x[:p]
                if not x:
                    continue
            elif how == 'more':
                x.insert(r.randrange(n + 1) if not named else n, ('.%s%d = ' % (base, n + r.randrange(3)) if named else '', r.choice(names)))
                if not named and n and len(x) <= n:
                    continue
            elif how == 'twice':
                q = r.randrange(n)
                if q == p:
                    continue
                x[p] = x[q]
            elif how == 'twiceadd':
                x.insert(r.randrange(n + 1), x[p])
            elif how == 'unknown':
                x[p] = ('.%s = ' % r.choice(['nosuch', '%s%d' % (base, n), '%s' % base, '%s0%d' % (base, p)]), x[p][1])
            e = 'new %s { %s }' % (s, r.choice([', ', ',\n']).join(a + pick(r, k) for a, k in x))
            tests.append((r.choice(['l := %s', 'l: any = %s', 'l: %s = %%s' % s]) % e, how == 'ok', '%d fields, initialisers with %s' % (n, how)))
        # fields
        p = r.randrange(n)
        tests.append(('q := mk%s() l: %s = q.%s%d' % (s, TY[fs[p]][0], base, p), True, 'field %d of %d' % (p, n)))
        w = bad(fs[p])
        if w != 'void':
            if not A(TY[fs[p]][1], TY[w][1]):
                tests.append(('q := mk%s() l: %s = q.%s%d' % (s, TY[w][0], base, p), False, 'field %d of %d is %s' % (p, n, fs[p])))
        tests.append(('q := mk%s() q.%s%d = %s' % (s, base, p, pick(r, fs[p])), True, 'field %d of %d assigned' % (p, n)))
        tests.append(('q := mk%s() q.%s%d = %s' % (s, base, p, pick(r, w)), False, 'field %d of %d assigned %s for %s' % (p, n, w, fs[p])))
        tests.append(('q := mk%s() emit(q.%s%d)' % (s, base, n), False, 'no field %d of %d' % (n, n)))
        tests.append(('struct %s { q: int }' % s, False, 'the struct of %d fields exists' % n))
        pre.append('func mk%s(): %s { return new %s { %s } }' % (s, s, s, ', '.join(pick(r, k) for k in fs)))
        # two fields of one name
        if n > 1:
            f2 = ['%s%d' % (base, i) for i in range(n)]
            a, b = r.sample(range(n), 2)
            f2[a] = f2[b]
            tests.append(('struct D%s { %s }' % (s, ' '.join('%s: %s' % (f, TY[k][0]) for f, k in zip(f2, fs))), False, 'fields %d and %d of %d have one name' % (a, b, n)))
        # functions
        ps = [r.choice(names) for _ in range(n)]
        prim = [r.choice(prims) for _ in range(n)]
        pre.append('func sf%d(%s) { }' % (j, ', '.join('%s%d: %s' % (base, i, TY[k][0]) for i, k in enumerate(ps))))
        va = r.random() < .3
        binds.append('ff%d(%s): void' % (j, ', '.join([TY[k][0] for k in prim] + (['...'] if va else []))))
        for fn, sig, var in (('sf%d' % j, ps, False), ('ff%d' % j, prim, va)):
            for _ in range(8):
                how = r.choice(['ok', 'type', 'less', 'more', 'void'])
                args = list(sig)
                p = r.randrange(n)
                if how in ('type', 'void'):
                    args[p] = bad(sig[p]) if how == 'type' else 'void'
                elif how == 'less':
                    args = args[:p]
                elif how == 'more':
                    args += [r.choice(names)] * r.randrange(1, 4)
                tests.append(('%s(%s)' % (fn, ', '.join(pick(r, a) for a in args)), how == 'ok' or how == 'more' and var, '%d parameters, call with %s' % (n, how)))
        if n > 1:
            f2 = ['%s%d' % (base, i) for i in range(n)]
            a, b = r.sample(range(n), 2)
            f2[a] = f2[b]
            tests.append(('func d%d(%s) { }' % (j, ', '.join('%s: %s' % (f, TY[k][0]) for f, k in zip(f2, ps))), False, 'parameters %d and %d of %d have one name' % (a, b, n)))
    yield sig_unit(ctx, tests, pre, binds, 'initialisers and arguments')


CONSTS = [('5', 'int'), ('2.5', 'float'), ('"s"', 'str'), ("'c'", 'int'), ('true', 'bool'), ('false', 'bool'), ('0', 'int'), ('1.0', 'float'), ('""', 'str'), ('0x1F', 'int')]


def p_decl(ctx):
    """Names that are not there yet, and names that cannot be assigned to."""
    r = ctx.rng
    tests, pre = [], []
    for j, (v, t) in enumerate(r.sample(CONSTS, len(CONSTS))):
        pre.append('K%d :: %s' % (j, v))
        pre.append('V%d := %s' % (j, v))
        same = [c for c, u in CONSTS if u == t and c != '0']
        for op in ('=', '+=', '-=', '*=', '/=', '%=', '&=', '|='):
            x = r.choice(same)
            ok = op == '=' or t == 'int' or t == 'float' and op in ('+=', '-=', '*=', '/=')
            for w in ('%s', 'if gbool { %s }', 'while gbool { %s break }', 'for i := 0; i < 3; %s { break }', 'for %s; gbool; gint += 1 { break }'):
                tests.append((w % ('K%d %s %s' % (j, op, x)), False, 'K%d is a constant' % j))
                if r.random() < .3:
                    tests.append((w % ('V%d %s %s' % (j, op, x)), ok, 'V%d is a variable of type %s' % (j, t)))
        tests.append(('l := K%d l %s= K%d' % (j, '+' if t in ('int', 'float') else '', j), True, 'a variable gets a constant'))
        tests.append(('l: %s = K%d' % (t, j), True, 'a constant of type %s' % t))
        for w in ('int', 'float', 'str', 'bool', 'P'):
            if w != t:
                tests.append(('l: %s = K%d' % (w, j), False, 'a constant of type %s' % t))
    # a name is not known in its own declaration
    for j in range(40):
        n = r.choice(['fresh%d' % j, 'n' * 80 + '%d' % j, 'f_%d_' % j])
        use = r.choice(['%s', 'tint(%s)', 'cast(%s, int)', '-%s', '%s + 1', '1 + %s', '!%s', 'strlen(%s)', 'new P { %s }', 'new P { .x = %s }', 'gai[%s]', '%s.x', '%s[0]', 'array_int(%s)',
                        'if gbool %s else 1', 'if %s 1 else 2', '(%s)', 'mkint() + %s', '%s == %s', 'dict("k", %s)', 'box(%s)', 'cast(%s, any)', '%s -> tint()', 'gdict[%s]'])
        e = use.replace('%s', n)
        for w in ('%s := %s', 'if gbool { %s := %s }', 'for %s := %s; gbool; gint += 1 { }', 'while gbool { %s := %s }', 'a := 1 %s := %s', 'gint = 2 %s := %s', 'for i := 0; i < 2; i += 1 { %s := %s }'):
            if r.random() < .4:
                tests.append((w % (n, e), False, 'the name is used in its own declaration'))
        if r.random() < .5:
            tests.append(('GLOBAL %s := %s' % (n, e), False, 'the name is used in its own declaration'))
        # used before, after a block that declares it, in another function
        tests.append((r.choice(['emit(%s) %s := 1', '{ %s := 1 } emit(%s)', 'if gbool { %s := 1 } %s = 2', 'for %s := 0; gbool; gint += 1 { } emit(%s)', '%s = 1', 'emit(%s)', '%s += 1', '%s.x = 1', '%s[0] = 1', '%s()',
                                'while gbool { %s := 1 break } emit(%s)', 'while gint < 0 %s := 1 emit(%s)', 'while mkbool() %s := 1 %s = 3', 'for i := 0; i < 3; i += 1 %s := i emit(%s)', 'for i := 0; i < 3; i += 1 while mkbool() %s := i emit(%s)', 'if gbool { } else { %s := 1 } emit(%s)']).replace('%s', n), False, 'the name is not declared there'))
        tests.append((r.choice(['%s := 1 emit(%s)', '%s := 1 { emit(%s) }', '%s := 1 if gbool { %s = 2 }', '{ %s := 1 } %s := 2', 'for %s := 0; %s < 2; %s += 1 { emit(%s) }', '%s := 1 while %s < 3 { %s += 1 }']).replace('%s', n), True, 'the name is declared there'))
        tests.append((r.choice(['%s := 1 %s := 2', '%s := 1 if gbool { } %s := 2.5', '%s: int = 1 %s := 2', 'if gbool { %s := 1 %s := "s" }', '%s := 1 a := 2 b := 3 { c := 4 } %s := 5']).replace('%s', n), False, 'two variables of one scope have one name'))
    yield sig_unit(ctx, tests, pre, [], 'declarations')


def sig_unit(ctx, tests, pre, binds, label):
    c = Case(gen.setup())
    for b in binds:
        c.add('bind', 0, b, 'emit')
    c.add('compile', 0, 'pre', PREALL + '\n'.join(pre))
    for i, (body, want, what) in enumerate(tests):
        if body.startswith('GLOBAL '):
            body = body[7:]
        elif not body.startswith(('struct ', 'func ')):
            body = 'func t%d(): void { %s }' % (i, body)
        c.add('compile', 0, 't', body)
    c.add('delstate', 0)
    ctx.count(label, len(tests))
    ctx.count('of these to be refused', sum(1 for t in tests if not t[1]))

    def judge(rs):
        l = [x for x in rs[0].lines if x.startswith('compile')]
        if l[0] != 'compile 0 ok':
            return 'declarations: ' + l[0]
        out = []
        for (body, want, what), x in zip(tests, l[1:]):
            ok = x.endswith(' ok')
            if ok != want:
                out.append('%s: %s although %s (%s; %s)' % (body, 'accepted' if ok else 'refused', what, ' '.join(binds)[:400], x[-160:]))
        return out or None
    return Unit([('fast', c)], judge, '\n'.join(c.cmds), '\n'.join(t[0] for t in tests[:20]))


RETV = {'void': '', 'int': 'return 1', 'any': 'return gany', 'str': 'return "s"', 'float': 'return 2.5', 'bool': 'return true', 'P': 'return gP', 'Q': 'return gQ',
        'intopt': 'return gintopt', 'stropt': 'return gstropt', 'Popt': 'return gPopt', 'ai': 'return gai', 'ai2': 'return gai2', 'ap': 'return gap', 'aiopt': 'return gaiopt', 'nat': 'return gnat',
        'box': 'return gbox', 'dict': 'return gdict'}
RICH = ['int', 'float', 'bool', 'str', 'any', 'P', 'Q', 'intopt', 'stropt', 'Popt', 'ai']


def p_index(ctx):
    """Index functions with any signature: what may be read and what may be assigned."""
    r = ctx.rng
    A = mutate.assignable
    tests, pre, binds = [], [], []

    def T(k):
        return TY[k][1]
    subjects = []       # (expression, static type, key of first parameter type, params of get or None, V, params of set or None)
    for j in range(6):
        n = '%sIX%d' % (r.choice(['', '', '', 'L' * 50, 'L' * r.randrange(225, 260), 'L' * 700]), j)
        st = ('S', n)
        # parameter types; None stands for the struct itself
        def par(own=True):
            if own:
                return r.choice([None] * 8 + ['any', 'P', 'int'])
            return r.choice(RICH)
        get = sett = None
        K = par(False)
        V = r.choice(RICH)
        if r.random() < .92:
            get = [par(), K]
            if r.random() < .08:
                get = r.choice([get[:1], get + ['int'], []])
        if r.random() < .05:
            V = 'void'
        if r.random() < .8:
            W = V if r.random() < .6 and V != 'void' else r.choice(RICH)
            sett = [par(), K if r.random() < .7 else par(False), W]
            if r.random() < .08:
                sett = r.choice([sett[:2], sett[:1], sett + ['int'], []])
        ty = lambda k: n if k is None else TY[k][0]
        defs = ['struct %s { q: int }' % n]
        if get is not None:
            defs.append('func %s_get_index(%s): %s { %s }' % (n, ', '.join('a%d: %s' % (i, ty(k)) for i, k in enumerate(get)), TY[V][0] or 'void', RETV[V]))
        if sett is not None:
            defs.append('func %s_set_index(%s)%s { %s }' % (n, ', '.join('a%d: %s' % (i, ty(k)) for i, k in enumerate(sett)),
                                                          *r.choice([('', ''), (': void', ''), (': int', 'return 3')])))
        # functions with nearly those names
        for _ in range(r.choice([0, 1, 2, 3])):
            d = r.choice(['%s_get_index2', '%s_get_indexes', '%s_get_index_', '%s_set_index2', '%s_set_indexes', 'x%s_get_index', '%s_get_inde', '%s_set_inde', 'x%s_set_index', '%s__get_index', '_%s_get_index'[1:] + 's']) % n
            if any(d + '(' in x for x in defs):
                continue
            defs.append('func %s(a: %s, b: %s%s): %s { %s }' % ((d, r.choice([n, 'any']), ty(par(False)), ', c: ' + ty(par(False)) if '_set' in d else '') + r.choice([(TY[k][0], RETV[k]) for k in RICH])))
        r.shuffle(defs)
        pre += defs
        pre.append('gIX%d := new %s { 1 }' % (j, n))
        subjects.append(('gIX%d' % j, st, n, get, V, sett))
    prim = ['int', 'float', 'bool', 'nat', 'box', 'any']
    for n in r.sample(prim, 3):
        # functions of the host for values of other types
        get = [n if r.random() < .8 else r.choice(['any', 'str']), r.choice(['int', 'str', 'any', 'float', 'intopt'])]
        V = r.choice(['int', 'str', 'any', 'float', 'intopt', 'bool'])
        binds.append('%s_get_index(%s): %s' % (n, ', '.join(TY[k][0] for k in get), TY[V][0]))
        sett = None
        if r.random() < .7:
            sett = [n, get[1], V if r.random() < .7 else r.choice(['int', 'str', 'any'])]
            binds.append('%s_set_index(%s): void' % (n, ', '.join(TY[k][0] for k in sett)))
        subjects.append(('g' + n, T(n), n, get, V, sett))
    fromt = sorted(k for k in TY if k != 'void')
    for g, st, n, get, V, sett in subjects:
        def fits(t, k):
            return A(t, st if k is None else T(k))

        def okread(k):
            return get is not None and len(get) == 2 and fits(st, get[0]) and fits(T(k), get[1])
        for k in fromt:
            e = pick(r, k)
            a = g
            if isinstance(st, tuple) and r.random() < .3:
                a = 'new %s { 2 }' % n
            ok = okread(k)
            what = 'index functions get(%s): %s, set(%s)' % (get, V, sett)
            if V == 'void':
                tests.append(('l := %s[%s]' % (a, e), False, what + ' nothing is read'))
            else:
                tests.append((r.choice(['l := %s[%s]', 'l: any = %s[%s]', 'gany = %s[%s]', 'emit(%s[%s])']) % (a, e), ok, what + ' key ' + k))
                if ok:
                    for w in fromt:
                        if r.random() < .3:
                            tests.append(('l: %s = %s[%s]' % (TY[w][0], a, e), A(T(V), T(w)), what + ' key %s read as %s' % (k, w)))
            # assignment
            if V == 'void' or get is None or len(get) != 2:
                if sett is None:
                    tests.append(('%s[%s] = 1' % (g, e), False, what + ' nothing can be assigned'))
                continue
            oks = sett is not None and len(sett) == 3 and fits(st, sett[0]) and fits(T(k), sett[1])
            for v in ([V] if sett is None or len(sett) < 3 else sorted({V, sett[2]})) + r.sample(fromt, 4) + ['void']:
                tv = T(v)
                w = T(sett[2]) if oks else None
                vok = v != 'void' and oks and A(tv, w)
                if okread(k) and vok and not A(tv, T(V)):
                    continue        # the two functions disagree
                if oks and not okread(k):
                    continue
                tests.append(('%s[%s] = %s' % (g, e, pick(r, v)), okread(k) and vok, what + ' key %s gets %s' % (k, v)))
            for op in ('+=', '%='):
                for v in ('int', 'float', 'str'):
                    arith = v == V and V in (('int', 'float') if op == '+=' else ('int',))
                    ok = okread(k) and oks and arith and A(T(V), T(sett[2]))
                    if r.random() < .25:
                        tests.append(('%s[%s] %s %s' % (g, e, op, pick(r, v)), bool(ok), what + ' key %s %s %s' % (k, op, v)))
    c = Case(gen.setup())
    for b in binds:
        c.add('bind', 0, b, 'emit')
    c.add('compile', 0, 'pre', PREALL + '\n'.join(pre))
    for i, (body, want, what) in enumerate(tests):
        c.add('compile', 0, 't', 'func t%d(): void { %s }' % (i, body))
    c.add('delstate', 0)
    ctx.count('indexings', len(tests))
    ctx.count('indexings accepted', sum(1 for t in tests if t[1]))

    def judge(rs):
        l = [x for x in rs[0].lines if x.startswith('compile')]
        if l[0] != 'compile 0 ok':
            return 'declarations: ' + l[0]
        out = []
        for (body, want, what), x in zip(tests, l[1:]):
            ok = x.endswith(' ok')
            if ok != want:
                out.append('%s: %s although %s (%s)' % (body, 'accepted' if ok else 'refused', what, x[-160:]))
        return out or None
    yield Unit([('fast', c)], judge, '\n'.join(c.cmds), '\n'.join(pre) + '\n'.join(t[0] for t in tests[:20]))


KEYW = set('if else while for func struct new cast use return break continue null true false foreach foreign void int float bool str any'.split())


def near_names(r, k):
    """k different names most of which are nearly the name of another"""
    first = r.choice(['V', 'Vec', 'a', 'in', 'strx', 'Nodes', 'L' * 24, 'abcdefgh' * 5, 'M' * 63, 'n_' * 64, 'Z' * 255, 'y' * 300])
    out = [first]
    while len(out) < k:
        n = r.choice(out)
        n = r.choice([n.swapcase(), n + 'x', n + '_', n + n[-1], n[:-1] + r.choice('qXY_9'), 'x' + n, n[:len(n) // 2] + 'k' + n[len(n) // 2 + 1:], n + 'tail', n[:-1], n[1:], n[::-1], n.upper(), n.lower(),
                      n[0].swapcase() + n[1:], n[:-1] + n[-1:].swapcase()])
        if n and n[0].isalpha() and n not in out and n not in KEYW and n not in ('P', 'Q', 'nat', 'box', 'dict', 'as'):
            out.append(n)
    return out


def p_near(ctx):
    """Types whose names are nearly the same are different types; so are fields, parameters' names are nobody's."""
    r = ctx.rng
    ts = near_names(r, 6)
    pre, tests = [], []
    arr = r.sample(ts, 2)
    fields = {t: near_names(r, 4) for t in ts}
    for j, t in enumerate(ts):
        pre.append('struct %s { %s }' % (t, ' '.join('%s: %s' % (f, k) for f, k in zip(fields[t], ('int', 'str', 'bool', 'float')))))
        pre.append('func mk%d(): %s { return new %s { 1, "s", true, 2.5 } }' % (j, t, t))
        pre.append('func take%d(a: %s): void { }' % (j, t))
        pre.append('func opt%d(a: %s?): %s? { return a }' % (j, t, t))
        pre.append('struct Holds%d { f: %s g: %s? }' % (j, t, t))
        pre.append('gg%d := mk%d()' % (j, j))
    for j in range(2):
        pre.append('use array("%s") as arrof%d' % (arr[j], j))
    for i, a in enumerate(ts):
        for j, b in enumerate(ts):
            ok = i == j
            why = 'a place of type %s gets a %s' % (a, b)
            v = r.choice(['gg%d', 'mk%d()', 'opt' and '(gg%d)']) % j
            tests += [x + (ok, why) for x in r.sample([('l: %s = %s' % (a, v),), ('take%d(%s)' % (i, v),), ('l := opt%d(%s)' % (i, v),), ('gg%d = %s' % (i, v),), ('l := new Holds%d { %s, cast(null, %s?) }' % (i, v, a),),
                                              ('l := new Holds%d { gg%d, %s }' % (i, i, v),), ('l: %s? = %s' % (a, v),), ('l := if gbool gg%d else %s' % (i, v),), ('l := new Holds%d { gg%d, gg%d } l.f = %s' % (i, i, i, v),),
                                              ('l := opt%d(opt%d(%s))' % (i, j, v),), ('if gbool { take%d(%s) }' % (i, v),), ('l: %s = new %s { 2, "t", false, 1.5 }' % (a, b),)], 5)]
            if a in arr:
                k = arr.index(a)
                tests += [x + (ok, why) for x in [('x := arrof%d() x -> arrof%d_push(%s)' % (k, k, v),), ('x := arrof%d(gg%d) x[0] = %s' % (k, i, v),)]]
                if b in arr:
                    tests.append(('x: arrof%d = arrof%d()' % (k, arr.index(b)), ok, why))
    for i, t in enumerate(ts):
        known = dict(zip(fields[t], (('int', '1'), ('str', '"s"'), ('bool', 'true'), ('float', '2.5'))))
        for f in set(near_names(r, 3) + fields[t] + fields[r.choice(ts)] + [x + 'x' for x in fields[t]] + [x.swapcase() for x in fields[t]]):
            if f in KEYW:
                continue
            k = known.get(f)
            for w in ('int', 'str', 'bool', 'float'):
                if r.random() < .4 or k and k[0] == w:
                    tests.append(('l: %s = gg%d.%s' % (w, i, f), k is not None and k[0] == w, 'field %s of %s' % (f, t)))
            tests.append(('gg%d.%s = %s' % (i, f, k[1] if k else '1'), k is not None, 'field %s of %s' % (f, t)))
            others = list(fields[t])
            o = r.randrange(4)
            was = others[o]
            others[o] = f
            good = sorted(others) == sorted(fields[t])
            init = ', '.join('.%s = %s' % (x, (known.get(x) or known[was])[1]) for x in r.sample(others, 4))
            tests.append(('l := new %s { %s }' % (t, init), good, 'initialisers for %s' % t))
    for n in set(near_names(r, 8)) | set(x + 'q' for x in ts):
        if n not in ts and n not in KEYW:
            tests.append(('l := new %s { 1, "s", true, 2.5 }' % n, False, 'no struct %s' % n))
    r.shuffle(tests)
    yield sig_unit(ctx, tests, pre, [], 'uses of nearly equal names')


p_edited = c30.mixed(lambda why, exp: why is not None and not c30.SYNTAX.match(why) and not c30.NAMES.match(why), ['types', 'types', 'default', 'struct', 'calls', 'expr'])


def families(tier):
    v = ('fast',)
    n = len(OPS)
    return [
        Fam('slots', p_slot, 700, 20000, v),
        Fam('structure', p_struct, 400, 10000, v),
        Fam('operators', p_ops, n, n * 12, v, shard=1),
        Fam('flows', p_flow, len(TY) - 1, (len(TY) - 1) * 12, v, shard=1),
        Fam('constructs', p_more, 6, 6 * 12, v, shard=1),
        Fam('calls', p_calls, 60, 1500, v, shard=4),
        Fam('index functions', p_index, 60, 1500, v, shard=4),
        Fam('initialisers and arguments', p_many, 40, 1000, v, shard=4),
        Fam('declarations', p_decl, 24, 600, v, shard=2),
        Fam('near names', p_near, 60, 1500, v, shard=4),
        Fam('edited programs', p_edited, 120, 4000, v, shard=4),
    ]
