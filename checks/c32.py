"""C32: what can be looked up by name is what was declared."""
from vlib.core import Fam, Unit, diff
from vlib.run import Case, f2hex, esc

SCALE = 10
RULE = ('Random sequences of texts which declare structs, functions, constants and variables, of bindings by the host, of modules, and of texts that are refused, over a small pool of names which are prefixes and '
        'case variants of each other; types, functions and variables may share a name. After every step, and by modules in the middle of a compile, names are looked up: declared ones, undeclared neighbours, names of '
        'parameters, locals and fields, and what refused texts declared. Everything found (kind, fields with types in order, parameters, results, constants with values, strings behind constants, whether it is a variable '
        'or can be called) must be what the declarations say. Distinct by the commands.')
ASSUME = ['names are not declared twice in one group (types, functions, variables and constants)']

BASES = ['a', 'ab', 'abc', 'abcd', 'A', 'Ab', 'AB', 'a1', 'ab_', 'ab_c', 'node', 'Node', 'nodes', 'Nod', 'list_of', 'list_of_node', 'x', 'xx', 'xxx', 'int1', 'integer', 'strs', 'st', 'voided', 'anyone', 'boolean', 'floats',
         'long_name_that_goes_on_and_on', 'long_name_that_goes_on_and_on_', 'get', 'get_index', 'ab_get_index', 'as1', 'user', 'usea', 'iff', 'newer']
PRIM = ['int', 'float', 'bool', 'str', 'any']


def fresh(r, used):
    for _ in range(50):
        n = r.choice(BASES)
        if r.random() < .2:
            n += r.choice(['0', '_', 'b', 'X', '_x'])
        if n not in used:
            return n
    n = 'n%d' % len(used)
    while n in used:
        n += 'q'
    return n


class World:
    def __init__(self):
        self.types, self.funcs, self.vals = {}, {}, {}

    def copy(self):
        w = World()
        w.types, w.funcs, w.vals = dict(self.types), dict(self.funcs), dict(self.vals)
        return w

    def line(self, n, index):
        o = 'look ' + esc(n)
        if n in self.types:
            t = self.types[n]
            o += ' struct(%s)' % ' '.join('%s:%s' % f for f in t) if isinstance(t, tuple) else ' ' + t
        if n in self.funcs:
            k, args, ret = self.funcs[n]
            o += ' %s(%s):%s' % (k, ' '.join(args), ret)
        if n in self.vals:
            k, v = self.vals[n]
            if k != 'var':
                o += ' const %s %s' % (k, v)
            elif index:
                o += ' var'
        if index and n in self.funcs and self.funcs[n][0] == 'func':
            o += ' callable'
        return o


def sertext(b):
    out = ''
    for c in b:
        out += chr(c) if 32 < c < 127 and c not in (37, 34) else '%%%02X' % c
    return 's"%s"' % out


CONSTS = [('bool', 'true', 'b1'), ('bool', 'false', 'b0'), ('int', '0', 'i0'), ('int', '7', 'i7'), ('int', '9223372036854775807', 'i9223372036854775807'), ('int', '0x1f', 'i31'), ('int', "'a'", 'i97'), ('int', '1000000', 'i1000000'),
          ('float', '2.5', 'f' + f2hex(2.5)), ('float', '0.0', 'f' + f2hex(0.0)), ('float', '123456.75', 'f' + f2hex(123456.75)), ('str', '""', sertext(b'')), ('str', '"s"', sertext(b's')), ('str', '"a b\\n"', sertext(b'a b\n')),
          ('str', '"Node"', sertext(b'Node'))]


def declare(r, w, k, types):
    """(text, other names it contains) of a declaration of kind k, entered in w."""
    def tag():
        t = r.choice(PRIM + types * 2)
        return t + ('?' if r.random() < .25 and t != 'any' else '')
    others = []
    if k == 'func':
        n = fresh(r, w.funcs)
        ps = []
        for _ in range(r.choice([0, 1, 1, 2, 3, 5])):
            p = fresh(r, [x for x, _ in ps] + list(w.vals))
            ps.append((p, tag()))
        ret = r.choice(['void', tag(), tag()])
        w.funcs[n] = ('func', ['%s:%s' % p for p in ps], ret)
        loc = fresh(r, [x for x, _ in ps] + list(w.vals))
        body = '%s := %d ' % (loc, r.randrange(9)) if r.random() < .5 else ''
        others = [p for p, _ in ps] + [loc]
        if ret != 'void':
            body += 'return %s(%s)' % (n, ', '.join(p for p, _ in ps))
        return 'func %s(%s)%s { %s }' % (n, ', '.join('%s: %s' % p for p in ps), ': ' + ret if ret != 'void' or r.random() < .3 else '', body), others
    if k == 'const':
        n = fresh(r, w.vals)
        t, src, val = r.choice(CONSTS)
        w.vals[n] = (t, val)
        return '%s :: %s' % (n, src), []
    n = fresh(r, w.vals)
    w.vals[n] = ('var', None)
    if types and r.random() < .4:
        t = r.choice(types)
        return '%s: %s? = cast(null, %s?)' % (n, t, t), []
    return '%s := %s' % (n, r.choice(['1', '2.5', '"s"', 'true', '(1)'])), []


def queries(r, names, extra):
    out = []
    for n in r.sample(sorted(names), min(len(names), r.randrange(2, 9))):
        out.append(n)
    for n in r.sample(sorted(names | set(BASES)), 4):
        out.append(r.choice([n[:-1], n + '_', n + 'b', n.swapcase(), n + '?', n[1:], n, n + '_get_index']))
    if extra:
        out += r.sample(sorted(extra), min(len(extra), 4))
    if r.random() < .2:
        out += r.sample(PRIM + ['void'], 2)
    return out


def clean(qs):
    """Nothing is promised about the name of a nullable type."""
    return [q for q in qs if q and not q.endswith('?')]


def prim(w):
    for t in PRIM + ['void']:
        w.types[t] = 'type'
    w.funcs.update({'int': ('host', ['float'], 'int'), 'float': ('host', ['int'], 'float')})


def modname(r, w):
    return fresh(r, set(w.types) | set(w.funcs))


def ARRAY(n, e):
    d = {'': (['...'], n), '_clear': ([n], 'void'), '_resize': ([n, 'int'], 'void'), '_resize_fill': ([n, 'int', e], 'void'), '_len': ([n], 'int'), '_push': ([n, e], 'void'), '_pop': ([n], e), '_shift': ([n], e),
         '_insert': ([n, 'int', e], 'void'), '_remove': ([n, 'int'], 'void')}
    for g in ('_get', '_get_index'):
        d[g] = ([n, 'int'], e)
    for g in ('_set', '_set_index'):
        d[g] = ([n, 'int', e], 'void')
    if e == 'int':
        d['_sort'] = ([n], 'void')
    return {n + k: ('host', a, ret) for k, (a, ret) in d.items()}


WRONG = ['zz_wrong: int = "text"', 'no_such_function(1)', '1 + 2', 'zz_wrong := no_such_name', 'func zz_wrong(): int { return "x" }', 'if 1 { }', 'zz_wrong: No_such_type? = cast(null, No_such_type?)', 'use no_such_module()', 'use fail("sorry")', '"open']
SYNTAX = {'"open', '1 + 2'}     # refused before the modules run


def p_declared(ctx):
    """Texts, bindings and modules that declare; lookups between and within them."""
    r = ctx.rng
    w = World()
    prim(w)
    c = Case(['state 0', 'macro 0 look look', 'macro 0 fail fail', 'std 0 a'])
    exp = []
    gone = set()      # names that stand for nothing or for something else
    hosts = ['emit', 'last', 'argc']
    for step in range(r.randrange(2, 8)):
        types = [t for t in w.types if t not in PRIM and t != 'void']
        what = r.random()
        if what < .35:
            for _ in range(r.randrange(1, 5)):
                k = r.choice(['bind', 'bind', 'type', 'const'])
                if k == 'type':
                    n = r.choice(types) if types and r.random() < .2 else fresh(r, w.types)
                    c.add('type', 0, n)
                    w.types.setdefault(n, 'foreign')
                    types = [t for t in w.types if t not in PRIM and t != 'void']
                elif k == 'bind':
                    n = fresh(r, w.funcs)
                    if r.random() < .15:
                        c.add('bind', 0, n, r.choice(hosts))
                        w.funcs[n] = ('host', ['...'], 'any')
                        continue
                    args = [r.choice(PRIM + types) + ('?' if r.random() < .1 else '') for _ in range(r.choice([0, 1, 1, 2, 3, 6]))]
                    args = [a if a != 'any?' else 'any' for a in args]
                    if r.random() < .15:
                        # a type which is not there yet; what it is says some later text, module or host
                        later = fresh(r, w.types)
                        args.append(later)
                        gone.add(later)
                    va = r.random() < .3
                    ret = r.choice(['void'] + PRIM + types)
                    c.add('bind', 0, '%s(%s): %s' % (n, ', '.join(args + ['...'] * va), ret), r.choice(hosts))
                    w.funcs[n] = ('host', args + ['...'] * va, ret)
                else:
                    n = fresh(r, w.vals)
                    t = r.choice(['constb', 'consti', 'constf', 'consts'])
                    if t == 'constb':
                        b = r.randrange(2)
                        c.add(t, 0, n, b)
                        w.vals[n] = ('bool', 'b%d' % b)
                    elif t == 'consti':
                        i = r.choice([0, -1, 5, 2 ** 31, -2 ** 63, 2 ** 63 - 1, r.randrange(10 ** 6)])
                        c.add(t, 0, n, i)
                        w.vals[n] = ('int', 'i%d' % i)
                    elif t == 'constf':
                        f = r.choice([0.5, -0.0, 1e300, r.random()])
                        c.add(t, 0, n, f2hex(f))
                        w.vals[n] = ('float', 'f' + f2hex(f))
                    else:
                        s = r.choice([b'', b'x', b'long text ' * 9, b'%"q', b'Node', b'\xc3\xa9'])
                        c.add(t, 0, n, s)
                        w.vals[n] = ('str', sertext(s))
        else:
            v = w.copy()
            new = []
            parts = []
            inner = set()
            # the structs of the text first, so that everything may mention them
            for _ in range(r.choice([0, 1, 1, 2, 3])):
                n = fresh(r, v.types)
                v.types[n] = ()
                new.append(n)
            mods = []
            for _ in range(r.choice([0, 0, 1, 2])):
                n = modname(r, v)
                if any(x.startswith(n + '_') for x in list(v.funcs) + BASES):
                    continue
                e = r.choice(['int', 'str', 'bool', 'float', 'any'] + types + new)
                mods.append((n, e))
                v.types[n] = 'foreign'
            all_types = [t for t in v.types if t not in PRIM and t != 'void']
            for n in new:
                fs = []
                for _ in range(r.choice([1, 1, 2, 3, 6])):
                    f = fresh(r, [x for x, _ in fs])
                    t = r.choice(PRIM + all_types * 2)
                    fs.append((f, t + ('?' if r.random() < .3 and t != 'any' else '')))
                v.types[n] = tuple(fs)
                inner |= {f for f, _ in fs}
                parts.append('struct %s { %s }' % (n, ' '.join('%s: %s' % f for f in fs)))
            for n, e in mods:
                v.funcs.update(ARRAY(n, e))
            for _ in range(r.randrange(0, 6)):
                t, o = declare(r, v, r.choice(['func', 'func', 'const', 'var']), all_types)
                inner |= set(o)
                parts.append(t)
            bad = r.choice(WRONG) if r.random() < .3 else None
            # modules run in order, each with what the earlier ones defined; before that no array type is known
            uses = [('array', m) for m in mods] + [('look', None) for _ in range(r.choice([0, 1, 1, 2]))]
            r.shuffle(uses)
            log = []
            seq = v.copy()
            for n, e in mods:
                seq.types.pop(n)
                for x in ARRAY(n, e):
                    seq.funcs.pop(x, None)
            texts = []
            for k, m in uses:
                if k == 'array':
                    texts.append('use array("%s") as %s' % (m[1], m[0]))
                    seq.types[m[0]] = 'foreign'
                    seq.funcs.update(ARRAY(*m))
                else:
                    qs = clean(queries(r, set(v.types) | set(v.funcs) | set(v.vals), inner | gone))[:12]
                    texts.append('use look(%s)' % ', '.join('"%s"' % q for q in qs))
                    log.append('macro look -none- %d %s' % (len(qs), ' '.join('"%s"' % q for q in qs)))
                    log += [seq.line(q, False) for q in qs]
            # keep the order of the modules, scatter them among the rest
            r.shuffle(parts)
            at = sorted(r.randrange(len(parts) + 1) for _ in texts)
            lines, j = [], 0
            for i in range(len(parts) + 1):
                while j < len(at) and at[j] == i:
                    lines.append(texts[j])
                    j += 1
                if i < len(parts):
                    lines.append(parts[i])
            if bad:
                lines.append(bad)
            src = '\n'.join(lines) + '\n'
            c.add('compile', 0, 'main', src)
            if bad is None:
                exp += log + ['compile 0 ok']
                w = v
                ctx.count('texts accepted')
            else:
                if bad not in SYNTAX:
                    exp += log
                if bad.startswith('use fail'):
                    exp.append('macro fail -none- 1 "sorry"')
                exp.append('compile 0 err')
                gone |= set(v.types) | set(v.funcs) | set(v.vals)
                ctx.count('texts refused')
            gone |= inner
        qs = clean(queries(r, set(w.types) | set(w.funcs) | set(w.vals), gone))
        c.add('look', 0, *qs)
        exp += [w.line(q, True) for q in qs]
        ctx.count('names looked up', len(qs))
    c.add('delstate', 0)

    def judge(rs):
        got = ['compile 0 err' if l.startswith('compile 0 err ') else l for l in rs[0].lines]
        return diff(exp, got)
    src = '\n'.join(c.cmds)
    yield Unit([(r.choice(['asan', 'fast', 'fast']), c)], judge, src, src[:1500])


def p_many(ctx):
    """Many names, declared in a few texts and by the host."""
    r = ctx.rng
    w = World()
    prim(w)
    c = Case(['state 0', 'macro 0 look look', 'std 0 a'])
    exp = []
    n = r.choice([20, 60, 150, 400])
    form = r.choice(['%d', '%x', '%03d', 'name_that_is_long_%d', '%d_'])
    names = [r.choice(['a', 'B', 'c_', 'Type', 'structure']) + form % i for i in range(n)]
    r.shuffle(names)
    strings = 0
    texts = [[]]
    for x in names:
        k = r.choice(['func', 'func', 'const', 'var', 'struct', 'bind', 'type', 'hostconst'])
        types = [t for t in w.types if t not in PRIM and t != 'void']
        ty = r.choice(PRIM + types * 2)
        if k == 'func':
            w.funcs[x] = ('func', ['p:' + ty] if n % 2 else [], ty)
            texts[-1].append('func %s(%s): %s { return %s(%s) }' % ((x, 'p: ' + ty, ty, x, 'p') if n % 2 else (x, '', ty, x, '')))
        elif k == 'const' and strings < 300:
            t, src, val = r.choice(CONSTS)
            strings += t == 'str'
            w.vals[x] = (t, val)
            texts[-1].append('%s :: %s' % (x, src))
        elif k == 'var':
            w.vals[x] = ('var', None)
            texts[-1].append('%s := %d' % (x, r.randrange(9)))
        elif k == 'struct':
            w.types[x] = (('f', ty),)
            texts[-1].append('struct %s { f: %s }' % (x, ty))
        elif k == 'bind':
            w.funcs[x] = ('host', [ty], ty)
            c.add('bind', 0, '%s(%s): %s' % (x, ty, ty), 'emit') if ty in PRIM or w.types[ty] == 'foreign' else texts[-1].append(('bind', '%s(%s): %s' % (x, ty, ty)))
        elif k == 'type':
            w.types[x] = 'foreign'
            c.add('type', 0, x)
        else:
            w.vals[x] = ('int', 'i%d' % len(x))
            c.add('consti', 0, x, len(x))
        if r.random() < 8 / n:
            texts.append([])
    for t in texts:
        src = '\n'.join(x for x in t if isinstance(x, str)) + '\n'
        c.add('compile', 0, 'main', src)
        exp.append('compile 0 ok')
        for x in t:
            if not isinstance(x, str):
                c.add('bind', 0, x[1], 'emit')
    qs = list(names)
    r.shuffle(qs)
    qs += [r.choice([q + '0', q[:-1], q.upper(), q[1:]]) for q in r.sample(names, 12)]
    for i in range(0, len(qs), 100):
        part = [q for q in qs[i:i + 100] if q]
        c.add('look', 0, *part)
        exp += [w.line(q, True) for q in part]
        ctx.count('names looked up', len(part))
    c.add('delstate', 0)

    def judge(rs):
        return diff(exp, rs[0].lines)
    src = '\n'.join(c.cmds)
    yield Unit([(r.choice(['asan', 'fast', 'fast']), c)], judge, src, src[:1500])


def families(tier):
    v = ('asan', 'fast')
    return [Fam('many', p_many, 60, 1500, v),
            Fam('declared', p_declared, 600, 30000, v)]
