"""C17: arrays behave as growable sequences."""
import math
from vlib import progs, gen, lang
from vlib.core import Fam, Unit, diff
from vlib.run import Case
from checks.c15 import hv, lang_lit, rndval

SCALE = 6
RULE = ('Random sequences of array operations, compared after each step with a list under the same operations: through the C interface (any value kind, several arrays, blocks that move on every growth, poisoned '
        'memory) and from scripts with every element type (int, float, bool, str, any, structs, nested arrays, dictionaries), in index, call and arrow form, in straight-line code, loops and functions, '
        'with collections at any point, several arrays and aliases at once. Distinct by operation sequence.')


def capi_val(r):
    return rndval(r, r.choice(['int', 'int', 'float', 'bool', 'str'])) if r.random() < .9 else None


def p_capi(ctx):
    r = ctx.rng
    c = Case(gen.setup())
    c.add('compile', 0, 'm', 'x := 1')
    progs.begin(c)
    c.add('run', 0)
    c.add('gcmode', 0, 3)
    c.add('apithread', 0)
    na = r.choice([1, 2, 4])
    arr = {}
    exp = ['compile 0 ok', 'done 0 sp=0 fc=0']
    for k in range(na):
        if r.random() < .5:
            vs = [capi_val(r) for _ in range(r.choice([0, 1, 3, 20, 200]))]
            c.add('arr', 'newex', k, *[hv(v) for v in vs])
            arr[k] = list(vs)
        else:
            c.add('arr', 'new', k)
            arr[k] = []
    big = r.random() < .2
    bias = r.choice(['mix', 'grow', 'shrink', 'churn'])
    nops = r.choice([20, 100, 300])
    for _ in range(nops):
        k = r.randrange(na)
        a = arr[k]
        w = {'mix': [3, 2, 1, 2, 2, 2, 2, 1, .3, 1], 'grow': [8, 1, 1, 3, 1, 1, 1, 1, .05, .5],
             'shrink': [1.5, 2, 2, .7, 2, 1, 1, 1, .2, .5], 'churn': [4, 3, 3, 1, 1, 1, 1, 2, .2, 1]}[bias]
        op = r.choices(['push', 'pop', 'shift', 'insert', 'remove', 'get', 'set', 'resize', 'clear', 'len'], w)[0]
        n = len(a)
        if op in ('pop', 'shift', 'insert', 'remove', 'get', 'set') and n == 0:
            op = 'push'
        i = r.choice([0, n - 1, n // 2, r.randrange(n)]) if n else 0
        v = capi_val(r)
        if op == 'push':
            for _ in range(r.choice([1, 1, 1, 5])):
                c.add('arr', 'push', k, hv(v))
                a.append(v)
        elif op == 'pop':
            c.add('arr', 'pop', k)
            exp.append('arr pop ' + lang.ser(a.pop()))
        elif op == 'shift':
            c.add('arr', 'shift', k)
            exp.append('arr shift ' + lang.ser(a.pop(0)))
        elif op == 'insert':
            c.add('arr', 'insert', k, i, hv(v))
            a.insert(i, v)
        elif op == 'remove':
            c.add('arr', 'remove', k, i)
            del a[i]
        elif op == 'get':
            c.add('arr', 'get', k, i)
            exp.append('arr get ' + lang.ser(a[i]))
        elif op == 'set':
            c.add('arr', 'set', k, i, hv(v))
            a[i] = v
        elif op == 'resize':
            m = r.choice([0, 1, n, n + 1, max(0, n - 1), n // 2, n * 2, n + r.randrange(20), 300 if big else 3, r.choice((1023, 1024, 1025, 1500, 2049, 5000)) if big and r.random() < .3 else 5])
            c.add('arr', 'resize', k, m, hv(v))
            del a[m:]
            a += [v] * (m - len(a))
        elif op == 'clear':
            c.add('arr', 'clear', k)
            a.clear()
        else:
            c.add('arr', 'len', k)
            exp.append('arr len %d' % n)
        if r.random() < .15:
            j = r.randrange(na)
            c.add('arr', 'dump', j)
            exp.append(' '.join(['arr dump'] + [lang.ser(x) for x in arr[j]]))
            c.add('arr', 'len', j)
            exp.append('arr len %d' % len(arr[j]))
    for k in range(na):
        c.add('arr', 'dump', k)
        exp.append(' '.join(['arr dump'] + [lang.ser(x) for x in arr[k]]))
    for k in range(na):
        c.add('arr', 'destroy', k)
    c.add('apilive')
    progs.finish(c)
    ctx.count('operations', nops)
    yield Unit([(r.choice(['asan', 'asan', 'fast']), c)], lambda rs: diff(exp, rs[0].lines), '\n'.join(c.cmds), None)


# ------------------------------------------------------------------ scripts

ELEM = {
    # type: (array name, declaration, literal maker -> (text, value))
    'int': ('array_int', 'use array("int") as array_int'),
    'float': ('array_float', 'use array("float") as array_float'),
    'bool': ('array_bool', 'use array("bool") as array_bool'),
    'str': ('array_str', 'use array("str") as array_str'),
    'any': ('array_any', 'use array("any") as array_any'),
    'P': ('array_P', 'use array("P") as array_P'),
    'array_int': ('mat', 'use array("array_int") as mat'),
}


def elem(r, t):
    """(source, value) of an element; objects are new ones."""
    if t == 'int':
        v = r.choice([0, 1, -1, 7, 100, r.randrange(-10 ** 6, 10 ** 6), 1 << 40, lang.INT_MAX])
        return lang_lit(v), v
    if t == 'float':
        v = r.choice([0.5, -2.25, 1e6, 0.1, float(r.randrange(1000))])
        return lang_lit(v), v
    if t == 'bool':
        v = r.random() < .5
        return lang_lit(v), v
    if t == 'str':
        v = r.choice([b'', b'a', b'lit', bytes(r.randrange(97, 123) for _ in range(r.randrange(1, 9)))])
        if r.random() < .6:
            t = r.choice([b'~', b'~', b''])
            return 'strcat(%s, %s)' % (lang_lit(v), lang_lit(t)), v + t
        return lang_lit(v), v
    if t == 'any':
        u = r.choice(['int', 'float', 'bool', 'str', 'P', 'null'])
        if u == 'null':
            return 'null', None
        e, v = elem(r, u)
        return 'cast(%s, any)' % e, v
    if t == 'P':
        a, b = r.randrange(100), r.choice([b'p', b'qq'])
        return 'new P { %d, strcat("%s", "!") }' % (a, b.decode()), lang.Struct('P', [a, b + b'!'])
    if t == 'array_int':
        vs = [r.randrange(10) for _ in range(r.randrange(0, 4))]
        return 'array_int(%s)' % ', '.join(map(str, vs)), lang.Arr(vs)
    raise KeyError(t)


def arrval(vs):
    return lang.Arr(list(vs))


def p_script(ctx):
    r = ctx.rng
    types = r.sample(sorted(ELEM), r.choice([1, 2, 3]))
    if 'array_int' in types and 'int' not in types:
        types.insert(0, 'int')
    types.sort(key=lambda t: t == 'array_int')
    L = ['struct P { x: int s: str }'] if r.random() < .5 else []
    decl = [ELEM[t][1] for t in types if ELEM[t][1] != 'x']
    tail = [] if L else ['struct P { x: int s: str }']
    r.shuffle(decl)
    decl.sort(key=lambda s: 'mat' in s)
    body = []
    ev = []
    arrs = {}
    for k in range(r.choice([1, 2, 3])):
        t = r.choice(types)
        es = [elem(r, t) for _ in range(r.choice([0, 0, 1, 3, 8, 30]))]
        body.append('a%d := %s(%s)' % (k, ELEM[t][0], ', '.join(e for e, _ in es)))
        arrs['a%d' % k] = (t, [v for _, v in es])
    if r.random() < .5:
        k = r.choice(sorted(arrs))
        body.append('b := ' + k)
        arrs['b'] = arrs[k]      # an alias
    names = sorted(arrs)
    ctr = [0]

    def call(n, f, *a):
        an = ELEM[arrs[n][0]][0]
        if r.random() < .5:
            return '%s -> %s_%s(%s)' % (n, an, f, ', '.join(a))
        return '%s_%s(%s)' % (an, f, ', '.join((n,) + a))

    def step(loop=False):
        n = r.choice(names)
        t, a = arrs[n]
        op = r.choices(['push', 'pop', 'shift', 'insert', 'remove', 'get', 'set', 'resize', 'clear', 'len', 'sort', 'loop', 'copy', 'cmpd'],
                       [6, 2, 2, 2, 2, 3, 2, 1, .2, 1, .6, .5, .5, .7])[0]
        m = len(a)
        if op in ('pop', 'shift', 'insert', 'remove', 'get', 'set', 'cmpd') and m == 0:
            op = 'push'
        i = r.choice([0, m - 1, r.randrange(m)]) if m else 0
        it = str(i)
        if r.random() < .3:
            it = '(%s - %d)' % (call(n, 'len'), m - i)
        e, v = elem(r, t)
        if op == 'push':
            body.append(call(n, 'push', e))
            a.append(v)
        elif op in ('pop', 'shift'):
            w = a.pop() if op == 'pop' else a.pop(0)
            if r.random() < .7:
                body.append('emit(%s)' % call(n, op))
                ev.append(progs.emitted(w))
            else:
                body.append(call(n, op))
        elif op == 'insert':
            body.append(call(n, 'insert', it, e))
            a.insert(i, v)
        elif op == 'remove':
            body.append(call(n, 'remove', it))
            del a[i]
        elif op == 'get':
            f = r.choice(['get', 'get_index', '[]'])
            body.append('emit(%s)' % ('%s[%s]' % (n, it) if f == '[]' else call(n, f, it)))
            ev.append(progs.emitted(a[i]))
        elif op == 'set':
            f = r.choice(['set', 'set_index', '[]'])
            body.append('%s[%s] = %s' % (n, it, e) if f == '[]' else call(n, f, it, e))
            a[i] = v
        elif op == 'cmpd':
            if t in ('int', 'float') and not (t == 'int' and abs(a[i]) > 1 << 60):
                body.append('%s[%d] %s %s' % (n, i, '+=', '3' if t == 'int' else '0.5'))
                a[i] += 3 if t == 'int' else 0.5
                body.append('emit(%s[%d])' % (n, i))
                ev.append(progs.emitted(a[i]))
        elif op == 'resize':
            q = r.choice([0, 1, m, m + 1, m // 2, m * 2, m + 9]) if m < 400 else m // 3
            if q > m:
                body.append(call(n, 'resize_fill', str(q), e))
                a += [v] * (q - m)
            else:
                body.append(call(n, 'resize', str(q)) if r.random() < .5 else call(n, 'resize_fill', str(q), e))
                del a[q:]
        elif op == 'clear':
            body.append(call(n, 'clear'))
            a.clear()
        elif op == 'len':
            body.append('emit(%s)' % call(n, 'len'))
            ev.append(progs.emitted(m))
        elif op == 'sort' and t == 'int':
            body.append(call(n, 'sort'))
            a.sort()
            body.append('emit(%s)' % n)
            ev.append(progs.emitted(arrval(a)))
        elif op == 'loop' and t in ('int', 'str'):
            q = r.choice([3, 20, 70])
            ctr[0] += 1
            z = 'z%d' % ctr[0]
            if t == 'int':
                body.append('for %s := 0; %s < %d; %s += 1 { %s }' % (z, z, q, z, call(n, 'push', '%s * %s' % (z, z))))
                a += [x * x for x in range(q)]
            else:
                body.append('for %s := 0; %s < %d; %s += 1 { %s }' % (z, z, q, z, call(n, 'push', 'strcat("v", int_to_str(%s))' % z)))
                a += [b'v%d' % x for x in range(q)]
        elif op == 'copy' and m:
            # elements of one array put into another of the same type
            o = r.choice([x for x in names if arrs[x][0] == t])
            body.append(call(o, 'push', '%s[%s]' % (n, it)))
            arrs[o][1].append(a[i])
        if r.random() < .25:
            x = r.choice(names)
            body.append('emit(%s)' % x)
            ev.append(progs.emitted(arrval(arrs[x][1])))
        if r.random() < .05:
            body.append('garbage(30)')
    for _ in range(r.choice([10, 40, 120])):
        step()
        if max(len(a) for _, a in arrs.values()) > 1500:
            break
    for x in names:
        body.append('emit(%s, %s)' % (x, call(x, 'len')))
        ev.append(progs.emitted(arrval(arrs[x][1]), len(arrs[x][1])))
    if r.random() < .3 and not any(x.startswith('for') for x in body):
        pass
    src = '\n'.join(decl + L + body + tail) if r.random() < .5 else '\n'.join(L + decl + tail + body)
    if r.random() < .35:   # the same inside a function: the arrays are locals
        src = '\n'.join(decl + L + tail + ['func main_() {'] + ['    ' + x for x in body] + ['}', 'main_()'])
        if len(body) > 2000:
            return
    ctx.count('operations', len(body))
    yield progs.text_unit(src, ev, var=r.choice(['asan', 'fast', 'asan']), gc=r.choice([0, 0, 1, 2, 3]), seed=r.randrange(99))


def p_big(ctx):
    """Large arrays: growth, sort, removal at both ends."""
    r = ctx.rng
    n = r.choice([1000, 5000, 20000, 70000])
    mul, add, mod = r.choice([(7919, 13, 10007), (31, 5, 997), (1, 0, 1 << 40)])
    vs = [(i * mul + add) % mod - mod // 2 for i in range(n)]
    src = '''use array("int") as array_int
a := array_int()
for i := 0; i < %d; i += 1 { array_int_push(a, (i * %d + %d) %% %d - %d) }
func sum(a: array_int): int { t := 0 for i := 0; i < array_int_len(a); i += 1 { t += a[i] * (i %% 7 + 1) } return t }
emit(array_int_len(a), sum(a), a[0], a[%d])
''' % (n, mul, add, mod, mod // 2, n - 1)

    def s(l):
        return sum(x * (i % 7 + 1) for i, x in enumerate(l))
    ev = [progs.emitted(n, s(vs), vs[0], vs[-1])]
    a = list(vs)
    for _ in range(3):
        k = r.choice(['sort', 'shift', 'remove', 'pop', 'insert', 'resize', 'clear', 'set', 'set'])
        q = min(r.randrange(1, 200), max(len(a) // 3, 1))
        if k == 'sort':
            src += 'a -> array_int_sort()\n'
            a.sort()
        elif k == 'clear':
            src += 'array_int_clear(a)\nemit(array_int_len(a))\narray_int_resize_fill(a, %d, 9)\n' % (q + 400)
            a = [9] * (q + 400)
            ev.append(progs.emitted(0))
        elif k == 'shift':
            src += 'for i2 := 0; i2 < %d; i2 += 1 { array_int_shift(a) }\n' % q
            del a[:q]
        elif k == 'remove':
            src += 'for i3 := 0; i3 < %d; i3 += 1 { array_int_remove(a, i3) }\n' % q
            for i in range(q):
                del a[i]
        elif k == 'set':
            st = r.choice([7, 97, 1001])
            src += 'func f%d() { for i := 0; i < array_int_len(a); i += %d { a[i] = i * 3 + a[i] %% 5 } }\nf%d()\n' % (len(src), st, len(src))
            for i in range(0, len(a), st):
                a[i] = i * 3 + int(math.fmod(a[i], 5))
        elif k == 'pop':
            src += 'for i4 := 0; i4 < %d; i4 += 1 { array_int_pop(a) }\n' % q
            del a[len(a) - q:]
        elif k == 'insert':
            src += 'for i5 := 0; i5 < %d; i5 += 1 { array_int_insert(a, i5 * 2, i5) }\n' % q
            for i in range(q):
                a.insert(i * 2, i)
        else:
            h = min(n // 3, len(a))
            src += 'array_int_resize(a, %d)\narray_int_resize_fill(a, %d, 5)\n' % (h, h + q)
            a = a[:h] + [5] * q
        src += 'emit(array_int_len(a), sum(a))\n'
        ev.append(progs.emitted(len(a), s(a)))
    # each variable may be declared once only
    if any(src.count('i%d :=' % k) > 1 for k in range(2, 6)):
        for k in range(2, 6):
            parts = src.split('for i%d' % k)
            src = parts[0] + ''.join('for j%d_%d' % (k, q) + p.replace('i%d' % k, 'j%d_%d' % (k, q), p.split('}')[0].count('i%d' % k)) for q, p in enumerate(parts[1:]))
    c = progs.text_case(src)
    progs.begin(c)
    c.add('run', 0, 20000000)
    progs.finish(c)
    exp = ['compile 0 ok'] + ev + ['done 0 sp=0 fc=0']
    yield Unit([('fast', c)], lambda rs: diff(exp, rs[0].lines), src, src)


def p_gen(ctx):
    r = ctx.rng
    m = progs.make(ctx, 'heap', w={'array': 8}, dicts=False, steps=8000)
    src = progs.source(m, r)
    c = progs.start(m, src, gc=r.choice([0, 1, 2]), seed=r.randrange(99))
    c.add('run', 0)
    progs.finish(c)
    yield progs.unit(m, src, [(r.choice(['asan', 'fast']), c)], [['compile 0 ok'] + m.it.ev + ['done 0 sp=0 fc=0']])


def families(tier):
    v = ('asan', 'fast')
    return [
        Fam('interface', p_capi, 500, 10000, v),
        Fam('scripts', p_script, 700, 16000, v),
        Fam('large', p_big, 12, 200, ('fast',), cpu=60),
        Fam('programs', p_gen, 200, 5000, v),
    ]
