"""C05: garbage collection never disturbs a reachable value."""
from vlib import lang, progs, gen
from vlib.core import Fam, Unit, expect, diff
from vlib.run import Case, cmd, f2hex
from vlib.lang import ser, escq

RULE = ('Heap-rich programs are run with a collection at every instruction, at random ones, at the default thresholds and never; '
        'each trace (which shows the content of whole object graphs) must equal the prediction of the reference interpreter, '
        'under address sanitizer, and after every collection the surviving objects are counted against the reachable ones. Distinct by source text and schedule.')
ASSUME = ['collections are forced through the public threshold field of the thread']


def multi(ctx, preset, modes, check='h', **over):
    r = ctx.rng
    m = progs.make(ctx, preset, **over)
    src = progs.source(m, r)
    cases, exps = [], []
    for g in modes:
        c = progs.start(m, src, gc=g, check=check, seed=r.randrange(1 << 30))
        c.add('run', 0)
        c.add('getg', 0, 'nosuch')
        progs.finish(c)
        cases.append(('asan', c))
        exps.append(['compile 0 ok'] + m.it.ev + ['done 0 sp=0 fc=0', 'glob 0 nosuch missing'])
    ctx.count('runs with a collection at every instruction', modes.count(1))
    yield progs.unit(m, src, cases, exps)


def p_heap(ctx):
    yield from multi(ctx, 'heap', [1, ctx.rng.choice([2, 4, 0, 3])])


def p_struct(ctx):
    yield from multi(ctx, 'struct', [1, ctx.rng.choice([2, 4])])


def p_default(ctx):
    yield from multi(ctx, ctx.rng.choice(['default', 'types', 'host']), [1, ctx.rng.choice([2, 0])])


def p_calls(ctx):
    yield from multi(ctx, 'calls', [1, 2], callbacks=.9)


# ---- random object graphs, with cycles and dropped parts -----------------------------------------

def p_graph(ctx):
    r = ctx.rng
    nodes = []        # [id, a, b, list, boxed, name]
    lines, ev = [], []
    nv = r.randrange(2, 7)
    var = [None] * nv
    for i in range(nv):
        lines.append('v%d := cast(null, Node?)' % i)
    lines.append('tbl := dict()')
    lines.append('bx := box(null)')
    tbl = {}
    bx = None
    infn = r.random() < .3

    def show(n, seen):
        if n is None:
            return 'n'
        if n in seen:
            return 'S#%d' % seen[n]
        seen[n] = len(seen)
        k = seen[n]
        d = nodes[n]
        return 'S#%d{i%d,%s,%s,%s,%s,%s}' % (k, d[0], show(d[1], seen), show(d[2], seen), lst(n, seen), box(n, seen), 's"%s"' % escq(d[5]))

    def lst(n, seen):
        key = ('L', n)
        if key in seen:
            return 'A#%d' % seen[key]
        seen[key] = len(seen)
        k = seen[key]
        return 'A#%d[%s]' % (k, ','.join(show(x, seen) for x in nodes[n][3]))

    def box(n, seen):
        key = ('B', n)
        if key in seen:
            return 'B#%d' % seen[key]
        seen[key] = len(seen)
        k = seen[key]
        return 'B#%d(%s)' % (k, show(nodes[n][4], seen))

    def emit(i):
        lines.append('emit(v%d)' % i)
        ev.append('emit 0 1 ' + show(var[i], {}))
    for step in range(r.choice([30, 60, 120])):
        k = r.random()
        i, j = r.randrange(nv), r.randrange(nv)
        if k < .25:
            nm = b'n%d' % step
            x, y = r.randrange(nv), r.randrange(nv)
            e = 'new Node { %d, v%d, v%d, array_Node(), box(null), strcat("n", int_to_str(%d)) }' % (step, x, y, step)
            nodes.append([step, var[x], var[y], [], None, nm])
            lines.append('v%d = cast(cast(%s, any), Node?)' % (i, e))
            var[i] = len(nodes) - 1
        elif k < .4:
            if var[i] is not None:
                f = r.choice('ab')
                lines.append('cast(cast(v%d, any), Node).%s = v%d' % (i, f, j) if False else 'set_%s(cast(cast(v%d, any), Node), v%d)' % (f, i, j))
                nodes[var[i]][1 if f == 'a' else 2] = var[j]
        elif k < .5:
            if var[i] is not None and var[j] is not None and len(nodes[var[i]][3]) < 6:
                lines.append('cast(cast(v%d, any), Node) -> put(cast(cast(v%d, any), Node))' % (i, j) if r.random() < .5 and False else 'put(cast(cast(v%d, any), Node), cast(cast(v%d, any), Node))' % (i, j))
                nodes[var[i]][3].append(var[j])
        elif k < .56:
            if var[i] is not None and nodes[var[i]][3]:
                if r.random() < .5:
                    lines.append('drop(cast(cast(v%d, any), Node))' % i)
                    nodes[var[i]][3].pop()
                else:
                    lines.append('dropfirst(cast(cast(v%d, any), Node))' % i)
                    nodes[var[i]][3].pop(0)
        elif k < .64:
            if var[i] is not None:
                lines.append('setbox(cast(cast(v%d, any), Node).bx, cast(v%d, any))' % (i, j) if False else 'sb(cast(cast(v%d, any), Node), v%d)' % (i, j))
                nodes[var[i]][4] = var[j]
        elif k < .7:
            lines.append('v%d = cast(null, Node?)' % i)
            var[i] = None
        elif k < .76:
            lines.append('v%d = v%d' % (i, j))
            var[i] = var[j]
        elif k < .8:
            key = 'key%d' % r.randrange(6)
            lines.append('dict_put(tbl, strcat("key", int_to_str(%s)), cast(v%d, any))' % (key[3:], i))
            tbl[key] = var[i]
        elif k < .84:
            key = 'key%d' % r.randrange(6)
            if key in tbl:
                lines.append('emit(dict_get(tbl, "%s"))' % key)
                ev.append('emit 0 1 ' + show(tbl[key], {}))
                lines.append('v%d = cast(dict_get(tbl, "%s"), Node?)' % (i, key))
                var[i] = tbl[key]
        elif k < .86:
            key = 'key%d' % r.randrange(6)
            lines.append('dict_remove(tbl, "%s")' % key)
            tbl.pop(key, None)
        elif k < .9:
            lines.append('setbox(bx, cast(v%d, any))' % i)
            bx = var[i]
        elif k < .92:
            lines.append('garbage(%d)' % r.choice([1, 5, 40]))
        elif k < .94:
            lines.append('gc()')
        else:
            emit(i)
    for i in range(nv):
        emit(i)
    lines.append('emit(unbox(bx))')
    ev.append('emit 0 1 ' + show(bx, {}))
    head = ['use array("Node") as array_Node',
            'struct Node { id: int a: Node? b: Node? list: array_Node bx: box name: str }',
            'func set_a(n: Node, v: Node?) { n.a = v }', 'func set_b(n: Node, v: Node?) { n.b = v }',
            'func put(n: Node, v: Node) { n.list -> array_Node_push(v) }',
            'func drop(n: Node) { x := n.list -> array_Node_pop() }',
            'func dropfirst(n: Node) { x := array_Node_shift(n.list) }',
            'func sb(n: Node, v: Node?) { setbox(n.bx, cast(v, any)) }']
    if infn:
        lines = ['func all() {'] + lines + ['}', 'all()']
    src = '\n'.join(head + lines)
    ctx.count('graph operations', len(lines))
    for g in ([1, 2] if r.random() < .5 else [r.choice([1, 4, 0])]):
        yield progs.text_unit(src, ev, 'asan', gc=g, check='h', seed=r.randrange(1 << 30))


# ---- deep structures -----------------------------------------------------------------------------

def p_deep(ctx):
    r = ctx.rng
    n = r.choice([10, 100, 500, 2000])
    kind = r.choice(['list', 'array', 'box', 'dict', 'tree'])
    if kind == 'list':
        src = '''struct L { v: int s: str next: L? }
h := cast(null, L?)
for i := 0; i < %d; i += 1 { h = cast(cast(new L { i, int_to_str(i), h }, any), L?) }
gc() garbage(20)
sum := 0
c := h
for k := 0; k < %d; k += 1 { q := cast(cast(c, any), L) sum += q.v + strlen(q.s) c = q.next }
emit(sum, c)''' % (n, n)
        s = sum(i + len(str(i)) for i in range(n))
        ev = ['emit 0 2 i%d n' % s]
    elif kind == 'array':
        src = '''use array("any") as aa
h := aa()
for i := 0; i < %d; i += 1 { t := aa() t = aa(int_to_str(i), cast(h, any)) h = t }
gc() garbage(20)
sum := 0
for k := 0; k < %d; k += 1 { sum += strlen(cast(h[0], str)) h = cast(h[1], aa) }
emit(sum, aa_len(h))''' .replace('t := aa() t = ', 't = ') % (n, n)
        src = src.replace('h := aa()', 'h := aa()\nt := aa()')
        s = sum(len(str(i)) for i in range(n))
        ev = ['emit 0 2 i%d i0' % s]
    elif kind == 'box':
        src = '''h := cast(box("end"), any)
for i := 0; i < %d; i += 1 { h = cast(box(h), any) }
gc() garbage(20)
for k := 0; k < %d; k += 1 { h = unbox(cast(h, box)) }
emit(unbox(cast(h, box)))''' % (n, n)
        ev = ['emit 0 1 s"end"']
    elif kind == 'dict':
        src = '''d := dict()
for i := 0; i < %d; i += 1 { dict_put(d, strcat("k", int_to_str(i)), strcat("v", int_to_str(i))) }
gc() garbage(20)
ok := 0
for k := 0; k < %d; k += 1 { if cast(dict_get(d, strcat("k", int_to_str(k))), str) == strcat("v", int_to_str(k)) { ok += 1 } }
emit(ok)''' % (n, n)
        ev = ['emit 0 1 i%d' % n]
    else:
        dpt = r.randrange(3, 9)
        src = '''struct T { l: T? r: T? v: str }
func mk(d: int): T { if d == 0 { return new T { cast(null, T?), cast(null, T?), int_to_str(d) } } return new T { cast(cast(mk(d - 1), any), T?), cast(cast(mk(d - 1), any), T?), int_to_str(d) } }
func cnt(t: T?): int { if t == null { return 0 } q := cast(cast(t, any), T) return strlen(q.v) + cnt(q.l) + cnt(q.r) }
t := mk(%d)
gc() garbage(20)
emit(cnt(cast(cast(t, any), T?)), cnt(cast(cast(mk(%d), any), T?)))''' % (dpt, dpt)
        v = (1 << (dpt + 1)) - 1
        ev = ['emit 0 2 i%d i%d' % (v, v)]
    g = r.choice([0, 1, 2, 4]) if n <= 100 else r.choice([0, 4])
    ctx.count('deep ' + kind)
    yield progs.text_unit(src, ev, 'asan', gc=g, check='h' if n <= 500 and r.random() < .5 else '', seed=ctx.i)


def p_frames(ctx):
    """Every frame of a deep recursion holds values of its own, pending on the stack while deeper ones allocate."""
    r = ctx.rng
    n = r.choice([3, 30, 300, 700, 900, 960, 1010])
    src = '''struct P { s: str d: int }
func down(n: int, s: str): int {
p := new P { strcat("p", int_to_str(n)), n }
if n == 0 { garbage(3) return strlen(strcat(strcat("x", s), strcat(p.s, int_to_str(n)))) }
return strlen(strcat("a", int_to_str(n))) + down(n - 1, strcat("s", int_to_str(n))) + strlen(strcat(s, strcat(p.s, "y"))) + p.d
}
emit(down(%d, "top"))
emit(callback("down", %d, strcat("t", "op")))''' % (n, n - 2)

    def down(k, s):
        if k == 0:
            return 1 + len(s) + 2 + 1
        return 1 + len(str(k)) + down2[k - 1] + len(s) + 1 + len(str(k)) + 1 + k
    ev = []
    for top in (n, n - 2):
        down2 = {}
        for k in range(top + 1):
            down2[k] = down(k, 'top' if k == top else 's%d' % (k + 1))
        ev.append('emit 0 1 i%d' % down2[top])
    ctx.count('frames', n)
    yield progs.text_unit(src, ev, 'asan', gc=r.choice([0, 1, 1, 2, 4]), check='h' if n <= 300 and r.random() < .5 else '', seed=ctx.i)


# ---- values on the operand stack and pending arguments ------------------------------------------

def p_pending(ctx):
    """Fresh strings, structs and containers pending on the stack while calls of every kind allocate and collect."""
    r = ctx.rng
    ctr = [0]
    ev = []
    head = ['use array("any") as aa', 'struct P { a: any b: any }',
            'func id(x: any): any { garbage(3) return x }',
            'func two(x: any, y: any): any { z := strcat("pad", "ding") garbage(2) return cast(new P { x, y }, any) }',
            'func cb(x: any): any { gc() garbage(9) w := strcat("in", "cb") gc() return cast(aa(x, cast(w, any)), any) }',
            'func deep(n: int, x: any): any { if n == 0 { gc() return x } l := strcat("lv", int_to_str(n)) y := deep(n - 1, cast(new P { x, cast(l, any) }, any)) return y }']

    class V:
        pass

    def mk(d):
        """expression, value (python tree: bytes, ('P', a, b), ('A', [..]), int)"""
        k = r.random()
        ctr[0] += 1
        c = ctr[0]
        if d <= 0 or k < .25:
            j = r.randrange(5)
            if j == 0:
                return 'cast(strcat("s", int_to_str(%d)), any)' % c, b's%d' % c
            if j == 1:
                return 'cast(mkstr(%d, %d, %d), any)' % (r.randrange(3), c, c % 30), lang._mkstr(None, [0, c, c % 30])
            if j == 2:
                return 'cast("lit%d", any)' % c, b'lit%d' % c
            if j == 3:
                return 'cast(substr("abcdefgh", 2, %d), any)' % (2 + c % 6), b'abcdefgh'[2:2 + c % 6]
            return 'cast(%d, any)' % c, c
        if k < .4:
            a, va = mk(d - 1)
            b, vb = mk(d - 1)
            return 'cast(new P { %s, %s }, any)' % (a, b), ('P', [va, vb])
        if k < .5:
            a, va = mk(d - 1)
            b, vb = mk(d - 1)
            return 'two(%s, %s)' % (a, b), ('P', [va, vb])
        if k < .65:
            xs = [mk(d - 1) for _ in range(r.randrange(0, 4))]
            return 'cast(aa(%s), any)' % ', '.join(x for x, _ in xs), ('A', [v for _, v in xs])
        if k < .72:
            a, va = mk(d - 1)
            return 'id(%s)' % a, va
        if k < .8:
            a, va = mk(d - 1)
            return 'callback("cb", %s)' % a, ('A', [va, b'incb'])
        if k < .86:
            a, va = mk(d - 1)
            return 'cast(box(%s), any)' % a, ('B', va)
        if k < .92:
            a, va = mk(d - 1)
            return 'unbox(box(%s))' % a, va
        if k < .96:
            a, va = mk(d - 1)
            n = r.randrange(0, 4)
            v = va
            for q in range(n, 0, -1):
                v = ('P', [v, b'lv%d' % q])
            return 'deep(%d, %s)' % (n, a), v
        a, va = mk(d - 1)
        b, vb = mk(d - 1)
        return 'tlast(1, %s, %s)' % (a, b), vb

    def sh(v, n):
        if isinstance(v, bytes):
            return 's"%s"' % escq(v)
        if isinstance(v, int):
            return 'i%d' % v
        k = n[0]
        n[0] += 1
        if v[0] == 'P':
            return 'S#%d{%s}' % (k, ','.join([sh(x, n) for x in v[1]]))
        if v[0] == 'A':
            return 'A#%d[%s]' % (k, ','.join([sh(x, n) for x in v[1]]))
        return 'B#%d(%s)' % (k, sh(v[1], n))
    lines = []
    for _ in range(12):
        n = r.randrange(1, 5)
        xs = [mk(r.randrange(1, 5)) for _ in range(n)]
        if any(len(x) > 4000 for x, _ in xs):
            continue
        lines.append('emit(%s)' % ', '.join(x for x, _ in xs))
        k = [0]
        ev.append('emit 0 %d %s' % (n, ' '.join([sh(v, k) for _, v in xs])))
    src = '\n'.join(head + lines)
    for g in (1, r.choice([0, 2, 4])):
        yield progs.text_unit(src, ev, 'asan', gc=g, check='h', seed=ctx.i)


# ---- host calls into a paused thread, with heap arguments ----------------------------------------

def p_hostcall(ctx):
    r = ctx.rng
    m = progs.make(ctx, r.choice(['heap', 'struct', 'default']), steps=4000)
    extra = b'''
struct HP9 { a: any b: any }
func hp9(a: any, b: any): any { x := strcat("x", "y") garbage(5) p := new HP9 { a, b } gc() z := strcat(x, x) return cast(p, any) }
func hm9(a: any, b: any, c: any, d: any, e: any): any { garbage(3) gc() x := strcat("m", "n") gc() return cast(new HP9 { b, cast(new HP9 { d, e }, any) }, any) }
func h39(a: any, b: any, c: any): int { garbage(9) gc() garbage(9) return strlen(cast(b, str)) }
func h09() { garbage(9) gc() garbage(9) }
func hs9(s: str, n: int): str { if n <= 0 { return s } t := strcat(s, "+") gc() return hs9(t, n - 1) }
'''
    src = progs.source(m, r) + extra
    g = r.choice([1, 2, 1])
    # steps at which the run is interrupted
    c = progs.start(m, src, gc=g, check='h', seed=ctx.i)
    left = []
    nc = r.randrange(1, 8)
    exp_calls = []
    for k in range(nc):
        c.add('steps', 0, r.choice([1, 2, 3, 7, 20, 50, 200, 1000]))
        j = r.random()
        if j < .5:
            s = bytes(r.randrange(97, 120) for _ in range(r.randrange(12)))
            how = r.choice([b's:', b'o:'])
            c.add('call', 0, 'hp9', how + s, 'i%d' % k)
            exp_calls.append('ret 0 S#0{s"%s",i%d}' % (s.decode(), k))
        elif j < .6:
            s = bytes(r.randrange(97, 120) for _ in range(r.randrange(12)))
            how = r.choice([b's:', b'o:'])
            c.add('call', 0, 'hm9', 'n', how + s, 'i%d' % k, 'b1', how + b'z')
            exp_calls.append('ret 0 S#0{s"%s",S#1{b1,s"z"}}' % s.decode())
        elif j < .7:
            if r.random() < .5:
                c.add('call', 0, 'h39', 's:x', 'o:four', 'n')
                exp_calls.append('ret 0 i4')
            else:
                c.add('call', 0, 'h09')
                exp_calls.append('ret 0 n')
        elif j < .85:
            s = bytes(r.randrange(97, 120) for _ in range(r.randrange(12)))
            n = r.randrange(5)
            c.add('call', 0, 'hs9', b's:' + s, 'i%d' % n)
            exp_calls.append('ret 0 s"%s%s"' % (s.decode(), '+' * n))
        else:
            # the previous result is passed on at once
            c.add('call', 0, 'hp9', b's:one', 'n')
            c.add('call', 0, 'hp9', 'R0', 'R0')
            exp_calls.append('ret 0 S#0{s"one",n}')
            exp_calls.append('ret 0 S#0{S#1{s"one",n},S#1}')
    c.add('run', 0)
    progs.finish(c)
    exp = ['compile 0 ok'] + m.it.ev + ['done 0 sp=0 fc=0']
    ctx.count('host calls during a run', nc)

    def judge(rs):
        l = rs[0].lines
        calls = [x for x in l if x.startswith('ret 0 ')]
        rest = [x for x in l if not x.startswith('ret 0 ') and not x.startswith('limit 0 ')]
        if rest.count('done 0 sp=0 fc=0') > 1:
            rest = [x for i, x in enumerate(rest) if x != 'done 0 sp=0 fc=0' or i == len(rest) - 1]
        return diff(exp_calls, calls) or diff(exp, rest)
    yield Unit([('asan', c)], judge, '\n'.join(c.cmds), src.decode('latin-1'))


# ---- library functions that allocate or call back ------------------------------------------------

def p_lib(ctx):
    r = ctx.rng
    lines, ev = [], []
    n = r.randrange(3, 9)
    for i in range(n):
        k = r.randrange(10)
        a, b = r.randrange(100), r.randrange(100)
        if k >= 8:
            # arrays of everything, filled with temporaries
            t = r.choice(['str', 'any', 'K', 'array_int', 'array_any', 'dict', 'box', 'dict_str_int'])
            if t == 'array_int' and r.random() < .5:
                t = 'aai'
            x = 'q%d' % i
            vals, nx = [], [0]

            def new():
                nx[0] += 1
                v = '%d' % (i * 100 + nx[0])
                sx = 'strcat("e", "%s")' % v
                return {'str': sx, 'any': sx, 'K': 'new K { %s.5 }' % v, 'array_int': 'array_int(%s)' % v, 'array_any': 'array_any(%s)' % sx, 'dict': 'dict(strcat("k", ""), %s)' % sx, 'box': 'box(%s)' % sx,
                        'dict_str_int': 'dict_str_int(strcat("k", ""), %s)' % v, 'aai': 'aai(array_int(%s))' % v}[t], v
            init = [new() for _ in range(r.choice([0, 0, 1, 3, 12]))]
            lines.append('%s := of_%s(%s)' % (x, t, ', '.join(e for e, _ in init)))
            vals = [v for _, v in init]
            for _ in range(r.randrange(1, 6)):
                e, v = new()
                op = r.randrange(5)
                if op == 0 and vals:
                    j = r.randrange(len(vals))
                    lines.append('%s[%d] = %s' % (x, j, e))
                    vals[j] = v
                elif op == 1 and vals:
                    j = r.randrange(len(vals))
                    lines.append('of_%s_insert(%s, %d, %s)' % (t, x, j, e))
                    vals.insert(j, v)
                elif op == 2:
                    lines.append('of_%s_resize_fill(%s, %d, %s)' % (t, x, len(vals) + 2, e))
                    vals += [v, v]
                else:
                    lines.append('of_%s_push(%s, %s)' % (t, x, e))
                    vals.append(v)
            lines.append('gc() garbage(9)')
            for j, v in enumerate(vals):
                q = '%s[%d]' % (x, j)
                sv = 's"e%s"' % v
                acc, want = {'str': (q, sv), 'any': (q, sv), 'K': (q + '.f', 'f%s.5' % v), 'array_int': (q + '[0]', 'i' + v), 'array_any': (q + '[0]', sv), 'dict': (q + '["k"]', sv), 'box': ('unbox(%s)' % q, sv),
                             'dict_str_int': ('dict_str_int_get(%s, "k")' % q, 'i' + v), 'aai': (q + '[0][0]', 'i' + v)}[t]
                lines.append('emit(%s)' % acc)
                ev.append('emit 0 1 ' + (want if t != 'K' else ser(float(v) + .5)))
        elif k == 7:
            # the constructor takes values of any kind
            t = r.choice(['int', 'float', 'bool'])
            m = r.choice([0, 0, 7, 40])
            lines.append('p%d := array_%s(%s%d, strcat("p", "%d"), array_%s(strcat("q", "%d")), true) gc() garbage(9) emit(p%d)' % (i, t, '7, ' * m, a, b, t, a, i))
            ev.append('emit 0 1 A#0[%si%d,s"p%d",A#1[s"q%d"],b1]' % ('i7,' * m, a, b, a))
        elif k == 0:
            lines.append('d%d := mkdel() emit(dcall(d%d, %d, strcat("q", int_to_str(%d))))' % (i, i, a, b))
            ev.append('emit 0 1 s"%sq%d%d"' % ('', b, a))
        elif k == 1:
            lines.append('emit(J_to_json(new J { %d, strcat("s", "%d"), %s, new K { %d.5 } }))' % (a, b, 'true' if a % 2 else 'false', b))
            ev.append('emit 0 1 s"%s"' % escq(b'{"a":%d,"s":"s%d","t":%s,"k":{"f":%s}}' % (a, b, b'true' if a % 2 else b'false', ('%g' % (b + .5)).encode())))
        elif k == 2:
            lines.append('k%d := dict_keys(dict("a%d", 1)) emit(k%d)' % (i, a, i))
            ev.append('emit 0 1 A#0[s"a%d"]' % a)
        elif k == 3:
            lines.append('w%d := dict_values(dict(strcat("a", "b"), strcat("v", "%d"))) emit(w%d)' % (i, a, i))
            ev.append('emit 0 1 A#0[s"v%d"]' % a)
        elif k == 4:
            lines.append('t%d := dsi() dsi_put(t%d, strcat("k", "%d"), %d) gc() garbage(9) emit(dsi_get(t%d, "k%d"), dsi_keys(t%d))' % (i, i, a, b, i, a, i))
            ev.append('emit 0 2 i%d A#0[s"k%d"]' % (b, a))
        elif k == 5:
            lines.append('emit(call_function(get_function_index("plus"), strcat("l", "%d"), strcat("r", "%d")))' % (a, b))
            ev.append('emit 0 1 s"l%dr%d"' % (a, b))
        else:
            lines.append('emit(strcat(strcat("a", "b"), strcat("c", strcat("d", "%d")), ntos(%d.5)))' % (a, b))
            ev.append('emit 0 1 s"abcd%d%s"' % (a, '%g' % (b + .5)))
    src = '\n'.join(['struct K { f: float }', 'struct J { a: int s: str t: bool k: K }', 'use json("K")', 'use json("J")',
                     'use delegate("df") as mkdel', 'use array("int") as array_int', 'use array("float") as array_float', 'use array("bool") as array_bool', 'use dict_str_int() as dsi' if False else '',
                     'use array("any") as array_any', 'use array("array_int") as aai'] + ['use array("%s") as of_%s' % (t, t) for t in ('str', 'any', 'K', 'array_int', 'array_any', 'dict', 'box', 'dict_str_int', 'aai')] + [
                     'func df(n: int, s: str): str { gc() x := strcat(s, int_to_str(n)) garbage(8) return x }',
                     'func plus(a: str, b: str): str { garbage(8) return strcat(a, b) }'] + lines)
    src = src.replace('dcall(', 'delegate_int_str_str_call(').replace('dsi_', 'dict_str_int_').replace('dsi()', 'dict_str_int()')
    g = r.choice([1, 2, 0])
    yield progs.text_unit(src, ev, 'asan', gc=g, seed=ctx.i)


def p_abyss(ctx):
    """Graphs far deeper than the native stack could be."""
    r = ctx.rng
    n = r.choice([3000, 60000, 150000])
    k = ctx.i % 5
    L = ['struct N { a: any b: any v: int }', 'use array("any") as array_any', 'h := cast(null, any)']
    if k == 0:
        f = r.choice('ab')
        L.append('for i := 0; i < %d; i += 1 { h = cast(new N { %s, i }, any) }' % (n, 'h, null' if f == 'a' else 'null, h'))
        L.append('c := 0 t := 0 while h != null { x := cast(h, N) c += 1 t += x.v h = x.%s }' % f)
    elif k == 1:      # appended at the tail
        f = r.choice('ab')
        L.append('first := new N { null, null, 0 } last := first for i := 1; i < %d; i += 1 { z := new N { null, null, i } last.%s = cast(z, any) last = z }' % (n, f))
        L.append('h = cast(first, any) c := 0 t := 0 while h != null { x := cast(h, N) c += 1 t += x.v h = x.%s }' % f)
    elif k == 2:
        L.append('for i := 0; i < %d; i += 1 { h = cast(array_any(h, cast(i, any)), any) }' % n)
        L.append('c := 0 t := 0 while h != null { x := cast(h, array_any) c += 1 t += cast(array_any_get(x, 1), int) h = array_any_get(x, 0) }')
    elif k == 3:
        L.append('for i := 0; i < %d; i += 1 { h = cast(dict("n", h, "i", i), any) }' % (n // 20))
        L.append('c := 0 t := 0 while h != null { x := cast(h, dict) c += 1 t += cast(dict_get(x, "i"), int) h = dict_get(x, "n") }')
        n //= 20
    else:             # closed to a cycle, walked once around
        L.append('first := new N { null, null, 0 } h = cast(first, any) for i := 1; i < %d; i += 1 { h = cast(new N { h, cast(box(h), any), i }, any) } first.a = h' % n)
        L.append('c := 0 t := 0 go := true while go { x := cast(h, N) c += 1 t += x.v h = x.a go = x.v != 0 }')
    L.append('emit(c, t)')
    src = '\n'.join(L)
    ctx.count('objects in deep graphs', n)
    c = progs.text_case(src, fname='main')
    progs.begin(c)
    c.add('run', 0, 100000000)
    progs.finish(c)
    exp = ['compile 0 ok', progs.emitted(n, n * (n - 1) // 2), 'done 0 sp=0 fc=0']
    yield Unit([(r.choice(['asan', 'fast']), c)], lambda rs: diff(exp, rs[0].lines), src + str(ctx.i), src)


KEEP = (cmd('bind', '0', 'keepcall(str, int, ...): any', 'keepcall'), cmd('bind', '0', 'mkanon(int): nat', 'mkanon'))


def hv(r, k):
    """A fresh heap value made by an expression -> text, serialised"""
    j = r.randrange(4)
    if j == 0:
        return 'cast(strcat("h", int_to_str(%d)), any)' % k, 's"h%d"' % k
    if j == 1:
        return 'cast(mkstr(%d, 3, %d), any)' % (k % 3, k % 40), 's"%s"' % lang._mkstr(None, [0, 3, k % 40]).decode()
    if j == 2:
        return 'cast(mknat(%d), any)' % (k + 1), 'N%d' % (k + 1)
    return 'cast(substr("0123456789abcdef", %d, %d), any)' % (k % 7, k % 7 + 1 + k % 9), 's"%s"' % '0123456789abcdef'[k % 7:k % 7 + 1 + k % 9]


def p_keep(ctx):
    """Foreign functions that call back and then use all their arguments, of which there may be many."""
    r = ctx.rng
    lines, ev = [], []
    k = 0
    for step in range(10):
        n = r.choice([0, 1, 2, 3, 5, 6, 7, 8, 9, 12, 17, 33, 64, 129, 250])
        m = r.choice([0, 1, 2, 3, min(n, 9)])
        m = min(m, n)
        if m > 9:
            m = 9
        args, sv = [], []
        for _ in range(n):
            k += 1
            if r.random() < .8:
                a, b = hv(r, k)
            else:
                a, b = str(k), 'i%d' % k
            args.append(a)
            sv.append(b)
        fn = 'cb%d' % m
        tr = 'keep 0 %d %s' % (n + 2, ' '.join(['s"%s"' % fn, 'i%d' % m] + sv))
        where = r.choice(['top', 'func', 'nest', 'pend'])
        call = 'keepcall(%s)' % ', '.join(['"%s"' % fn, str(m)] + args)
        rv = sv[-(n - m) - 1] if m else 's"nothing!"'
        if where == 'top':
            lines.append('emit(%s)' % call)
            ev += [tr, 'emit 0 1 ' + rv]
        elif where == 'pend':
            a, b = hv(r, k + 1)
            a2, b2 = hv(r, k + 2)
            lines.append('emit(%s, %s, %s)' % (a, call, a2))
            ev += [tr, 'emit 0 3 %s %s %s' % (b, rv, b2)]
        elif where == 'func':
            a, b = hv(r, k + 1)
            lines.append('func f%d(p: any): any { l := %s q := %s emit(p, l) return q } emit(f%d(%s))' % (step, a, call, step, hv(r, 0)[0] if False else 'cast(strcat("par", "am"), any)'))
            ev += [tr, 'emit 0 2 s"param" ' + b, 'emit 0 1 ' + rv]
        else:
            lines.append('emit(keepcall("cb1", 1, %s, cast(strcat("after", "wards"), any)))' % call)
            ev += [tr, 'keep 0 4 s"cb1" i1 %s s"afterwards"' % rv, 'emit 0 1 ' + rv]
    head = []
    for m in range(10):
        body = 'garbage(%d) w := strcat("no", "thing!") gc() z := strcat(w, w) ' % r.choice([0, 3, 20])
        head.append('func cb%d(%s): any { %sreturn %s }' % (m, ', '.join('a%d: any' % i for i in range(m)), body, 'a%d' % (m - 1) if m else 'cast(substr(strcat(w, w), 0, 8), any)'))
    src = '\n'.join(head + lines)
    ctx.count('arguments used after a callback', k)
    for g in (1, r.choice([2, 4, 0])):
        yield progs.text_unit(src, ev, 'asan', gc=g, check='h', seed=ctx.i, extra=KEEP)


def p_sizes(ctx):
    """Structs with many fields, many globals, many locals, long arrays, dictionaries with keys of every kind, all holding heap values."""
    r = ctx.rng
    kind = ('struct', 'globals', 'locals', 'array', 'dict', 'args', 'strings')[ctx.i % 7]
    lines, ev, head = [], [], []
    g = r.choice([1, 2, 0])
    if kind == 'struct':
        n = r.choice([2, 60, 126, 127, 128, 129, 200, 254, 255])
        vs = [hv(r, i) for i in range(n)]
        head.append('struct S { %s }' % ' '.join('f%d: any' % i for i in range(n)))
        lines.append('s := new S { %s } gc() garbage(%d)' % (', '.join(a for a, _ in vs), n + 20))
        lines.append('emit(s)')
        ev.append('emit 0 1 S#0{%s}' % ','.join(b for _, b in vs))
        for i in sorted({0, n - 1, n // 2, r.randrange(n)}):
            lines.append('s.f%d = cast(strcat("new", "%d"), any) garbage(9) gc() garbage(9) emit(s.f%d)' % (i, i, i))
            ev.append('emit 0 1 s"new%d"' % i)
    elif kind == 'globals':
        n = r.choice([60, 127, 129, 255, 256, 257, 300, 520, 1100])
        vs = [hv(r, i) for i in range(n)]
        for i in range(n):
            lines.append('g%d := %s' % (i, vs[i][0]))
        lines.append('gc() garbage(%d)' % (n + 20))
        for i in range(0, n, 50):
            w = range(i, min(n, i + 50))
            lines.append('emit(%s)' % ', '.join('g%d' % q for q in w))
            ev.append('emit 0 %d %s' % (len(w), ' '.join(vs[q][1] for q in w)))
        g = r.choice([2, 0, 3]) if n > 300 else g
    elif kind == 'locals':
        n = r.choice([20, 60, 126, 127, 128, 129, 200, 250])
        vs = [hv(r, i) for i in range(n)]
        body = ['l%d := %s' % (i, vs[i][0]) for i in range(n)]
        body.append('gc() garbage(%d)' % (n + 20))
        for i in range(0, n, 50):
            w = range(i, min(n, i + 50))
            body.append('emit(%s)' % ', '.join('l%d' % q for q in w))
            ev.append('emit 0 %d %s' % (len(w), ' '.join(vs[q][1] for q in w)))
        head.append('func f() {\n%s\n}' % '\n'.join(body))
        lines.append('f()')
        if r.random() < .5:
            lines.append('callback("f")')
            ev += ev
    elif kind == 'args':
        n = r.choice([5, 60, 127, 128, 129, 200, 254])
        vs = [hv(r, i) for i in range(n)]
        w = sorted({0, 1, n - 1, n // 2, r.randrange(n), r.randrange(n)})
        body = 'gc() garbage(%d) ' % (n + 20) + 'emit(%s)' % ', '.join('p%d' % q for q in w)
        head.append('func f(%s): any { %s return p%d }' % (', '.join('p%d: any' % i for i in range(n)), body, n - 1))
        lines.append('emit(f(%s))' % ', '.join(a for a, _ in vs))
        ev.append('emit 0 %d %s' % (len(w), ' '.join(vs[q][1] for q in w)))
        ev.append('emit 0 1 ' + vs[-1][1])
    elif kind == 'array':
        n = r.choice([1, 10, 100, 999, 1000, 1001, 1025, 4096, 5000])
        cap = r.choice(['push', 'insert0', 'mixed', 'index'])
        head.append('use array("any") as aa')
        lines.append('a := aa() for i := 0; i < %d; i += 1 { a -> aa_push(cast(strcat("e", int_to_str(i)), any)) }' % n)
        if cap == 'index' or cap == 'mixed':
            lines.append('for j := 0; j < %d; j += 3 { a[j] = cast(strcat("x", int_to_str(j)), any) }' % n)
        lines.append('gc() garbage(%d) ok := 0 for k := 0; k < %d; k += 1 { w := if (k %% 3 == 0 && %s) "x" else "e" if cast(a[k], str) == strcat(w, int_to_str(k)) { ok += 1 } }' % (
            n + 50, n, 'true' if cap in ('index', 'mixed') else 'false'))
        lines.append('emit(ok)')
        ev.append('emit 0 1 i%d' % n)
        g = r.choice([0, 4]) if n > 100 else g
    elif kind == 'dict':
        head += ['struct K { v: int }', 'use array("any") as array_any']
        lines.append('d := dict()')
        n = r.choice([4, 10, 40, 150])
        got = []
        seen = set()
        for i in range(n):
            j = r.randrange(7)
            if j == 0:
                key = str(r.randrange(-0, 500))
            elif j == 1:
                key = '%d.%d' % (r.randrange(1, 50), r.choice([25, 5, 75]))
            elif j == 2:
                key = r.choice(['true', 'false'])
            elif j == 3:
                key = '"c%d"' % r.randrange(60)
            elif j == 4:
                key = 'strcat("d", "%d")' % r.randrange(60)
            elif j == 5:
                key = 'nk%d' % i
                lines.append('nk%d := mknat(%d)' % (i, i))
            else:
                key = 'sk%d' % i
                lines.append('sk%d := new K { %d }' % (i, i))
            if key in seen:
                continue
            seen.add(key)
            a, b = hv(r, i)
            lines.append('dict_put(d, %s, %s)' % (key, a))
            got.append((key, b))
        lines.append('gc() garbage(%d)' % (n + 50))
        for key, b in got:
            lines.append('emit(dict_get(d, %s))' % key)
            ev.append('emit 0 1 ' + b)
        # only the dictionary refers to the keys
        lines.append('e := dict() for i := 0; i < %d; i += 1 { dict_put(e, strcat("k", int_to_str(i)), cast(new K { i }, any)) }' % n)
        # only the array refers to them
        lines.append('e2 := dict() for i2 := 0; i2 < %d; i2 += 1 { dict_put(e2, strcat("k", int_to_str(i2)), cast(strcat("v", int_to_str(i2 * 3)), any)) } ks2 := dict_keys(e2) vs2 := dict_values(e2) %s gc() garbage(%d) gc() garbage(9) t2 := 0 for q2 := 0; q2 < %d; q2 += 1 { t2 += strlen(cast(ks2[q2], str)) + strlen(cast(vs2[q2], str)) } emit(t2)' % (
            n, r.choice(['dict_clear(e2)', 'e2 = dict()', 'for j2 := 0; j2 < %d; j2 += 1 { dict_remove(e2, cast(ks2[j2], str)) }' % n]), n * 2 + 9, n))
        ev2 = 'emit 0 1 i%d' % sum(len('k%d' % i) + len('v%d' % (i * 3)) for i in range(n))
        lines.append('gc() garbage(%d) ks := dict_keys(e) gc() garbage(%d) vs := dict_values(e) gc() garbage(9) t := 0 for q := 0; q < %d; q += 1 { t += strlen(cast(ks[q], str)) + cast(vs[q], K).v } emit(t)' % (n + 9, n + 9, n))
        ev.append(ev2)
        ev.append('emit 0 1 i%d' % sum(len('k%d' % i) + i for i in range(n)))
    else:
        head.append('use array("str") as as')
        lines.append('a := as()')
        for i in range(30):
            n = r.choice([0, 1, 7, 8, 15, 16, 31, 100, 127, 128, 255, 256, 1000, 4000])
            lines.append('as_push(a, mkstr(%d, %d, %d))' % (r.randrange(4), i, n))
            ev.append('emit 0 1 s"%s"' % lang._mkstr(None, [0, i, n]).decode())
        lines.append('gc() garbage(40)')
        for i in range(30):
            lines.append('emit(as_get(a, %d))' % i)
    src = '\n'.join(head + lines)
    ctx.count('large objects: ' + kind)
    yield progs.text_unit(src, ev, 'asan', gc=g, check='h', seed=ctx.i, extra=KEEP)


def families(tier):
    v = ('asan',)
    return [
        Fam('heap', p_heap, 360, 7000, v),
        Fam('struct', p_struct, 120, 3000, v),
        Fam('mixed', p_default, 200, 4000, v),
        Fam('calls', p_calls, 120, 3000, v),
        Fam('graphs', p_graph, 300, 6000, v),
        Fam('deep', p_deep, 60, 600, v, cpu=20),
        Fam('frames', p_frames, 50, 500, v, cpu=20),
        Fam('abyss', p_abyss, 10, 60, ('asan', 'fast'), cpu=20, shard=1),
        Fam('pending', p_pending, 200, 4000, v),
        Fam('call-then-use', p_keep, 120, 2500, v),
        Fam('sizes', p_sizes, 140, 2500, v, cpu=20),
        Fam('host-calls', p_hostcall, 200, 4000, v),
        Fam('library', p_lib, 120, 2000, v),
    ]
