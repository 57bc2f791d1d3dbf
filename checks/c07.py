"""C07: memory comes from and returns to the supplied allocators."""
from vlib import lang, progs, gen, fuzz
from vlib.core import Fam, Unit, expect, diff
from vlib.run import Case

SCALE = 2
RULE = ('Every library allocation goes through a monitoring allocator with per-owner block headers, canaries and poisoned fresh '
        'memory: blocks released or resized through another owner, twice, overrun, or left over when their owner is destroyed, and any '
        'direct use of the C heap are violations. Workloads: valid programs, compiles that fail at every prefix and at random points, several '
        'states and threads with allocators of their own, destruction in any state of execution. Distinct by case text.')


def p_progs(ctx):
    r = ctx.rng
    m = progs.make(ctx, r.choice(['default', 'heap', 'struct', 'calls', 'host', 'types']), steps=6000)
    src = progs.source(m, r)
    opts = ['opt churn 1'] if r.random() < .5 else []
    if r.random() < .5:
        opts.append('opt fill %02x' % r.choice([0, 0xff, 0xcd, 1]))
    if r.random() < .3:
        opts.append('opt pack 1')
    c = progs.start(m, src, gc=r.choice([0, 1, 2]), opts=opts)
    exp = ['compile 0 ok'] + m.it.ev + ['done 0 sp=0 fc=0']
    if r.random() < .6:
        c.add('run', 0)
        again = r.random() < .3
        c.add('allocs')
        progs.finish(c)

        def judge(rs):
            l = [x for x in rs[0].lines if not x.startswith('allocs')]
            return diff(exp, l)
    else:
        c.add('steps', 0, r.randrange(1, 3000))
        c.add('allocs')
        progs.finish(c)

        def judge(rs):
            l = [x for x in rs[0].lines if not x.startswith(('allocs', 'limit', 'done'))]
            if l != exp[:len(l)]:
                return diff(exp, l)
    yield Unit([('asan', c)], judge, '\n'.join(c.cmds), src.decode('latin-1'))


MODS = b'''struct J { a: int b: str c: bool d: float e: K }
struct K { z: int }
use json("K")
use json("J")
use array("int") as array_int
use array("J") as array_J
func df(a: int, b: str): str { return b }
func dv() { }
use delegate("df") as mkdf
use delegate("dv") as mkdv
use log("x", "y") as lg
use comp("cc := 5", "func ccf(a: int): int { return a + cc }")
use refl("J", "df", "emit")
CI :: 5
CS :: "const"
dd := mkdf()
emit(delegate_int_str_str_call(dd, 1, "s"), J_to_json(new J { 1, "s", true, 2.5, new K { 3 } }), ccf(4), CI, CS)
xs := dict("a", 1, "b", array_int(1, 2, 3))
printf("hello %i\\n", 5)
'''

# definitions of a type which the host already referred to in the signatures of foreign functions
REFD = ['struct @ { a: int b: str c: @? }', 'struct @ { a: int }\nr@ := new @ { 5 }\nemit(same@(r@).a)', 'use comp("struct @ { q: str }")', 'use mtype() as @', 'use mtype() as @\nr@ := same@(mk@(5))',
        'func uses@(p: @): @ { return same@(p) }', 'struct @ { a: array_int? n: @? }\nuse array("int") as array_int\nuse array("@") as arr@',
        'use comp("struct @ { q: nosuch }")', 'struct @ { a: int a: int }', 'struct @ { a: int', 'struct @ { @: @ same@: int }']


def macros(c, s=0):
    for n, k in (('log', 'log'), ('fail', 'fail'), ('comp', 'comp'), ('try', 'try'), ('refl', 'refl'), ('bind', 'bind'), ('mtype', 'type')):
        c.add('macro', s, n, k)


def p_prefix(ctx):
    """Every prefix of a program (token by token), each in a state of its own or one after the other in the same."""
    r = ctx.rng
    if ctx.i % 4 == 0:
        src = MODS
    else:
        m = progs.make(ctx, r.choice(['default', 'struct', 'types', 'scope', 'calls']), main=5, globals=2, body=3, steps=4000)
        src = progs.source(m, r)
    toks = fuzz.tokens(src)
    cuts = []
    p = 0
    for t in toks:
        p += len(t)
        cuts.append(p)
    if len(cuts) > 260:
        k = r.randrange(len(cuts) - 250)
        cuts = cuts[k:k + 250] if r.random() < .5 else sorted(r.sample(cuts, 250))
    ctx.count('prefixes', len(cuts))
    same = r.random() < .5
    for lo in range(0, len(cuts), 25):
        part = cuts[lo:lo + 25]
        c = Case()
        if same:
            c.cmds += gen.setup(std='lad6i')
            macros(c)
        for p in part:
            if not same:
                c.cmds += gen.setup(std='lad6i')
                macros(c)
            # cut inside the last token too
            cut = src[:p - (1 if r.random() < .2 and p else 0)]
            c.add('compile', 0, 'prefix', cut)
            if not same:
                c.add('delstate', 0)
        if same:
            c.add('delstate', 0)
        n = len(part)

        def judge(rs, n=n):
            got = [x for x in rs[0].lines if x.startswith('compile 0')]
            if len(got) != n:
                return '%d compile results for %d compiles' % (len(got), n)
        yield Unit([('asan', c)], judge, '\n'.join(c.cmds), src[:part[-1]].decode('latin-1'))


def p_fail(ctx):
    r = ctx.rng
    m = progs.make(ctx, r.choice(['default', 'struct', 'types']), main=5, steps=4000)
    valid = progs.source(m, r)
    if r.random() < .3:
        valid = MODS
    c = Case(gen.setup(std='lad6i'))
    macros(c)
    n = r.randrange(3, 12)
    und = r.random() < .3
    if und:
        c.add('bind', 0, 'sameUnd(Und): Und', 'idf')
        c.add('bind', 0, 'mkUnd(int): Und', 'mknat')
    c.add('tmpdir')
    for k in range(n):
        t = fuzz.any_text(r, valid)
        if und and r.random() < .6:
            t = r.choice(REFD).replace('@', 'Und').encode() + r.choice([b'\n', b'\nzz := (', b'\nzz := nosuch', b'\nbreak', t])
        elif r.random() < .1:
            # tokens larger than the pages of the parser
            q = r.choice([4000, 4095, 4096, 4097, 5000, 8192, 20000])
            t = b''.join(r.choice([b'big%d := "%%s"\n' % j, b"big%d := '%%s'\n" % j, b'v%d%%s := 1\n' % j, b'func f%d%%s() { }\n' % j, b'struct S%d { m%%s: int }\n' % j, b'use log("%s")\n', b'// %s\n', b'big%d := "%%s"\n' % j]) % (b'x' * q) + r.choice([b'', b'', b'emit(1)\n' * 40])
                         for j in range(r.choice([1, 2, 5]))) + r.choice([b'', t])
        t = t.replace(b'\0', b'?')
        if r.random() < .3:
            c.add('mkfile', 'file%d.tiny' % (k % 3), t)
            c.add('compilefile', 0, 'file%d.tiny' % (k % 3))
        else:
            c.add('compile', 0, r.choice(['f', 'file.tiny', 'n' * 500]), t)
    c.add('delstate', 0)
    ctx.count('fuzzed compiles', n)

    def judge(rs):
        got = [x for x in rs[0].lines if x.startswith('compile 0')]
        if len(got) != n:
            return '%d compile results for %d compiles' % (len(got), n)
    yield Unit([('asan', c)], judge, '\n'.join(c.cmds), None)


def p_worlds(ctx):
    """Several states and threads created, used and destroyed in any legal order."""
    r = ctx.rng
    src = MODS.replace(b'printf("hello %i\\n", 5)', b'') + b'''
g := strcat("glo", "bal")
func ccfresh(n: int): any { a := array_int(1, 2) t := mknat(n) return cast(a, any) }
func work(n: int): any { a := array_int() for i := 0; i < n; i += 1 { a -> array_int_push(i) } g = strcat(g, "x") b := box(a) t := mknat(n) return cast(b, any) }
for q := 0; q < 30; q += 1 { z := work(q) }
'''
    c = Case(['opt pack 1'] if r.random() < .3 else [])
    states = {}
    threads = {}
    ns = nt = 0
    exp_ok = 0
    started = set()
    for _ in range(r.randrange(8, 40)):
        k = r.random()
        if k < .2 and ns < 10:
            c.cmds += gen.setup(ns, std='lad6i')
            macros(c, ns)
            c.add('compile', ns, 'w', src)
            exp_ok += 1
            states[ns] = set()
            ns += 1
        elif k < .4 and states and nt < 30:
            s = r.choice(sorted(states))
            c.add('thread', nt, s)
            c.add('gcmode', nt, r.choice([0, 1, 2]), r.randrange(1000))
            threads[nt] = s
            states[s].add(nt)
            if r.random() < .9:
                c.add('start', nt)
                c.add('setg', nt, 'g', b's:first')
                started.add(nt)
                c.add('steps', nt, r.choice([0, 1, 10, 100, 600, 4000]))
            nt += 1
        elif k < .6 and threads:
            t = r.choice(sorted(threads))
            if t not in started:
                c.add('call', t, 'ccfresh', 'i%d' % r.randrange(9))
            elif r.random() < .8:
                c.add('call', t, 'work', 'i%d' % r.randrange(9))
            else:
                c.add('setg', t, 'g', b's:new')
        elif k < .7 and threads:
            t = r.choice(sorted(threads))
            c.add('destroy', t)
            states[threads.pop(t)].discard(t)
        elif k < .8 and states:
            # a later compile, good or bad, changes nothing for allocation accounting; only without threads
            s = r.choice(sorted(states))
            if not states[s]:
                c.add('compile', s, 'later', r.choice([b'ok%d := "later"' % r.randrange(10 ** 9), b'x := (', b'func q%d() { }' % r.randrange(10 ** 9), b'use array("int") as aq']))
        elif states:
            s = r.choice(sorted(states))
            if not states[s]:
                c.add('delstate', s)
                del states[s]
    for t in sorted(threads):
        c.add('destroy', t)
    for s in sorted(states):
        c.add('delstate', s)
    c.add('fins')
    ctx.count('states', ns)
    ctx.count('threads', nt)

    def judge(rs):
        ok = sum(1 for x in rs[0].lines if x.startswith('compile') and x.endswith(' ok'))
        if ok < exp_ok:
            return 'a correct program was not accepted: %s' % [x for x in rs[0].lines if ' err ' in x][:3]
        fi = [x for x in rs[0].lines if x.startswith('fins ')][0]
        f = dict(p.split('=') for p in fi.split()[1:])
        if f['made'] != f['finalized'] or f['pending'] != '0':
            return fi
    yield Unit([('asan', c)], judge, '\n'.join(c.cmds), None, trivial=ns == 0)


STRUCTS = {
    'dict': 'd@ := dict() for i@ := 0; i@ < #; i@ += 1 { dict_put(d@, i@ * 7, strcat("k", int_to_str(i@))) } emit(dict_get(d@, (# - 1) * 7))',
    'dictstr': 'd@ := dict_str_int() for i@ := 0; i@ < #; i@ += 1 { dict_str_int_put(d@, strcat("key", int_to_str(i@)), i@) } emit(dict_str_int_get(d@, strcat("key", int_to_str(# - 1))))',
    'dictops': 'd@ := dict("a", 1) for i@ := 0; i@ < #; i@ += 1 { dict_put(d@, int_to_str(i@ % 90), i@) if i@ % 3 == 0 { dict_remove(d@, int_to_str((i@ * 5) % 90)) } } k@ := dict_keys(d@) v@ := dict_values(d@) dict_clear(d@) emit(array_any_len(k@) == array_any_len(v@))',
    'push': 'a@ := array_int() for i@ := 0; i@ < #; i@ += 1 { a@ -> array_int_push(i@) } emit(a@[# - 1])',
    'insert': 'a@ := array_any(0) for i@ := 0; i@ < #; i@ += 1 { array_any_insert(a@, i@ / 2, int_to_str(i@)) } for m@ := 0; m@ < # - 1; m@ += 1 { if m@ % 2 == 0 { array_any_remove(a@, 0) } else { array_any_shift(a@) } } emit(array_any_len(a@))',
    'resize': 'a@ := array_J() array_J_resize_fill(a@, #, null0) array_J_clear(a@) array_J_resize_fill(a@, # * 3, null0) emit(array_J_len(a@))',
    'many': 'a@ := array_int(1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33) emit(array_int_len(a@), #)',
    'cat': 's@ := "x" for i@ := 0; i@ < #; i@ += 1 { s@ = strcat(s@, "abc", int_to_str(i@), ntos(i@), substr(s@, 0, 1)) } emit(strlen(s@) > 4)',
    'json': 'j@ := "" for i@ := 0; i@ < # && i@ < 60; i@ += 1 { j@ = J_to_json(new J { i@, j@, true, 0.5 }) if strlen(j@) > 3000 { j@ = "" } } emit(strlen(j@) > 1)',
    'jsona': 'q@ := "" for i@ := 0; i@ < #; i@ += 1 { q@ = A_to_json(new A { new J { i@, "s", false, 1.5 } }) } emit(strlen(q@) > 5)',
    'file': 'w@ := "" for i@ := 0; i@ < #; i@ += 1 { w@ = strcat(w@, "line\\n") } emit(write_file("f@", w@), read_file("f@") == w@) h@ := fopen("f@", "r") emit(strlen(fread(h@, # * 5))) fclose(h@)',
    'edges': 'write_file("e@", "") emit(strlen(read_file("e@"))) if cast(read_file("nosuch@"), any) == null { emit(0) } h@ := fopen("e@", "r") emit(strlen(fread(h@, #)), strlen(fread(h@, 0)), fsize(h@)) fclose(h@) if cast(fopen("nosuch@", "r"), any) == null { emit(1) } h@ = fopen("e@", "w") fwrite(h@, "") fwrite(h@, "abc", 0) fseek(h@, 0) fclose(h@) write_file("no/such/@", "x") h@ = fopen("e@", "r") for i@ := 0; i@ < #; i@ += 1 { fread(h@, i@) } fclose(h@)',
    'empties': 'a@ := array_int() array_int_clear(a@) array_int_resize_fill(a@, 0, 1) b@ := array_any() array_any_clear(b@) d@ := dict() dict_clear(d@) dict_remove(d@, "x") k@ := dict_keys(d@) v@ := dict_values(d@) e@ := dict_str_int() dict_str_int_clear(e@) w@ := dict_str_int_keys(e@) emit(array_any_len(k@) + array_any_len(v@), dict_exists(d@, "q")) s@ := strcat("", "") t@ := substr(s@, 0, 0) u@ := substr("abc", # % 3, # % 3) emit(strlen(s@), strlen(t@), strlen(u@), s@ == t@) emit(str_to_int(""), str_to_int("x"), ston(""), stoi("zz", 36)) emit(call_function(get_function_index("nothing")) == null)',
    'input': 'for i@ := 0; i@ < 12; i@ += 1 { emit(strlen(input()) >= 0) }',
    'leftopen': 'h@ := fopen("g@", "w") fwrite(h@, "x") emit(#)',
    'i64': 'n@ := int_to_i64(3) for i@ := 0; i@ < #; i@ += 1 { n@ = i64_add_many(n@, int_to_i64(i@), n@) } emit(strlen(i64_to_string(n@)) > 0)',
    'call': 'emit(call_function(get_function_index("sum"), # % 100))',
    'nat': 'for i@ := 0; i@ < #; i@ += 1 { t@ := box(mknat(i@)) } emit(#)',
    'owned': 'o@ := array_any(null, null, null, null, null, null, null) for i@ := 0; i@ < #; i@ += 1 { n@ := mknat(i@) o@[i@ % 7] = cast(mkstr(2 + i@ % 2, i@, 32 + i@ % 8), any) o@[i@ * 3 % 7] = cast(strcat("abcdefghijklmnopqrstuvwxyzabcdefgh", int_to_str(i@)), any) o@[i@ * 5 % 7] = cast(n@, any) } emit(#)',
    'print': 'printf("%i %s %q\\n", #, "text", "quoted") emit(#)',
}
STRUCTPRE = """struct J { a: int b: str c: bool d: float }
struct A { xs: J }
use array("int") as array_int
use array("any") as array_any
use array("J") as array_J
use json("J")
use json("A")
null0 := new J { 1, "x", true, 1.0 }
func nothing() { }
func sum(n: int): int { if n == 0 { return 0 } return n + sum(n - 1) }
"""


def p_structs(ctx):
    """Everything the library builds at run time, grown through several sizes: from the thread's allocator only."""
    r = ctx.rng
    names = r.sample(sorted(STRUCTS), r.randrange(2, 6))
    names.append(sorted(STRUCTS)[ctx.i % len(STRUCTS)])
    body = []
    for k, nm in enumerate(names):
        body.append(STRUCTS[nm].replace('@', '%d' % k).replace('#', '%d' % r.choice([1, 9, 17, 33, 70, 150, 300])))
    infunc = r.random() < .5
    src = STRUCTPRE + ('\n'.join('func f%d() { %s }' % (k, b) for k, b in enumerate(body)) + '\n' + '\n'.join('f%d()' % k for k in range(len(body))) if infunc else '\n'.join(body)) + '\n'
    c = Case((['opt pack 1'] if r.random() < .4 else []) + gen.setup(std='lad6i'))
    if 'input' in names:
        c.add('tmpdir')
        c.add('stdin', b'\n'.join(b'y' * r.choice([0, 1, 6, 7, 8, 9, 14, 15, 16, 31, 32, 33, 63, 64, 127, 500]) for _ in range(r.choice([0, 5, 30]))))
    c.add('compile', 0, 'structs', src)
    progs.begin(c, gc=r.choice([0, 1, 2]), seed=r.randrange(1000))
    if r.random() < .5:
        c.add('run', 0)
    else:
        c.add('steps', 0, r.choice([300, 2000, 9000]))
    c.add('allocs')
    progs.finish(c)
    done = any(x.startswith('run ') for x in c.cmds)

    def judge(rs):
        l = rs[0].lines
        if l[0] != 'compile 0 ok':
            return 'refused: ' + l[0][-300:]
        if done and not any(x.startswith('done 0') for x in l):
            return 'did not finish'
    for nm in names:
        ctx.count(nm)
    yield Unit([('asan', c)], judge, '\n'.join(c.cmds), src)


def p_default(ctx):
    """The interface that uses the default allocator: what it takes from the C heap it gives back."""
    r = ctx.rng
    vals = [r.randrange(1000) for _ in range(3)]
    body = b'a := %d\nb := "s%d"\nc := a + %d\nfunc f(n: int): int { if n == 0 { return 0 } return n + f(n - 1) }\nd := f(10)\nemit(a)\nstruct P { x: int }\np := new P { 5 }\ne := p.x\n' % tuple(vals)
    exp = ['compile -1 ok', 'glob - a i%d' % vals[0], 'glob - b s"s%d"' % vals[1], 'glob - c i%d' % (vals[0] + vals[2]), 'glob - d i55', 'glob - e i5', 'glob - zz missing']
    c = Case()
    k = r.randrange(1, 4)
    ex = []
    for _ in range(k):
        if r.random() < .4:
            bad = fuzz.mutate(r, body)
            c.add('defstate', 'def', bad)
            ex.append(None)
        else:
            c.add('defstate', 'def', body, 'a', 'b', 'c', 'd', 'e', 'zz')
            ex.append(exp)

    def judge(rs):
        l = list(rs[0].lines)
        for e in ex:
            if e is None:
                if not l or not l[0].startswith('compile -1'):
                    return 'no compile result'
                l = l[1:]
            else:
                d = diff(e, l[:len(e)])
                if d:
                    return d
                l = l[len(e):]
    yield Unit([('asan', c)], judge, '\n'.join(c.cmds), body.decode())


def families(tier):
    v = ('asan',)
    return [
        Fam('programs', p_progs, 500, 9000, v),
        Fam('prefixes', p_prefix, 48, 800, v, shard=2),
        Fam('failing', p_fail, 700, 15000, v),
        Fam('structures', p_structs, 400, 6000, v),
        Fam('worlds', p_worlds, 300, 6000, v),
        Fam('default-allocator', p_default, 100, 1500, v),
    ]
