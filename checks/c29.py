"""C29: memory-safe and deterministic execution."""
import importlib, itertools, re
from vlib import progs, gen, lang, fuzz
from vlib.core import Fam, Unit, diff, Ctx
from vlib.run import Case

RULE = ('Programs and sequences of host calls (generated programs of every preset, and the workloads of the checks of the other properties), each run under AddressSanitizer with UndefinedBehaviorSanitizer, under '
        'MemorySanitizer and in plain builds at two optimisation levels, with new memory filled with different bytes and blocks placed differently: no report may appear and all recorded effects must be the same. '
        'Randomly altered programs that the compiler still accepts, run for a bounded number of steps: only memory reports, crashes and differences between the runs count. Distinct by program.')
ASSUME = ['variables are set before they are read and functions end with a value: in altered programs, accesses through null are not counted', 'programs that end in a failed assertion, a division by zero or exit() are judged only for memory reports']

MEM = re.compile(r'AddressSanitizer|MemorySanitizer|runtime error')
# arithmetic outside of the range of the language's integers is not a memory matter
ARITH = re.compile(r'division by zero|cannot be represented|outside the range|shift exponent|left shift of|null pointer passed as argument')
ALLOC = re.compile(r'MONITOR (alloc: (\S+ of a pointer|\S+ through context|called without|context \d+ used after|absurd)|a finalized native|value with an impossible|finalize: )')


NULLP = re.compile(r'null pointer|SEGV on unknown address 0x00000000[0-9a-f]{4} |offset to null')


def memory(r):
    """Message when the run shows a memory error."""
    for l in r.stderr:
        if MEM.search(l) and not ARITH.search(l):
            return l.strip()[:300]
    for l in r.lines:
        if ALLOC.match(l):
            return l[:300]
    if r.end in ('sig 11', 'sig 7', 'sig 4'):
        return 'ended with %s' % r.end


# what depends on addresses, or on the build
DROP = re.compile(r'(hash|peak|limit|MONITOR|HARNESS-ERROR|TRACE-FULL)\b')


def trace(r):
    return [l for l in r.lines if not DROP.match(l)]


def unordered(r):
    """The order in which a dictionary lists keys that are objects is not specified."""
    return [' '.join(sorted(re.split(r'[][, {}]', re.sub(r'#\d+', '#', l)))) for l in trace(r)]


CONF = {'asan': ['opt fill CB', 'opt churn 0'], 'msan': [], 'fast': ['opt fill 0', 'opt churn 700'], 'o0': ['opt fill FF', 'opt churn 60'], 'fast2': ['opt fill 1', 'opt churn 1500']}


def spread(cases, confs):
    """Each case in each configuration; (variant, Case) with the number of the configuration."""
    out = []
    for cf in confs:
        for c in cases:
            out.append((cf.rstrip('2'), Case(CONF[cf] + c)))
    return out


def judge_same(confs, n, trace=trace):
    def judge(rs):
        base = rs[:n]
        for k, cf in enumerate(confs):
            for i in range(n):
                r = rs[k * n + i]
                m = memory(r)
                if m:
                    return '%s: %s' % (cf, m)
        for k, cf in enumerate(confs[1:], 1):
            for i in range(n):
                r, b = rs[k * n + i], base[i]
                if r.end in ('sig 24', 'sig 9', 'sig 14') or b.end in ('sig 24', 'sig 9', 'sig 14'):
                    continue
                if (r.end == 'exit 0') != (b.end == 'exit 0'):
                    if any(ARITH.search(l) for l in r.stderr + b.stderr):
                        continue
                    return 'ends differently in %s (%s) and %s (%s)' % (confs[0], b.end if b.clean else b.why(), cf, r.end if r.clean else r.why())
                if not b.clean:
                    continue
                d = diff(trace(b), trace(r))
                if d:
                    return 'with %s and %s: %s' % (confs[0], cf, d)
    return judge


ALL = ['asan', 'msan', 'fast', 'o0', 'fast2']


def p_progs(ctx):
    """Generated programs in all configurations; the effects must be the predicted ones."""
    r = ctx.rng
    m = progs.make(ctx, r.choice(sorted(progs.PRESETS)))
    src = progs.source(m, r)
    gc, check = r.choice([0, 0, 1, 2, 3]), r.choice(['', '', 'h'])
    c = progs.finish(progs.start(m, src, gc=gc, check=check, seed=r.randrange(99)).add('run', 0))
    exp = ['compile 0 ok'] + m.it.ev + ['done 0 sp=0 fc=0']
    confs = ['asan', 'msan', r.choice(['fast', 'o0', 'fast2'])]
    same = judge_same(confs, 1)

    def judge(rs):
        e = same(rs)
        if e:
            return e
        for r_ in rs:
            if not r_.clean:
                return r_.why()
        return diff(exp, rs[0].lines)
    yield Unit(spread([c.cmds], confs), judge, src, src.decode('latin-1'), unclean=True)


def p_again(ctx):
    """The same programs again and again in the memory that the earlier runs left behind."""
    r = ctx.rng
    k = r.choice([1, 2, 3])
    parts = []
    for _ in range(k):
        m = progs.make(ctx, r.choice(sorted(progs.PRESETS)), steps=4000)
        parts.append((m, progs.source(m, r)))
    c = Case()
    exp = []
    order = []
    for _ in range(r.choice([2, 3])):
        order += r.sample(range(k), k)
    for q in order:
        m, src = parts[q]
        c.cmds += gen.setup(0)
        c.add('compile', 0, 'm', src)
        progs.begin(c, gc=r.choice([0, 1, 2, 3]), seed=r.randrange(99))
        c.add('run', 0)
        progs.finish(c)
        exp += ['compile 0 ok'] + m.it.ev + ['done 0 sp=0 fc=0']
    confs = ['asan', 'msan', r.choice(['fast', 'o0', 'fast2'])]
    same = judge_same(confs, 1)

    def judge(rs):
        e = same(rs)
        if e:
            return e
        for r_ in rs:
            if not r_.clean:
                return r_.why()
        return diff(exp, rs[0].lines)
    yield Unit(spread([c.cmds], confs), judge, '\n'.join(c.cmds), None, unclean=True)


# ---------------------------------------------------------------- the workloads of the other checks

SKIP = {('C05', 'abyss'), ('C05', 'deep'), ('C06', 'bounded'), ('C07', 'default-allocator'), ('C15', 'repeat'), ('C17', 'large'), ('C18', 'large'), ('C25', 'many'), ('C23', 'short'), ('C22', 'lines')}
OK = {'asan', 'fast', 'o0', 'msan', 'cov'}


def reuse(pid):
    def fn(ctx):
        mod = importlib.import_module('checks.' + pid.lower())
        fams = [f for f in mod.families('quick') if (pid, f.name) not in SKIP and OK >= set(f.variants)]
        f = fams[ctx.i % len(fams)]
        n = f.thorough
        sub = Ctx('C29', pid + '/' + f.name, (ctx.i // len(fams) * 7 + ctx.rng.randrange(7)) % n, ctx.seed, 'quick')
        for u in itertools.islice(f.fn(sub), 3):
            cases = [c.cmds for v, c in u.cases][:3]
            if any(x.startswith(('savehash', 'par', 'defstate', 'opt limit')) for c in cases for x in c):
                continue
            confs = ['asan', 'msan', ctx.rng.choice(['fast', 'o0', 'fast2'])]
            ctx.count('cases of ' + pid, len(cases))
            yield Unit(spread(cases, confs), judge_same(confs, len(cases), unordered if pid == 'C18' else trace), '\n'.join(cases[0]) + str(u.key)[:40], None, unclean=True)
    return fn


# ---------------------------------------------------------------- altered programs

OPS = [[b'+', b'-', b'*', b'/'], [b'%', b'&', b'|', b'<<', b'>>', b'+', b'*'], [b'<', b'>', b'<=', b'>='], [b'==', b'!='], [b'&&', b'||'], [b'+=', b'-=', b'*='], [b'true', b'false'], [b'break', b'continue']]
IDENT = re.compile(rb'[A-Za-z_][A-Za-z0-9_]*$')
KEY = {b'if', b'else', b'while', b'for', b'func', b'struct', b'return', b'new', b'cast', b'null', b'use', b'as', b'true', b'false', b'break', b'continue', b'int', b'float', b'str', b'bool', b'any', b'void', b'array',
       b'dict', b'emit'}


def gentle(r, src):
    """Alterations of the kind that often still compile."""
    if r.random() < .45:
        L = src.split(b'\n')
        for _ in range(r.choice([1, 1, 2, 4])):
            i, j = r.randrange(len(L)), r.randrange(len(L))
            k = r.randrange(5)
            bal = all(L[i].count(x) == L[i].count(y) for x, y in ((b'{', b'}'), (b'(', b')')))
            if not bal:
                continue
            if k == 0 and len(L) > 1:
                del L[i]
            elif k == 1:
                L.insert(j, L[i])
            elif k == 2:
                L.insert(j, L.pop(i))
            elif k == 3:
                L[i] = b'if ' + r.choice([b'false', b'true', b'1 < 2']) + b' { ' + L[i] + b' }'
            else:
                L[i] = b'{ ' + L[i] + b' }'
        return b'\n'.join(L)
    t = fuzz.tokens(src)
    ids = [x for x in t if IDENT.match(x.strip()) and x.strip() not in KEY]
    for _ in range(r.choice([1, 1, 2, 3])):
        for _ in range(50):
            i = r.randrange(len(t))
            x = t[i].strip()
            g = [o for o in OPS if x in o]
            if g:
                t[i] = b' ' + r.choice(r.choice(g)) + b' '
            elif x.isdigit():
                t[i] = b' ' + r.choice([b'0', b'1', b'2', b'-1', b'7', b'100', b'256', b'65536', b'4294967296', b'9223372036854775807', x + b'0']) + b' '
            elif x[:1] == b'"':
                t[i] = r.choice([b'""', b'"a"', b'"' + b'x' * 300 + b'"', b'"\\n"'])
            elif x in ids:
                t[i] = b' ' + r.choice(ids).strip() + b' '
            else:
                continue
            break
    return b''.join(t)


# a cast to a type which the value does not have is the program's mistake
CAST = re.compile(rb'cast\s*\((?!\s*null)')


def p_altered(ctx):
    """Altered programs that still compile."""
    r = ctx.rng
    m = progs.make(ctx, r.choice(sorted(progs.PRESETS)), steps=3000, any=False, opt=False)
    base = progs.source(m, r, style='normal')
    for _ in range(12):
        src = fuzz.mutate(r, base, r.choice([1, 1, 2, 3])) if r.random() < .2 else gentle(r, base)
        if b'exit' in src or b'\0' in src or CAST.search(src):
            continue
        c = Case(gen.setup())
        c.add('compile', 0, 'm', src)
        progs.begin(c, gc=r.choice([0, 1, 2]), seed=r.randrange(99))
        c.add('run', 0, 20000)
        c.add('destroy', 0)
        c.add('delstate', 0)
        confs = ['asan', 'msan', r.choice(['fast', 'o0'])]
        same = judge_same(confs, 1)

        def judge(rs, same=same):
            if any(x.startswith('compile 0 err') for x in rs[0].lines[:1]):
                return None
            # a variable that was never set (or a function that ended without a value) holds null: not claimed
            if any(NULLP.search(l) or ARITH.search(l) for l in rs[0].stderr):
                return None
            return same(rs)
        yield Unit(spread([c.cmds], confs), judge, src, src.decode('latin-1'), unclean=True)


MODS = ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C15', 'C16', 'C17', 'C18', 'C19', 'C20', 'C21', 'C22', 'C23', 'C24', 'C25', 'C27', 'C28']


def families(tier):
    v = ('asan', 'msan', 'fast', 'o0')
    return [
        Fam('programs', p_progs, 400, 8000, v),
        Fam('again', p_again, 120, 2500, v),
        Fam('altered', p_altered, 60, 2500, v, shard=3),
    ] + [Fam('as ' + p, reuse(p), 40, 900, v, shard=5) for p in MODS]
