"""C31: states share nothing."""
import importlib, itertools, re
from vlib import gen
from vlib.core import Fam, Unit, diff, Ctx
from vlib.run import Case

RULE = ('A life is the list of everything a host does with its states: binding, compiling (also texts that are refused, in pieces, with nested compiles), starting, stepping, running, collecting, calling, querying, destroying; '
        'lives are taken from the workloads of the checks of the other properties. Two to four lives are executed in one process, their commands shuffled together in every order that keeps each life\'s own, runs cut '
        'in pieces, or with the commands of some executed inside the foreign functions and modules called by another. Each life must record exactly what it records when it is alone in a process. Cases are distinct by the '
        'commands of all lives and their order.')
ASSUME = ['lives which use the random numbers of the process, print to the standard output or work with files are left out (these belong to the process)']

ST1 = {'state', 'std', 'bind', 'type', 'macro', 'constb', 'consti', 'constf', 'consts', 'compile', 'delstate', 'forbid', 'disasm', 'disat', 'disq', 'fidx', 'gidx', 'refl'}
TH1 = {'start', 'gcmode', 'check', 'run', 'runraw', 'steps', 'step', 'isdone', 'call', 'calls', 'setg', 'getg', 'forcegc', 'objs', 'stats', 'where', 'trackwhere', 'destroy', 'exectrace', 'pc'}
OK = {'asan', 'fast', 'o0', 'msan', 'cov'}
SKIP = {('C05', 'abyss'), ('C05', 'deep'), ('C06', 'bounded'), ('C15', 'repeat'), ('C17', 'large'), ('C23', 'short'), ('C22', 'lines'), ('C26', 'wide'), ('C02', 'bulk'), ('C19', 'misc'), ('C01', 'programs-bulk')}
FROM = ['C01', 'C02', 'C03', 'C04', 'C05', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C15', 'C16', 'C17', 'C19', 'C20', 'C21', 'C22', 'C27', 'C28', 'C30']
HOSTED = ['C03', 'C15', 'C15', 'C16', 'C20', 'C22', 'C28']
RESULT = re.compile(r'R\d+$')
STANDARD = {'spy %d %s' % (k, m) for k, m in gen.SPYMODES.items()}
_fams = {}


def families_of(pid):
    if pid not in _fams:
        mod = importlib.import_module('checks.' + pid.lower())
        _fams[pid] = [f for f in mod.families('quick') if (pid, f.name) not in SKIP and OK >= set(f.variants)]
    return _fams[pid]


def usable(cmds):
    ns = nt = 0
    for x in cmds:
        t = x.split()
        if t[0] == 'spy':
            if x not in STANDARD:
                return False
        elif t[0] == 'thread':
            nt = max(nt, int(t[1]))
            ns = max(ns, int(t[2]))
        elif t[0] in ST1:
            ns = max(ns, int(t[1]))
            if t[0] in ('disasm',) and len(cmds) > 60:
                return False
        elif t[0] in TH1:
            nt = max(nt, int(t[1]))
        elif t[0] == 'interleave':
            nt = max([nt] + [int(z) for z in t[3:]])
        elif t[0] != 'note':
            return False
    return ns < 4 and nt < 16 and len(cmds) <= 400 and sum(map(len, cmds)) < 60000


def shift(cmds, k):
    """The same life with other numbers."""
    out = []
    for x in cmds:
        t = x.split(' ')
        if t[0] == 'thread':
            t[1], t[2] = str(int(t[1]) + 16 * k), str(int(t[2]) + 4 * k)
        elif t[0] in ST1:
            t[1] = str(int(t[1]) + 4 * k)
        elif t[0] in TH1:
            t[1] = str(int(t[1]) + 16 * k)
            if t[0] in ('call', 'calls', 'setg'):      # results of earlier calls as arguments
                t[3:] = ['R%d' % (int(z[1:]) + 16 * k) if RESULT.match(z) else z for z in t[3:]]
        elif t[0] == 'interleave':
            t[3:] = [str(int(z) + 16 * k) for z in t[3:]]
        out.append(' '.join(t))
    return out


PREFIX = ['', '', '%0A', '%0A%0A%0A', 'zz0:=7%0A', 'func%20zz0():int%20{%20return%201%20}%0A', 'zz0::"zz"%0A', 'struct%20Zz0{x:int?}%0A']
NAMED = re.compile(r'func%20([a-z]\w*)')


def dress(r, cmds):
    """Gives a life its own file names, lines and numbers, and lets its host ask more questions."""
    mark = 'xyzuvw'[r.randrange(6)]
    pre = r.choice(PREFIX)
    seen = set()
    out = []
    for x in cmds:
        t = x.split(' ')
        if t[0] == 'compile' and len(t) == 4 and t[3] != '~':
            if t[2] != '~':
                t[2] += mark
            if t[1] not in seen:
                t[3] = pre + t[3]
                seen.add(t[1])
            x = ' '.join(t)
        if t[0] in ('run', 'runraw') and r.random() < .8:
            for _ in range(r.randrange(1, 7)):
                out.append('steps %s %d' % (t[1], r.choice([1, 3, 10, 40, 150])))
                if r.random() < .4:
                    out.append('where ' + t[1])
        out.append(x)
        if t[0] == 'compile' and r.random() < .3:
            out += ['fidx %s %s' % (t[1], n) for n in NAMED.findall(x)[:3]]
    return out


def life(ctx, pid=None):
    """The commands of one case of another check."""
    r = ctx.rng
    for _ in range(20):
        p = pid or r.choice(FROM)
        fs = families_of(p)
        f = r.choice(fs)
        sub = Ctx(p, f.name, r.randrange(f.thorough), ctx.seed * 1000 + r.randrange(1000), 'quick')
        cs = [c.cmds for u in itertools.islice(f.fn(sub), 2) for v, c in u.cases]
        cs = [c for c in cs if usable(c)]
        if not cs:
            continue
        ctx.count('lives of ' + p)
        return r.choice(cs)
    return None


def shuffle(r, lives):
    """Merges the lives; (life, command) in order."""
    left = [(k, list(l)) for k, l in enumerate(lives)]
    out = []
    how = r.choice(['fine', 'fine', 'coarse', 'one after another', 'nested'])
    if how == 'one after another':
        return [(k, x) for k, l in left for x in l], how
    if how == 'nested':      # each begins and ends within the one before
        cutat = [r.randrange(len(l) + 1) for k, l in left]
        return [(k, x) for k, l in left for x in l[:cutat[k]]] + [(k, x) for k, l in reversed(left) for x in l[cutat[k]:]], how
    while left:
        i = r.randrange(len(left))
        k, l = left[i]
        n = 1 if how == 'fine' else r.randrange(1, 12)
        out += [(k, x) for x in l[:n]]
        del l[:n]
        if not l:
            del left[i]
    return out, how


def demux(lines, n):
    """The lines recorded for each life: after `note @k`, except what stands between << k and >>."""
    out = [[] for _ in range(n)]
    cur, stack = 0, []
    for l in lines:
        if l.startswith('note @'):
            cur = int(l[6:])
        elif l.startswith('<< '):
            stack.append(cur)
            cur = int(l[3:])
        elif l == '>>':
            cur = stack.pop()
        else:
            out[cur].append(l)
    return out


def unit(ctx, lives, mixed, how):
    var = ctx.rng.choice(['asan', 'asan', 'fast', 'o0', 'msan'])
    cases = [Case(l) for l in lives] + [Case(mixed)]
    ctx.count('mixed: ' + how)

    def judge(rs):
        solo, mix = rs[:-1], rs[-1]
        if not all(r.clean for r in solo):
            return None
        if not mix.clean:
            return 'together: ' + mix.why()
        for k, (s, got) in enumerate(zip(solo, demux(mix.lines, len(solo)))):
            d = diff(s.lines, got)
            if d:
                return 'life %d of %d (%s): alone against together: %s' % (k, len(solo), how, d)
    yield Unit([(var, c) for c in cases], judge, '\n'.join(mixed), how + ', ' + ' and '.join('%d commands' % len(l) for l in lives), unclean=True)


def gather(ctx, n, twins):
    r = ctx.rng
    if twins:
        pid = r.choice(FROM + HOSTED * 3)
        one = life(ctx, pid)
        ls = [one] + [one if r.random() < .4 else life(ctx, pid) for _ in range(n - 1)]
    else:
        ls = [life(ctx) for _ in range(n)]
    ls = [l for l in ls if l]
    return [shift(dress(r, l), k) for k, l in enumerate(ls)]


def p_shuffled(ctx):
    """Two to four lives in one process, their commands shuffled."""
    r = ctx.rng
    ls = gather(ctx, r.choice([2, 2, 3, 4]), r.random() < .4)
    if len(ls) < 2:
        return
    order, how = shuffle(r, ls)
    mixed = []
    cur = None
    for k, x in order:
        if k != cur:
            mixed.append('note @%d' % k)
            cur = k
        mixed.append(x)
    yield from unit(ctx, ls, mixed, how)


def p_inside(ctx):
    """Lives which go on inside the foreign functions and modules that another one calls."""
    r = ctx.rng
    ls = gather(ctx, r.choice([2, 2, 3]), r.random() < .4)
    if len(ls) < 2:
        return
    order, how = shuffle(r, ls[1:])
    mixed = ['side %d %s' % (k + 1, x) for k, x in order]
    mixed.append('pokes %d %d %d' % (r.choice([1, 1, 2, 5]), r.choice([1, 3, 20, 200]), r.randrange(10 ** 6)))
    mixed += ['note @0'] + ls[0] + ['drain']
    yield from unit(ctx, ls, mixed, 'inside, ' + how)


def p_calls(ctx):
    """Host calls in the middle of host calls into other states."""
    r = ctx.rng
    ls = [shift(dress(r, l), k) for k, l in enumerate([life(ctx, r.choice(['C15', 'C15', 'C03', 'C16'])) for _ in range(2)]) if l]
    if len(ls) < 2:
        return
    # everything up to the first call of the second life beforehand, the rest inside
    n = next((i for i, x in enumerate(ls[1]) if x.startswith('call')), 0)
    mixed = ['note @1'] + ls[1][:n] + ['side 1 ' + x for x in ls[1][n:]]
    mixed += ['note @0']
    m = next((i for i, x in enumerate(ls[0]) if x.startswith('call')), 0)
    mixed += ls[0][:m] + ['pokes %d %d %d' % (r.choice([1, 1, 2, 4]), r.choice([1, 1, 4]), r.randrange(10 ** 6))] + ls[0][m:] + ['drain']
    yield from unit(ctx, ls, mixed, 'calls')


def families(tier):
    v = ('asan', 'fast', 'o0', 'msan')
    return [Fam('shuffled', p_shuffled, 400, 12000, v), Fam('inside', p_inside, 400, 12000, v), Fam('calls', p_calls, 300, 6000, v)]
