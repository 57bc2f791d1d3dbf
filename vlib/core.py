"""The frame of the checks: families of generated cases, run in parallel shards, judged by oracles."""
import hashlib, importlib, json, os, random, sys, time, traceback
from . import build as B, run as R
from .pool import Pool
from .run import Case

VERIF = B.VERIF
KNOWN = os.path.join(VERIF, 'known-findings.txt')


class Unit:
    """One evaluation: runs cases and judges the results.

    judge(results) -> None, or a message, or a list of messages / (key, message). Results that did not
    end cleanly are violations by themselves unless `unclean` is set (then the judge decides)."""
    __slots__ = ('cases', 'judge', 'key', 'sample', 'unclean', 'trivial')

    def __init__(self, cases, judge, key, sample=None, unclean=False, trivial=False):
        self.cases = cases          # [(variant, Case)]
        self.judge = judge
        self.key = key
        self.sample = sample
        self.unclean = unclean
        self.trivial = trivial


class Ctx:
    def __init__(self, pid, fam, i, seed, tier):
        self.pid, self.fam, self.i, self.seed, self.tier = pid, fam, i, seed, tier
        self.rng = random.Random('%s/%s/%s/%s' % (seed, pid, fam, i))
        self.stats = {}

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def count(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n

    def sub(self):
        return '%s/%s/%s/%s/%d' % (self.seed, self.pid, self.fam, self.i, self.rng.getrandbits(40))


class Fam:
    """fn(ctx) yields Units; called for ctx.i in range(quick or thorough)."""

    def __init__(self, name, fn, quick, thorough, variants=('asan',), shard=None, cpu=8):
        self.name, self.fn, self.quick, self.thorough = name, fn, quick, thorough
        self.variants = variants
        self.shard = shard
        self.cpu = cpu


def families(mod, tier):
    """The families of a check; cheap checks do SCALE times as much in the quick tier."""
    fams = mod.families(tier)
    for f in fams:
        f.quick = min(max(f.thorough, f.quick), f.quick * getattr(mod, 'SCALE', 1))
    return fams


def diff(exp, got):
    """Message about the first difference between two lists of lines, or None."""
    if exp == got:
        return None
    for i, (a, b) in enumerate(zip(exp, got)):
        if a != b:
            return 'line %d: expected %s, observed %s' % (i, a[:600], b[:600])
    if len(exp) > len(got):
        return 'line %d: expected %s, observed nothing more' % (len(got), exp[len(got)][:600])
    return 'line %d: expected nothing more, observed %s' % (len(exp), got[len(exp)][:600])


def expect(*lines_per_case):
    """Judge: the results have exactly these lines."""
    def judge(rs):
        for k, (r, exp) in enumerate(zip(rs, lines_per_case)):
            d = diff(exp, r.lines)
            if d:
                return ('case %d: ' % k if len(rs) > 1 else '') + d
    return judge


_mod = None
_exes = None
_fams = None
_args = None


def _shard(job):
    fi, lo, hi = job
    fam = _fams[fi]
    pid, seed, tier = _args
    out = {'fi': fi, 'lo': lo, 'evals': 0, 'distinct': set(), 'stats': {}, 'viol': [], 'samples': [], 'lines': 0,
           'skipped': 0, 'err': None, 'trivial': 0}
    seen = {}
    try:
        units, ctxs = [], []
        for i in range(lo, hi):
            ctx = Ctx(pid, fam.name, i, seed, tier)
            ctxs.append(ctx)
            for u in fam.fn(ctx):
                units.append((i, u))
        by = {}
        for ui, (i, u) in enumerate(units):
            for ci, (var, c) in enumerate(u.cases):
                by.setdefault(var, []).append((ui, ci, c))
        res = [[None] * len(u.cases) for i, u in units]
        for var, l in by.items():
            for lo2 in range(0, len(l), 64):
                part = l[lo2:lo2 + 64]
                for (ui, ci, c), r in zip(part, R.run_batch(_exes[var], [c for _, _, c in part], fam.cpu)):
                    res[ui][ci] = r
        for (i, u), rs in zip(units, res):
            if any(r is None for r in rs):
                out['skipped'] += 1
                continue
            out['evals'] += 1
            if u.trivial:
                out['trivial'] += 1
            else:
                k = u.key
                if isinstance(k, str):
                    k = k.encode('latin-1', 'replace')
                out['distinct'].add(int.from_bytes(hashlib.blake2b(k, digest_size=8).digest(), 'little'))
            msgs = []
            dirty = False
            for r in rs:
                out['lines'] += len(r.lines)
                for l in r.lines:
                    k = 'trace lines: ' + l.split(' ', 1)[0][:16]
                    seen[k] = seen.get(k, 0) + 1
                if not r.clean and not u.unclean:
                    dirty = True
                    msgs.append((None, r.why()))
            if not dirty or u.judge is None:
                try:
                    m = u.judge(rs) if u.judge else None
                except (AttributeError, IndexError, KeyError, ValueError, TypeError) as x:
                    # the judges take apart what was observed; it does not have the form that correct code gives it
                    m = 'the output does not have the expected form (%s: %s; %s): %s' % (
                        type(x).__name__, x, traceback.format_exc().strip().split('\n')[-3].strip(), [y[:300] for y in rs[0].lines[:6]])
                if m:
                    if isinstance(m, (str, tuple)):
                        m = [m]
                    for x in m:
                        msgs.append(x if isinstance(x, tuple) else (None, x))
            else:
                # where a clean run was expected the trace so far may tell more
                try:
                    m = u.judge(rs)
                    if isinstance(m, str):
                        msgs[0] = (None, msgs[0][1] + ' [' + m[:300] + ']')
                except Exception:
                    pass
            for key, m in msgs[:3]:
                out['viol'].append({'family': fam.name, 'index': i, 'key': key, 'message': m,
                                    'cases': [{'variant': v, 'text': c.text()} for v, c in u.cases],
                                    'observed': [{'lines': r.lines[:400], 'end': r.end, 'stderr': r.stderr[:60]}
                                                 for r in rs]})
            if u.sample and len(out['samples']) < 1 and i == lo:
                out['samples'].append({'family': fam.name, 'index': i, 'case': u.sample[:1500],
                                       'observed': (rs[0].lines[:8] if rs else [])})
                out['samples'][-1]['observed'] = [x[:200] for x in out['samples'][-1]['observed']]
        for st in [c.stats for c in ctxs] + [seen]:
            for k, v in st.items():
                out['stats'][k] = out['stats'].get(k, 0) + v
    except Exception:
        out['err'] = traceback.format_exc()
    return out


def known_findings():
    k = {}
    try:
        for line in open(KNOWN, encoding='utf-8'):
            line = line.strip()
            if line.startswith('KNOWN-FINDING:'):
                parts = dict(p.split('=', 1) for p in line.split() if '=' in p and p.split('=')[0] in ('property', 'key'))
                k[(parts['property'], parts['key'])] = line
    except FileNotFoundError:
        pass
    return k


def main(pid, tier, seed, only=None, limit=None):
    global _mod, _exes, _fams, _args
    t0 = time.time()
    mod = importlib.import_module('checks.' + pid.lower())
    fams = families(mod, tier)
    if only:
        fams = [f for f in fams if f.name in only]
    need = sorted({v for f in fams for v in f.variants})
    try:
        exes = dict(zip(need, B.build_all(need)))
    except B.BuildError as e:
        print('ERROR: cannot build the driver:\n%s' % e)
        return 3
    tb = time.time() - t0
    _exes, _fams, _args = exes, fams, (pid, seed, tier)
    R.tmproot()
    jobs = []
    for fi, f in enumerate(fams):
        n = f.quick if tier == 'quick' else f.thorough
        if limit:
            n = min(n, limit)
        sh = f.shard or max(1, min(48, (n + 23) // 24))
        jobs += [(fi, lo, min(n, lo + sh)) for lo in range(0, n, sh)]
    # spread the families over the run
    jobs.sort(key=lambda j: (j[1] / max(1, (fams[j[0]].quick if tier == 'quick' else fams[j[0]].thorough)), j[0]))
    known = known_findings()
    tot = {'evals': 0, 'lines': 0, 'skipped': 0, 'trivial': 0}
    fam_ev = {}
    distinct = set()
    stats = {}
    samples = []
    viols = []
    seen_known = {}
    errs = []
    nproc = R.NPROC
    if os.environ.get('VT_SERIAL'):
        it = ((j, _shard(j)) for j in jobs)
        pool = None
    else:
        pool = Pool(_shard, nproc)
        it = pool.results(jobs)
    done = 0
    for job, out in it:
        done += 1
        if out is None:
            errs.append('%s %d: the worker processes ended' % (fams[job[0]].name, job[1]))
            if len(errs) >= 3:
                break
            continue
        f = fams[out['fi']].name
        for k in tot:
            tot[k] += out[k]
        fam_ev[f] = fam_ev.get(f, 0) + out['evals']
        distinct |= out['distinct']
        for k, v in out['stats'].items():
            stats[k] = stats.get(k, 0) + v
        samples += [(out['fi'], out['lo'], s) for s in out['samples']]
        if out['err']:
            errs.append('%s %d: %s' % (f, out['lo'], out['err']))
            if len(errs) >= 3:
                break
        for v in out['viol']:
            kf = known.get((pid, v['key'])) if v['key'] else None
            if kf:
                seen_known[v['key']] = kf
            else:
                viols.append(v)
        if len(viols) >= 6 or (viols and time.time() - t0 > 300):
            break
    if pool:
        pool.stop()
    for k in sorted(seen_known):
        print(seen_known[k])
    os.makedirs(os.path.join(B.BUILD, 'replay'), exist_ok=True)
    if not only and not limit or True:
        for k, v in enumerate(viols[:6]):
            path = os.path.join(B.BUILD, 'replay', '%s-%d.json' % (pid, k))
            v.update(property=pid, seed=seed, tier=tier)
            with open(path, 'w') as fh:
                json.dump(v, fh, indent=1)
            print('VIOLATION property=%s replay=%s' % (pid, path))
            print('  %s[%d]: %s' % (v['family'], v['index'], v['message'][:1000]))
    for e in errs[:3]:
        print('ERROR: ' + e)
    samples.sort(key=lambda s: (s[1] != 0, s[0], s[1]))
    wall = time.time() - t0
    cov = {
        'evaluations': tot['evals'],
        'distinct_nontrivial': len(distinct),
        'rule': mod.RULE,
        'samples': [s[2] for s in samples[:5]],
        'evaluations_per_family': fam_ev,
        'trace_lines_checked': tot['lines'],
        'observed': stats,
        'builds': need,
        'build_s': round(tb, 1),
    }
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov,
          'assumptions': getattr(mod, 'ASSUME', []) + [
              'only executions that were produced are judged; the generators are bounded as described in DESIGN.md'],
          'wall_s': round(wall, 1), 'violations': len(viols)}
    if not only and not limit:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1)
            fh.write('\n')
    print('%s %s seed=%d: %d evaluations, %d distinct, %d trace lines, %d violation(s), %.1fs (build %.1fs)%s' % (
        pid, tier, seed, tot['evals'], len(distinct), tot['lines'], len(viols), wall, tb,
        ', %d skipped' % tot['skipped'] if tot['skipped'] else ''))
    if os.environ.get('VT_STATS'):
        print(json.dumps({'families': fam_ev, 'stats': stats}, indent=1))
    if viols:
        return 1
    if errs:
        return 4
    if tot['evals'] == 0 or len(distinct) < 2 and not limit:
        print('ERROR: nothing was observed')
        return 5
    return 0


def replay(path):
    v = json.load(open(path))
    print('property %s, family %s, index %d\n%s' % (v['property'], v['family'], v['index'], v['message']))
    import subprocess, tempfile, shutil
    for c in v['cases']:
        exe = B.build(c['variant'])
        d = tempfile.mkdtemp()
        open(d + '/cases', 'w', encoding='latin-1', newline='\n').write(c['text'])
        subprocess.run([exe, d + '/cases', d + '/out', '30'], cwd=d, env=R.ENV, stdin=subprocess.DEVNULL)
        print('--- %s' % c['variant'])
        print(open(d + '/out', encoding='latin-1').read())
        shutil.rmtree(d)
