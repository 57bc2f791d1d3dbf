"""Generated programs run in many ways and compared with the reference interpreter."""
from . import gen, lang
from .core import Unit, diff
from .run import Case, cmd

BASIC = dict(arrays=False, dicts=False, any=False, opt=False, nat=False, structs=0)
EXPR = dict(depth=5, main=8, funcs=2, body=2, structs=1, emit=1.0, trace=.2, wide=.15, nest=1, topblock=False)
EXPRB = dict(BASIC, depth=6, main=8, funcs=1, body=2, emit=1.0, trace=.2, wide=.2, nest=1)
FLOW = dict(BASIC, depth=1, main=10, body=9, nest=6, funcs=4, emit=.8, loop=5,
            w={'if': 3, 'for': 2, 'while': 1.6, 'brk': 3, 'return': 1, 'block': .5})
SCOPE = dict(depth=2, globals=7, funcs=4, consts=5, shadow=.9, body=9, nest=6, structs=1, dicts=False,
             w={'block': 3, 'decl': 5, 'for': 1.6, 'assign': 4, 'while': 1})
STRUCT = dict(structs=4, bigstruct=.03, dicts=False, depth=4, w={'assign': 5}, nat=False, emit=.5)
HEAP = dict(structs=3, garbage=.12, emit=.5, w={'array': 2, 'dict': 1, 'box': 1}, trace=.15)
CALLS = dict(funcs=6, callbacks=.5, w={'scall': 3, 'return': 1.5}, body=6, rec=True, depth=3)
HOST = dict(trace=.5, funcs=3, emit=.8)
TYPES = dict(structs=3, depth=4)
PAD = dict(pad=1.0, padmax=3, main=8, steps=120000)
DEFAULT = {}
PRESETS = {'default': DEFAULT, 'expr': EXPR, 'exprb': EXPRB, 'flow': FLOW, 'scope': SCOPE, 'struct': STRUCT,
           'heap': HEAP, 'calls': CALLS, 'host': HOST, 'types': TYPES}


def make(ctx, preset='default', **over):
    cfg = dict(PRESETS[preset])
    for k, v in over.items():
        if k == 'w':
            cfg['w'] = dict(cfg.get('w', {}), **v)
        else:
            cfg[k] = v
    m = gen.make_some(ctx.sub(), **cfg)
    ctx.count('programs')
    ctx.count('events predicted', len(m.it.ev))
    return m


def source(m, rng, style=None, parens=None):
    s = lang.render(m.prog, style or rng.choice(['normal', 'normal', 'tight', 'wild']), rng,
                    parens if parens is not None else rng.choice([0, 0, 0, .15]))
    return s.encode('latin-1')


def retid(ev, t):
    if t == 0:
        return ev
    out = []
    for l in ev:
        a, b, c = l.split(' ', 2)
        out.append('%s %d %s' % (a, t, c))
    return out


def start(m, src, s=0, t=0, gc=None, check='', seed=1, fname='main.tiny', extra=(), opts=()):
    """Case that compiles the program into state s and starts thread t."""
    c = Case(list(opts) + gen.setup(s, extra=extra))
    c.add('compile', s, fname, src)
    begin(c, s, t, gc, check, seed)
    return c


def begin(c, s=0, t=0, gc=None, check='', seed=1):
    c.add('thread', t, s)
    if gc:
        c.add('gcmode', t, gc, seed)
    if check:
        c.add('check', t, check)
    c.add('start', t)


def finish(c, t=0, s=0, live=False):
    c.add('destroy', t)
    c.add('delstate', s)
    return c


def unit(m, src, cases, exps, trivial=False):
    """Unit that expects the given lines of each case."""
    def judge(rs):
        for k, (r, exp) in enumerate(zip(rs, exps)):
            d = diff(exp, r.lines)
            if d:
                return ('run %d: ' % k if len(rs) > 1 else '') + d
    return Unit(cases, judge, src, src.decode('latin-1'), trivial=trivial or len(m.it.ev) < 2)


def stats(ctx, m):
    ctx.count('longest program steps', 0)
    ctx.stats['longest program steps'] = max(ctx.stats['longest program steps'], m.it.steps)


def text_case(src, fname='main', **kw):
    if isinstance(src, str):
        src = src.encode('latin-1')
    c = Case(gen.setup(**kw))
    c.add('compile', 0, fname, src)
    return c


def text_unit(src, ev, var='fast', gc=None, check='', trivial=False, seed=1, **kw):
    """A program given as text, run once; its events are expected."""
    if isinstance(src, str):
        src = src.encode('latin-1')
    c = text_case(src, **kw)
    begin(c, gc=gc, check=check, seed=seed)
    c.add('run', 0)
    finish(c)
    exp = ['compile 0 ok'] + ev + ['done 0 sp=0 fc=0']

    def judge(rs):
        return diff(exp, rs[0].lines)
    return Unit([(var, c)], judge, src, src.decode('latin-1'), trivial=trivial)


def reject_unit(src, what, var='fast', ctxstmt=b''):
    """A text that must not compile; nothing of it may run."""
    if isinstance(src, str):
        src = src.encode('latin-1')
    c = text_case(src)
    c.add('delstate', 0)

    def judge(rs):
        l = rs[0].lines
        if not l or not l[0].startswith('compile 0 err '):
            return 'accepted although %s: %s' % (what, l[:3])
        if len(l) != 1:
            return 'unexpected further output: %s' % l[:3]
    return Unit([(var, c)], judge, src, what + '\n' + src.decode('latin-1'))


def accept_unit(src, what, var='fast'):
    if isinstance(src, str):
        src = src.encode('latin-1')
    c = text_case(src)
    c.add('delstate', 0)

    def judge(rs):
        if rs[0].lines != ['compile 0 ok']:
            return 'not accepted although %s: %s' % (what, rs[0].lines[:3])
    return Unit([(var, c)], judge, src, what + '\n' + src.decode('latin-1'))


def emitted(*vals, t=0):
    """Trace line of emit with these values."""
    return ' '.join(['emit %d %d' % (t, len(vals))] + [lang.ser(v) for v in vals])
