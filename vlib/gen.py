"""Random well-typed programs together with the trace the reference interpreter predicts."""
import random
from .lang import *
from . import lang as L

INTS = [0, 0, 0, 1, 1, 1, 2, 3, 4, 5, 7, 8, 9, 10, 12, 15, 16, 31, 64, 100, 127, 128, 255, 256, 257, 1000]
WIDE = [32767, 32768, 65535, 65536, 65537, 2147483647, 2147483648, 4294967295, 4294967296, 4294967297, (1 << 40) + 1, 1 << 53, (1 << 53) + 1,
        123456789012345, 1 << 62, INT_MAX, INT_MAX - 1, -2147483648, -2147483649, -(1 << 40), -INT_MAX]
FLOATS = [0.0, 1.0, 2.0, 0.5, 0.25, 1.5, 3.14159, 0.1, 0.2, 100.0, 1e3, 12345.678, 0.001, 2147483648.0, 4294967296.5,
          9007199254740993.0, 1e15, 0.30000000000000004, 16777217.0, 3.0000000001]
STRS = [b'', b'a', b'b', b'ab', b'abc', b'hello', b'hello world', b'Tiny', b'x\ny', b'tab\t', b'quote"', b'back\\slash',
        b"it's", b'%d %s', b'\xe9\xff\x80', b'//not comment', b'{}', b'null', b'0', b'a' * 40, b'\r\b', b' lead', b'trail ']
POOL = ['a', 'b', 'c', 'd', 'e', 'i', 'j', 'k', 'm', 'n', 'p', 'q', 'r', 's', 't', 'u', 'v', 'w', 'x', 'y', 'z',
        'val', 'tmp', 'acc', 'count', 'total', 'node', 'item', 'left', 'right', 'foo', 'bar', 'baz', 'as', 'intx',
        'a_b', 'x1', 'x2', 'ifx', 'newv', 'forx', 'nullx', 'trueish', 'structx', 'e2', 'camelCase', 'UPPER']
KEY = set('if else while for func struct return break continue true false null new cast use int float bool str any void as'.split())
LONG = ['Q' + 'x' * k for k in (22, 30, 31, 32, 46, 47, 62, 63, 64, 90)]
FIELDS = ['x', 'y', 'z', 'next', 'left', 'right', 'value', 'name', 'kind', 'data', 'count', 'a', 'b', 'c', 'd', 'f1',
          'f2', 'weight', 'items', 'flag', 'as', 'n']

DEFAULT = dict(
    structs=2, globals=4, funcs=3, main=14, body=5, depth=3, loop=4, std=True, arrays=True, dicts=True, any=True,
    opt=True, nat=True, trace=.12, callbacks=0.0, wide=.06, rec=True, long_names=.05, emit=.35, topblock=True,
    fuel=3, nest=3, consts=2, w={}, shadow=.5, strs=True, nested_data=True, swallow=True, steps=30000, const_str=True,
    longstr=.02, dup_strings=True, index=.25, garbage=.02, pad=0.0, padmax=1)


class GiveUp(Exception):
    pass


def starts_odd(e):
    """would the text of this left hand side start with something other than a name?"""
    while True:
        if e.k in ('index', 'dot'):
            e = e.a
        elif e.k == 'call':
            if not e.arrow:
                return False
            e = e.args[0]
        else:
            return e.k != 'id'


class Env:
    def __init__(self, func=None, rec=False):
        self.func = func
        self.rec = rec
        self.args = {}
        self.scopes = [{}]
        self.loop = 0
        self.prot = set()
        self.stmts = 0


class Gen:
    def __init__(self, rng, **cfg):
        self.r = rng
        self.c = dict(DEFAULT)
        self.c.update(cfg)
        self.p = Program()
        self.gl = {}          # name -> type (variables)
        self.cn = {}          # constants: name -> (type, value)
        self.used = set()     # global names
        self.structs = {}
        self.funcs = {}       # name -> Func  (with .rec)
        self.env = Env()
        self.foreign = {}
        self.hosts = []
        self.uses = []
        self.arr_types = []
        self.sid = 0
        self.nmark = 0
        self.longs = []
        # all structs, fields and functions begin alike
        self.long = self.pick(LONG) if self.ch(self.c['long_names']) else ''
        self.idxf = {}        # struct -> (get function, set function or None)

    # ---------------------------------------------------------- helpers
    def ch(self, p):
        return self.r.random() < p

    def pick(self, xs):
        return xs[int(self.r.random() * len(xs))]

    def wpick(self, opts):
        tot = 0
        for w, _ in opts:
            tot += w
        x = self.r.random() * tot
        for w, o in opts:
            x -= w
            if x < 0:
                return o
        return opts[-1][1]

    def name(self, kind='v'):
        if self.ch(self.c['long_names']):
            n = self.r.choice([1, 40, 62, 63, 64, 65, 127, 128, 200, 255, 256, 257, 300])
            if self.longs and self.ch(.6):
                # much like an earlier one
                o = self.pick(self.longs)
                n = self.pick([o + 'a', o + 'b', o + '_', o[:-1] or 'q', self.pick('klmn') + o[1:]])
            else:
                n = self.pick('abcxyzQ') + ''.join(self.pick('abcdefgh_0123') for _ in range(n - 1)) + kind
            if n in KEY:
                return self.pick(POOL)
            self.longs.append(n)
            return n
        return self.pick(POOL)

    def fresh_global(self):
        for _ in range(50):
            n = self.name()
            if self.ch(.5):
                n += str(int(self.r.random() * 30))
            if n not in self.used:
                self.used.add(n)
                return n
        n = 'g%d' % len(self.used)
        while n in self.used:
            n += 'g'
        self.used.add(n)
        return n

    def local_name(self):
        live = set()
        for s in self.env.scopes:
            live.update(s)
        for _ in range(30):
            if self.ch(self.c['shadow']) and (self.env.args or self.gl):
                n = self.pick(sorted(self.env.args) + sorted(self.gl))
            else:
                n = self.name()
            if n not in live and n not in self.env.prot and n != 'fuel':
                return n
        i = 0
        while 'l%d' % i in live:
            i += 1
        return 'l%d' % i

    def visible(self):
        """name -> (type, kind) of all variables a use of the name may denote here"""
        v = {}
        for n, t in self.gl.items():
            v[n] = (t, 'g')
        for n, (t, x) in self.cn.items():
            v[n] = (t, 'c')
        e = self.env
        if e.func is not None:
            for n, t in e.args.items():
                v[n] = (t, 'l')
            for s in e.scopes:
                for n, t in s.items():
                    v[n] = (t, 'l')
        return v

    def vars_of(self, t, write=False):
        return [n for n, (tt, k) in self.visible().items()
                if tt == t and not (write and (k == 'c' or n in self.env.prot))]

    # ---------------------------------------------------------- types
    def base_types(self):
        return ['int'] * 4 + ['float'] * 2 + ['bool'] * 2 + (['str'] * 2 if self.c['strs'] else [])

    def rtype(self, d=1, ref=True):
        o = [(6, 'b')]
        if ref:
            if self.structs:
                o.append((3, 'S'))
            if self.arr_types:
                o.append((2, 'A'))
            if self.c['dicts']:
                o.append((.5, 'dict'))
            if self.c['any']:
                o.append((1, 'any'))
            if self.c['opt']:
                o.append((1, 'opt'))
            if self.c['nat']:
                o.append((.5, 'nat'))
                o.append((.3, 'box'))
        k = self.wpick(o)
        if k == 'b':
            return self.pick(self.base_types())
        if k == 'S':
            return ('S', self.pick(sorted(self.structs)))
        if k == 'A':
            return self.pick(self.arr_types)
        if k in ('any', 'opt'):
            if d <= 0:
                return 'int'
            t = self.rtype(0)
            while not isinstance(t, str) and t[0] in ('any', 'opt'):
                t = self.rtype(0)
            return (k, t)
        return k

    # ---------------------------------------------------------- literals
    def lit(self, t):
        r = self.r
        if t == 'int':
            if self.ch(self.c['wide']):
                v = self.pick(WIDE)
            elif self.ch(.1):
                v = r.randrange(-1000, 100000)
            else:
                v = self.pick(INTS)
                if self.ch(.15):
                    v = -v
            sp = None
            if v >= 0:
                q = r.random()
                if q < .1:
                    sp = ('0x%x' if q < .05 else '0x%X') % v
                elif q < .16 and 32 <= v < 127 and v not in (39, 92):
                    sp = "'%s'" % chr(v)
            return lit('int', v, sp)
        if t == 'float':
            v = self.pick(FLOATS) if self.ch(.7) else round(r.uniform(-1000, 1000), r.randrange(1, 6))
            if self.ch(.1):
                v = -v
            sp = None
            if v == int(v) and v >= 0 and str(v)[0] != '-' and self.ch(.3):
                sp = '%d.%s' % (int(v), '0' * r.randrange(1, 4))
            return lit('float', v, sp)
        if t == 'bool':
            return lit('bool', self.ch(.5))
        if t == 'str':
            if self.c['dup_strings'] and self.ch(.2):
                v = b'dup%d' % r.randrange(3)
            elif self.ch(self.c['longstr']):
                v = bytes(r.randrange(97, 123) for _ in range(r.choice([63, 64, 255, 256, 300, 1023, 1024])))
            elif self.ch(.2):
                v = bytes(r.choice([*range(32, 127), *range(32, 127), 200, 255, 9, 10]) for _ in range(r.randrange(1, 12)))
            else:
                v = self.pick(STRS)
            return lit('str', v)
        raise ValueError(t)

    def default(self, t):
        return {'int': lit('int', 1), 'float': lit('float', 1.0), 'bool': lit('bool', True),
                'str': lit('str', b'fix')}.get(t)

    # ---------------------------------------------------------- expressions
    def ex(self, t, d=None):
        if d is None:
            d = self.c['depth']
        e = self.ex0(t, d)
        return e

    def maker(self, t, d):
        """A freshly built value of a non-base type."""
        if t in ('int', 'float', 'bool', 'str'):
            return self.lit(t)
        if t == 'nat':
            return call('mknat', [self.lit_small()], 'nat')
        if t == 'box':
            return call('box', [self.ex(self.pick(self.base_types()), min(d - 1, 1))], 'box')
        if t == 'dict':
            args = []
            for _ in range(self.r.randrange(0, 3)):
                args.append(lit('str', self.pick([b'a', b'b', b'k', b'key', b'x1'])))
                args.append(self.ex(self.pick(self.base_types()), min(d - 1, 1)))
            return call('dict', args, 'dict')
        k = t[0]
        if k == 'any':
            if self.ch(.5):
                return N('cast', a=self.ex(t[1], d - 1), t=t)
            if self.c['nat'] and self.ch(.3):
                return call('tany', [self.ex(t[1], d - 1)], t)
            return N('cast', a=self.ex(t[1], d - 1), t=t)
        if k == 'opt':
            return N('cast', a=lit('any', None), t=t)
        if k == 'A':
            n = self.r.randrange(3, 6) if d > 0 else 3
            return call(tname(t), [self.ex(t[1], min(d - 1, 1)) for _ in range(n)], t)
        if k == 'S':
            st = self.structs[t[1]]
            args = [self.ex(ft, d - 1) for n, ft in st.fields]
            if self.ch(.4):
                o = list(range(len(args)))
                self.r.shuffle(o)
                # initialisers are evaluated in the order of the fields
                return N('new', name=t[1], args=[args[i] for i in o], names=[st.fields[i][0] for i in o], t=t)
            return N('new', name=t[1], args=args, names=None, t=t)
        raise ValueError(t)

    def lit_small(self):
        return lit('int', self.r.randrange(0, 50))

    def ex0(self, t, d):
        r = self.r
        W = self.c['w']
        vs = self.vars_of(t)
        base = isinstance(t, str) and t in ('int', 'float', 'bool', 'str')
        if d <= 0:
            if vs and self.ch(.7):
                return ident(self.pick(vs), t)
            if not base and vs:
                return ident(self.pick(vs), t)
            return self.maker(t, d)
        o = []
        if vs:
            o.append((4, 'var'))
        o.append((2 if base else (1.2 if not vs else .5), 'lit'))
        if base:
            o.append((W.get('op', 5), 'op'))
            if self.ch(self.c['trace']):
                o.append((6, 'trace'))
        if not isinstance(t, str) and t[0] == 'opt':
            o.append((3, 'optval'))
        if t in ('int', 'float', 'bool', 'str') or (not isinstance(t, str) and t[0] in 'SA'):
            o.append((W.get('tern', .8), 'tern'))
            o.append((W.get('field', 2), 'field'))
            o.append((W.get('elem', 1.5), 'elem'))
            if self.idxf:
                o.append((W.get('uidx', 1.5), 'uidx'))
            if self.c['any']:
                o.append((.7, 'castany'))
            if self.c['opt'] and base:
                o.append((.4, 'unopt'))
        else:
            o.append((1, 'field'))
        o.append((W.get('call', 1.6), 'call'))
        if base:
            o.append((.3, 'paren'))
            o.append((W.get('std', .8), 'std'))
        for _ in range(8):
            k = self.wpick(o)
            e = getattr(self, 'x_' + k)(t, d)
            if e is not None:
                return e
        if vs and self.ch(.7):
            return ident(self.pick(vs), t)
        return self.maker(t, d)

    def x_var(self, t, d):
        vs = self.vars_of(t)
        return ident(self.pick(vs), t) if vs else None

    def x_lit(self, t, d):
        return self.maker(t, d)

    def x_paren(self, t, d):
        return N('paren', a=self.ex(t, d - 1), t=t)

    def x_trace(self, t, d):
        return call('t' + t, [self.ex(t, d - 1)], t, arrow=self.ch(.2))

    def x_optval(self, t, d):
        # implicit conversion to a nullable type is possible only where a value is assigned; a cast through any works
        # everywhere
        return N('cast', a=N('cast', a=self.ex(t[1], d - 1), t=('any', t[1])), t=t)

    def x_castany(self, t, d):
        vs = self.vars_of(('any', t))
        if vs:
            return N('cast', a=ident(self.pick(vs), ('any', t)), t=t)
        e = self.x_call(('any', t), d)
        if e is not None:
            return N('cast', a=e, t=t)
        return None

    def x_unopt(self, t, d):
        vs = self.vars_of(('opt', t))
        if not vs:
            return None
        v = self.pick(vs)
        return N('tern', c=binop(self.pick(['!=']), ident(v, ('opt', t)), lit('any', None), 'bool'),
                 a=N('cast', a=N('cast', a=ident(v, ('opt', t)), t=('any', t)), t=t), b=self.ex(t, d - 1), t=t)

    def x_tern(self, t, d):
        return N('tern', c=self.ex('bool', d - 1), a=self.ex(t, d - 1), b=self.ex(t, d - 1), t=t)

    def x_field(self, t, d):
        cands = []
        for n, (tt, k) in self.visible().items():
            if isinstance(tt, tuple) and tt[0] == 'S':
                for f, ft in self.structs[tt[1]].fields:
                    if ft == t:
                        cands.append((n, tt, [(f, ft)]))
                    elif isinstance(ft, tuple) and ft[0] == 'S':
                        for f2, ft2 in self.structs[ft[1]].fields:
                            if ft2 == t:
                                cands.append((n, tt, [(f, ft), (f2, ft2)]))
        if cands and self.ch(.9):
            n, tt, path = self.pick(cands)
            e = ident(n, tt)
        else:
            ss = [(s, f) for s in sorted(self.structs) for f, ft in self.structs[s].fields if ft == t]
            if not ss or d < 2:
                return None
            s, f = self.pick(ss)
            e = self.ex(('S', s), d - 1)
            path = [(f, t)]
        for f, ft in path:
            e = N('dot', a=e, field=f, t=ft)
        return e

    def arr_expr(self, t, d):
        """an expression of array type that is pure, with its type"""
        at = ('A', t)
        if at not in self.arr_types:
            return None
        vs = self.vars_of(at)
        if vs:
            return ident(self.pick(vs), at)
        return None

    def index_of(self, a, d):
        """an index expression certainly inside an array of at least three elements"""
        at = a.t
        q = self.r.random()
        if q < .7:
            return lit('int', self.r.randrange(3))
        if q < .85 and a.k == 'id':
            return binop('-', call(tname(at) + '_len', [ident(a.name, at)], 'int', arrow=self.ch(.5)), lit('int', 1), 'int')
        e = N('paren', a=self.ex('int', d - 1), t='int')
        return binop('%', binop('&', e, lit('int', 255), 'int'), lit('int', 3), 'int')

    def x_elem(self, t, d):
        if t == 'int' and self.ch(.2) and self.c['std']:
            vs = self.vars_of('str')
            if vs:
                return N('index', a=ident(self.pick(vs), 'str'), i=lit('int', self.r.randrange(3)), t='int')
        a = self.arr_expr(t, d)
        if a is None:
            return None
        i = self.index_of(a, d)
        if self.ch(.25):
            return call(tname(a.t) + '_get', [a, i], t, arrow=self.ch(.5))
        return N('index', a=a, i=i, t=t)

    def x_uidx(self, t, d):
        """s[k] through an index function written in the script"""
        o = [s for s in sorted(self.idxf) if self.idxf[s][0].ret == t and self.idxf[s][0].name in self.funcs
             and self.callable(self.idxf[s][0])]
        if not o:
            return None
        s = self.pick(o)
        f = self.idxf[s][0]
        a = self.ex(('S', s), min(d - 1, 2))
        k = self.ex_assign(f.params[1][1], min(d - 1, 2))
        if self.ch(.15):
            return call(f.name, [a, k], t, arrow=self.ch(.5))
        return N('index', a=a, i=k, t=t)

    def s_uidx(self):
        o = [s for s in sorted(self.idxf) if self.idxf[s][1] is not None and all(
             f.name in self.funcs and self.callable(f) for f in self.idxf[s])]
        if not o:
            return self.s_assign()
        s = self.pick(o)
        g, f = self.idxf[s]
        vs = self.vars_of(('S', s))
        kt, vt = g.params[1][1], f.params[2][1]
        if vs and self.ch(.35) and g.ret in ('int', 'float') and vt == g.ret:
            l = N('index', a=ident(self.pick(vs), ('S', s)), i=self.lit(kt) if kt in ('int', 'str', 'bool', 'float') else
                  None, t=g.ret)
            if l.i is not None:
                return self.s_compound(l, g.ret)
        if vs and self.ch(.8):
            a = ident(self.pick(vs), ('S', s))
        else:
            # a statement must not start with a parenthesis
            for _ in range(5):
                a = self.ex(('S', s), 2)
                if a.k in ('id', 'dot', 'call', 'index'):
                    break
            else:
                return self.s_assign()
        k = self.ex_assign(kt, 2)
        e = self.ex_assign(g.ret, 2)
        l = N('index', a=a, i=k, t=g.ret)
        if starts_odd(l):
            return self.s_assign()
        return N('assign', lhs=l, op='=', e=e)

    def callable(self, f):
        if f.rec:
            return self.env.func is None or self.env.rec
        return self.env.func is None or self.env.func.order > f.order or self.env.rec

    def x_call(self, t, d):
        fs = [f for f in self.funcs.values() if f.ret == t and self.callable(f)]
        if not fs:
            return None
        if self.env.func is not None and self.env.rec:
            # keep the number of recursive calls small
            if self.env.calls <= 0:
                fs = [f for f in fs if not f.rec]
                if not fs:
                    return None
        f = self.pick(fs)
        return self.call_to(f, d)

    def call_to(self, f, d, arrow=True):
        args = []
        if f.rec:
            if self.env.func is None:
                args.append(lit('int', self.r.randrange(1, self.c['fuel'] + 1)))
            else:
                self.env.calls -= 1
                args.append(binop('-', ident('fuel', 'int'), lit('int', 1), 'int'))
        for n, t in f.params[len(args):]:
            args.append(self.ex_assign(t, min(d - 1, 2)))
        if self.c['callbacks'] and self.ch(self.c['callbacks']) and f.ret != 'void' and \
                not (isinstance(f.ret, tuple) and f.ret[0] == 'opt'):
            cargs = [lit('str', f.name.encode())] + args
            rt = f.ret if isinstance(f.ret, tuple) and f.ret[0] == 'any' else ('any', f.ret)
            c = call('callback', cargs, rt)
            return c if rt == f.ret else N('cast', a=c, t=f.ret)
        return call(f.name, args, f.ret, arrow=bool(args) and arrow and self.ch(.15))

    def ex_assign(self, t, d):
        """An expression assignable to t (implicit conversions to any and nullable allowed)."""
        if isinstance(t, tuple) and t[0] in ('any', 'opt') and self.ch(.6):
            return self.ex(t[1], d)
        return self.ex(t, d)

    def x_op(self, t, d):
        r = self.r
        if t == 'int':
            op = self.wpick([(4, '+'), (4, '-'), (2, '*'), (1.2, '/'), (1.2, '%'), (1.2, '&'), (1.2, '|'), (.8, '<<'),
                             (.8, '>>'), (1.5, 'neg'), (.4, 'self')])
            if op == 'neg':
                return unop('-', self.ex('int', d - 1), 'int')
            if op == 'self':
                return binop(self.pick(['+', '-']), self.ex('int', d - 1), lit('int', 1), 'int')
            if op in ('/', '%'):
                b = self.ex('int', d - 1) if self.ch(.2) else lit('int', self.pick([1, 2, 3, 5, 7, 10, 16, -1, -3, 1000]))
            elif op in ('<<', '>>'):
                b = lit('int', self.pick([0, 1, 2, 3, 8, 16, 31, 32, 40])) if self.ch(.8) else self.ex('int', d - 1)
            else:
                b = self.ex('int', d - 1)
            return binop(op, self.ex('int', d - 1), b, 'int')
        if t == 'float':
            op = self.wpick([(4, '+'), (3, '-'), (2, '*'), (1, '/'), (1, 'neg'), (.5, 'self')])
            if op == 'neg':
                return unop('-', self.ex('float', d - 1), 'float')
            if op == 'self':
                return binop(self.pick(['+', '-']), self.ex('float', d - 1), lit('int', 1), 'float')
            ta, tb = self.pick([('float', 'float'), ('int', 'float'), ('float', 'int')])
            return binop(op, self.ex(ta, d - 1), self.ex(tb, d - 1), 'float')
        if t == 'bool':
            op = self.wpick([(3, '&&'), (3, '||'), (2, '!'), (4, 'cmp'), (3, 'eq')])
            if op == '!':
                return unop('!', self.ex('bool', d - 1), 'bool')
            if op in ('&&', '||'):
                return binop(op, self.ex('bool', d - 1), self.ex('bool', d - 1), 'bool')
            if op == 'cmp':
                ta, tb = self.pick([('int', 'int'), ('int', 'int'), ('float', 'float'), ('int', 'float'), ('float', 'int')])
                return binop(self.pick(['<', '>', '<=', '>=']), self.ex(ta, d - 1), self.ex(tb, d - 1), 'bool')
            ta = self.rtype() if self.ch(.4) else self.pick(self.base_types())
            tb = ta
            if self.ch(.15):
                tb = self.rtype()
            if self.ch(.1):
                return binop(self.pick(['==', '!=']), self.ex(ta, d - 1) if self.ch(.8) else lit('any', None), lit('any', None), 'bool')
            return binop(self.pick(['==', '!=']), self.ex(ta, d - 1), self.ex(tb, d - 1), 'bool')
        if t == 'str':
            if not self.c['std']:
                return None
            n = self.r.randrange(2, 4)
            return call('strcat', [self.ex('str', d - 1) for _ in range(n)], 'str', arrow=self.ch(.2))
        return None

    def x_std(self, t, d):
        if self.c['nat'] and t == 'int':
            q = self.r.random()
            vs = self.vars_of('nat')
            if q < .3 and vs:
                return call('natid', [ident(self.pick(vs), 'nat')], 'int', arrow=self.ch(.3))
            if q < .4:
                return call('argc', [self.ex(self.rtype(), d - 2) for _ in range(self.r.randrange(0, 4))], 'int')
            if q < .5 and self.c['trace']:
                return call('tpick', [self.ex('int', d - 1) for _ in range(3)], 'int')
            if q < .55 and self.c['trace']:
                return call('tick', [self.ex(self.pick(self.base_types()), d - 1) for _ in range(self.r.randrange(0, 3))], 'int')
        if not self.c['std']:
            return None
        if t == 'int':
            k = self.r.randrange(5)
            if k == 0 and self.c['strs']:
                return call('strlen', [self.ex('str', d - 1)], 'int', arrow=self.ch(.4))
            if k == 1:
                return call('int', [self.ex('float', d - 1)], 'int')
            if k == 2 and self.c['strs']:
                return call('strchr', [self.ex('str', d - 1), lit('int', self.r.randrange(97, 105))], 'int')
            at = [a for a in self.arr_types if self.vars_of(a)]
            if at:
                a = self.pick(at)
                return call(tname(a) + '_len', [ident(self.pick(self.vars_of(a)), a)], 'int', arrow=self.ch(.5))
            return None
        if t == 'float':
            return call('float', [self.ex('int', d - 1)], 'float')
        if t == 'str':
            k = self.r.randrange(3)
            if k == 0:
                return call('int_to_str', [self.ex('int', d - 1)], 'str')
            if k == 1 and self.c['nat']:
                return call('mkstr', [lit('int', self.r.randrange(5)), lit('int', self.r.randrange(20)),
                                      lit('int', self.pick([0, 1, 2, 5, 9, 30]))], 'str')
            return call('substr', [self.ex('str', d - 1), lit('int', 0), lit('int', -1)], 'str')
        if t == 'bool' and self.c['dicts']:
            vs = self.vars_of('dict')
            if vs:
                return call('dict_exists', [ident(self.pick(vs), 'dict'), self.ex('str', d - 1)], 'bool')
        return None

    # ---------------------------------------------------------- statements
    def declare(self, t):
        """picks and registers a name; returns it"""
        if self.env.func is None:
            n = self.fresh_global()
            self.pending = (self.gl, n, t)
        else:
            n = self.local_name()
            self.pending = (self.env.scopes[-1], n, t)
        return n

    def s_decl(self, t=None, e=None):
        t = t or self.rtype()
        n = self.declare(t)
        tab, n, t = self.pending
        # the initialiser must not mention the name itself: hide it while generating
        hid = []
        if self.env.func is not None:
            self.hide(n, hid)
        typed = self.ch(.35)
        if e is None:
            if typed:
                e = self.ex_assign(t, self.c['depth'])
            else:
                e = self.ex(t)
        elif isinstance(t, tuple) and t[0] in ('any', 'opt'):
            typed = True
        self.unhide(hid)
        tab[n] = t
        return N('decl', name=n, ty=t if typed else None, e=e)

    def hide(self, n, hid):
        for tab in [self.gl, self.cn, self.env.args] + self.env.scopes:
            if n in tab:
                hid.append((tab, n, tab.pop(n)))

    def unhide(self, hid):
        for tab, n, v in hid:
            tab[n] = v

    def pure_lhs(self, t=None):
        """An assignable place without side effects: (node, type)."""
        o = []
        for n, (tt, k) in sorted(self.visible().items()):
            if k == 'c' or n in self.env.prot:
                continue
            o.append((3, ('id', n, tt)))
            if isinstance(tt, tuple) and tt[0] == 'S':
                for f, ft in self.structs[tt[1]].fields:
                    o.append((2, ('dot', n, tt, [(f, ft)])))
                    if isinstance(ft, tuple) and ft[0] == 'S':
                        for f2, ft2 in self.structs[ft[1]].fields:
                            o.append((.7, ('dot', n, tt, [(f, ft), (f2, ft2)])))
            elif isinstance(tt, tuple) and tt[0] == 'A':
                o.append((2, ('idx', n, tt)))
        # protected names can still be followed
        o2 = []
        for w, x in o:
            tt = x[2] if x[0] == 'id' else x[3][-1][1] if x[0] == 'dot' else x[2][1]
            if t is None or tt == t:
                o2.append((w, (x, tt)))
        if not o2:
            return None
        x, tt = self.wpick(o2)
        e = ident(x[1], x[2])
        if x[0] == 'dot':
            for f, ft in x[3]:
                e = N('dot', a=e, field=f, t=ft)
        elif x[0] == 'idx':
            e = N('index', a=e, i=lit('int', self.r.randrange(3)), t=tt)
        return e, tt

    def nocalls(self):
        """Generate the next expression without calls to script functions."""
        g = self

        class _C:
            def __enter__(s):
                s.f = g.funcs
                g.funcs = {}

            def __exit__(s, *a):
                g.funcs = s.f
        return _C()

    def s_assign(self):
        l = self.pure_lhs()
        if l is None:
            return self.s_decl()
        e, t = l
        if t in ('int', 'float') and self.ch(.45):
            return self.s_compound(e, t)
        if e.k == 'id' and e.name not in self.gl:
            v = self.ex_assign(t, self.c['depth'])
        else:
            with self.nocalls():
                v = self.ex_assign(t, self.c['depth'])
        if e.k == 'index' and self.ch(.3):
            return N('expr', e=call(tname(e.a.t) + '_set', [e.a, e.i, v], 'void', arrow=self.ch(.5)))
        return N('assign', lhs=e, op='=', e=v)

    def s_compound(self, e, t):
        ops = ['+=', '+=', '-=', '*='] + (['/=', '%=', '&=', '|='] if t == 'int' else ['/='])
        op = self.pick(ops)
        if op in ('+=', '-=') and t == 'int' and self.ch(.04):
            # one modulo some power of two
            v = lit('int', self.pick([257, 65537, 4294967297, 4294967296, (1 << 40) + 1, 255]))
        elif op in ('/=', '%='):
            v = lit(t, self.pick([1, 2, 3, 7, 10]) if t == 'int' else self.pick([1.0, 2.0, 0.5]))
        elif op in ('+=', '-=') and self.ch(.4):
            v = lit('int', 1) if t == 'int' else lit('float', 1.0)
        else:
            with self.nocalls():
                v = self.ex(t, 2)
            if op == '*=' and t == 'int':
                v = lit('int', self.pick([2, 3, -1, 0, 1]))
        return N('assign', lhs=e, op=op, e=v)

    def s_emit(self):
        n = self.r.choice([1, 1, 1, 2, 2, 3])
        args = []
        for _ in range(n):
            args.append(self.ex(self.rtype() if self.ch(.4) else self.pick(self.base_types())))
        return N('expr', e=call('emit', args, 'void'))

    def block(self, n, extra_first=(), fn=None):
        self.env.scopes.append({})
        before = set(self.gl) if self.env.func is None else None
        body = list(extra_first)
        for i in range(n):
            body.append(self.stmt())
            if body[-1].k in ('break', 'continue', 'return'):
                break
        self.env.scopes.pop()
        if before is not None:
            # variables of a block at the top level are globals, but perhaps never set
            for x in [x for x in self.gl if x not in before]:
                if not (isinstance(self.gl[x], str) and self.gl[x] in _fix and self.ch(.1)):
                    del self.gl[x]
        return N('block', body=body)

    def sub(self):
        self.env.nest += 1

    def s_if(self):
        c = self.ex('bool')
        self.env.nest += 1
        a = self.block(self.r.randrange(1, 3)) if self.ch(.85) else self.simple()
        b = None
        if self.ch(.5):
            b = self.s_if() if self.ch(.35) and self.env.nest < 6 else self.block(self.r.randrange(1, 3))
        self.env.nest -= 1
        if b is not None and a.k == 'if' and a.b is None:
            a = N('block', body=[a])
        return N('if', c=c, a=a, b=b)

    def simple(self):
        """a statement that declares nothing"""
        return self.s_emit() if self.ch(.5) or self.pure_lhs() is None else self.s_assign()

    def s_block(self):
        self.env.nest += 1
        b = self.block(self.r.randrange(0, 4))
        self.env.nest -= 1
        return b

    def loopvar(self):
        if self.env.func is None:
            return self.fresh_global()
        return self.local_name()

    def s_for(self):
        e = self.env
        e.nest += 1
        e.loop += 1
        e.scopes.append({})
        v = self.loopvar()
        (self.gl if e.func is None else e.scopes[-1])[v] = 'int'
        added = v not in e.prot
        e.prot.add(v)
        k = self.r.randrange(1, self.c['loop'] + 1)
        q = self.r.random()
        iv = ident(v, 'int')
        if q < .7:
            init, cond, step = lit('int', 0), binop('<', iv, lit('int', k), 'bool'), ('+=', lit('int', 1))
        elif q < .85:
            init, cond, step = lit('int', k), binop('>', iv, lit('int', 0), 'bool'), ('-=', lit('int', 1))
        else:
            init, cond, step = lit('int', 1), binop('<=', iv, lit('int', k * 2), 'bool'), \
                ('=', binop('+', iv, lit('int', 2), 'int'))
        if self.ch(.2):
            cond = binop('&&', cond, self.ex('bool', 1), 'bool')
        body = self.simple() if self.ch(.1) else self.block(self.r.randrange(1, 4))
        s = N('for', init=N('decl', name=v, ty=None, e=init), c=cond,
              step=N('assign', lhs=ident(v, 'int'), op=step[0], e=step[1]), body=body)
        e.scopes.pop()
        if added:
            e.prot.discard(v)
        if e.func is None:
            # keep the variable readable after the loop
            pass
        e.loop -= 1
        e.nest -= 1
        return s

    def s_while(self):
        """returns a block holding the counter and the loop"""
        e = self.env
        e.nest += 1
        e.scopes.append({})
        v = self.loopvar()
        (self.gl if e.func is None else e.scopes[-1])[v] = 'int'
        added = v not in e.prot
        e.prot.add(v)
        e.loop += 1
        k = self.r.randrange(1, self.c['loop'] + 1)
        iv = ident(v, 'int')
        inc = N('assign', lhs=ident(v, 'int'), op='+=', e=lit('int', 1))
        lim = binop('<', iv, lit('int', k), 'bool')
        q = self.r.random()
        if q < .5:
            cond = lim if self.ch(.6) else binop('&&', lim, self.ex('bool', 1), 'bool')
            w = N('while', c=cond, body=self.block(self.r.randrange(1, 4), [inc]))
        elif q < .75:
            stop = N('if', c=binop('>=', iv, lit('int', k), 'bool'), a=N('block', body=[N('break')]), b=None)
            w = N('while', c=lit('bool', True), body=self.block(self.r.randrange(1, 4), [stop, inc]))
        else:
            w = N('while', c=binop('<', call('tick', [], 'int'), lit('int', k), 'bool'), body=self.block(self.r.randrange(1, 4))) \
                if self.c['trace'] and self.ch(.0) else N('while', c=lim, body=self.block(self.r.randrange(0, 3), [inc]))
        e.loop -= 1
        e.scopes.pop()
        if added:
            e.prot.discard(v)
        e.nest -= 1
        return N('block', body=[N('decl', name=v, ty=None, e=lit('int', 0)), w])

    def s_return(self):
        f = self.env.func
        if f is None:
            return self.s_emit()
        r = N('return', e=None if f.ret == 'void' else self.ex_assign(f.ret, 2))
        return N('if', c=self.ex('bool', 2), a=N('block', body=[r]), b=None)

    def s_brk(self):
        if not self.env.loop:
            return self.s_emit()
        b = N(self.pick(['break', 'continue']))
        if self.ch(.8):
            b = N('if', c=self.ex('bool', 2), a=N('block', body=[b]) if self.ch(.8) else b, b=None)
        return b

    def s_call(self):
        fs = [f for f in self.funcs.values() if self.callable(f)]
        if self.env.func is not None and self.env.rec and self.env.calls <= 0:
            fs = [f for f in fs if not f.rec]
        if not fs:
            return self.s_emit()
        c = self.call_to(self.pick(fs), self.c['depth'])
        if c.k != 'call':
            c = c.a
        return N('expr', e=c)

    def s_array(self):
        at = [a for a in self.arr_types if self.vars_of(a)]
        if not at:
            return self.s_decl(self.pick(self.arr_types)) if self.arr_types else self.s_emit()
        a = self.pick(at)
        n = tname(a)
        v = ident(self.pick(self.vars_of(a)), a)
        arrow = self.ch(.5)
        k = self.r.randrange(8)
        with self.nocalls():
            if k <= 2:
                return N('expr', e=call(n + '_push', [v, self.ex_assign(a[1], 2)], 'void', arrow))
            if k == 3:
                return N('expr', e=call(n + '_insert', [v, lit('int', self.r.randrange(3)), self.ex_assign(a[1], 2)], 'void', arrow))
            if k == 4 and a[1] == 'int':
                return N('expr', e=call(n + '_sort', [v], 'void', arrow))
            if k == 5:
                g = binop('>', call(n + '_len', [v], 'int'), lit('int', 3), 'bool')
                op = self.pick(['_pop', '_shift'])
                return N('if', c=g, a=N('block', body=[N('expr', e=call('emit', [call(n + op, [v], a[1], arrow)], 'void'))]), b=None)
            if k == 6:
                g = binop('>', call(n + '_len', [v], 'int'), lit('int', 3), 'bool')
                return N('if', c=g, a=N('block', body=[N('expr', e=call(n + '_remove', [v, lit('int', self.r.randrange(4))], 'void', arrow))]), b=None)
            return N('expr', e=call(n + '_resize_fill', [v, lit('int', self.r.randrange(3, 12)), self.ex(a[1], 1)], 'void', arrow))

    def s_dict(self):
        vs = self.vars_of('dict')
        if not vs:
            return self.s_decl('dict')
        v = ident(self.pick(vs), 'dict')
        key = lit('str', self.pick([b'a', b'b', b'k', b'key', b'x1'])) if self.ch(.7) else self.ex('str', 1)
        k = self.r.randrange(5)
        with self.nocalls():
            if k == 0:
                return N('expr', e=call('dict_put', [v, key, self.ex(self.pick(self.base_types()), 2)], 'void', self.ch(.5)))
            if k == 1:
                return N('assign', lhs=N('index', a=v, i=key, t=('any', None)), op='=', e=self.ex(self.pick(self.base_types()), 2))
            if k == 2:
                return N('expr', e=call('dict_remove', [v, key], 'void', self.ch(.5)))
            if k == 3:
                return N('expr', e=call('emit', [N('index', a=v, i=key, t=('any', None))], 'void'))
            return N('expr', e=call('emit', [call('dict_exists', [v, key], 'bool')], 'void'))

    def s_box(self):
        vs = self.vars_of('box')
        if not vs:
            return self.s_decl('box')
        v = ident(self.pick(vs), 'box')
        if self.ch(.5):
            t = self.rtype()
            return N('expr', e=call('setbox', [v, self.ex(t, 2)], 'void', self.ch(.5)))
        return N('expr', e=call('emit', [call('unbox', [v], ('any', None))], 'void'))

    def s_garbage(self):
        return N('expr', e=call('garbage', [lit('int', self.r.randrange(1, 12))], 'void'))

    def stmt(self):
        c = self.c
        e = self.env
        e.stmts += 1
        W = c['w']
        o = [(W.get('decl', 2.5), 'decl'), (W.get('assign', 3), 'assign'), (10 * c['emit'], 'emit')]
        if e.nest < c['nest'] and e.stmts < 60:
            o += [(W.get('if', 1.6), 'if'), (W.get('for', .8), 'for'), (W.get('while', .6), 'while'), (W.get('block', .5), 'block')]
        if e.func is not None:
            o.append((W.get('return', .4), 'return'))
        if e.loop:
            o.append((W.get('brk', 1.2), 'brk'))
        if self.funcs:
            o.append((W.get('scall', 1), 'call'))
        if self.idxf:
            o.append((W.get('suidx', 1.5), 'uidx'))
        if self.arr_types:
            o.append((W.get('array', .8), 'array'))
        if c['dicts']:
            o.append((W.get('dict', .4), 'dict'))
        if c['nat']:
            o.append((W.get('box', .2), 'box'))
            o.append((c['garbage'] * 10, 'garbage'))
        return getattr(self, 's_' + self.wpick(o))()

    # ---------------------------------------------------------- program
    def make(self):
        c = self.c
        r = self.r
        items = self.p.items
        self.env.nest = 0
        self.env.calls = 0
        # structs
        names = []
        for i in range(c['structs']):
            names.append(self.long + self.pick(['P', 'Q', 'Node', 'Vec', 'Item', 'Rec', 'Thing', 'Pair']) + (str(i) if i else ''))
        sdefs = []
        elems = []
        if c['arrays']:
            for e in ('int', 'float', 'str', 'bool'):
                if e == 'str' and not c['strs']:
                    continue
                if self.ch(.6):
                    self.arr_types.append(('A', e))
        for i, n in enumerate(names):
            nf = r.choice([1, 2, 2, 3, 3, 4, 5, 6])
            if c.get('bigstruct') and self.ch(c['bigstruct']):
                nf = r.choice([17, 60, 127, 128, 200, 254, 255])
            fn = [self.long + x for x in FIELDS]
            r.shuffle(fn)
            while len(fn) < nf:
                fn.append('f_%d' % len(fn))
            fs = []
            for j in range(nf):
                if nf > 16:
                    t = self.pick(['int', 'int', 'bool', 'float'])
                else:
                    t = self.rtype()
                    if c['opt'] and self.ch(.2):
                        t = ('opt', ('S', self.pick(names)))
                fs.append((fn[j], t))
            st = Struc(n, fs)
            sdefs.append(st)
            self.structs[n] = st
            self.p.structs[n] = st
            if c['arrays'] and self.ch(.4):
                self.arr_types.append(('A', ('S', n)))
        if c['arrays'] and c['any'] and self.ch(.3) and False:
            self.arr_types.append(('A', ('any', 'int')))
        uses = [('use', 'array', [tname(a[1])], tname(a)) for a in self.arr_types]
        for a in self.arr_types:
            self.foreign.update(array_foreign(tname(a), tname(a[1])))
        head = sdefs + uses
        r.shuffle(head)
        # some definitions go to the end of the text
        tail = [x for x in head if self.ch(.3)]
        head = [x for x in head if x not in tail]
        items += head
        # constants
        for i in range(r.randrange(0, c['consts'] + 1)):
            t = self.pick(['int', 'int', 'float', 'bool'] + (['str'] if c['strs'] else []))
            l = self.lit(t)
            if t in ('int', 'float') and (l.v < 0 or l.v == 0 and str(l.v).startswith('-')):
                l = lit(t, 7 if t == 'int' else 7.5)
            n = self.fresh_global()
            self.cn[n] = (t, l.v)
            items.append(N('const', name=n, e=l))
        # function signatures first, so that bodies can call each other
        sigs = []
        for i in range(c['funcs']):
            rec = c['rec'] and self.ch(.4)
            n = self.long.lower() + self.pick(['f', 'g', 'h', 'calc', 'step', 'visit', 'make', 'get', 'x']) + str(i)
            ps = []
            seen = set(['fuel'])
            if rec:
                ps.append(('fuel', 'int'))
            for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4])):
                pn = self.name()
                if pn in seen:
                    continue
                seen.add(pn)
                ps.append((pn, self.rtype()))
            ret = 'void' if self.ch(.15) else self.rtype()
            f = Func(n, ps, ret)
            f.rec = rec
            f.order = i
            f.explicit_void = self.ch(.5)
            sigs.append(f)
        for n in names:
            if not self.ch(c['index']):
                continue
            kt = self.pick(['int', 'int', 'str' if c['strs'] else 'int', 'bool', self.rtype()])
            vt = self.pick(['int', 'float', self.rtype()])
            fs = [Func(n + '_get_index', [('self', ('S', n)), ('k', kt)], vt), None]
            if self.ch(.8):
                # the set function may take any type the value can be converted to
                st = vt
                if self.ch(.25) and c['any'] and not isinstance(vt, tuple):
                    st = ('any', vt)
                fs[1] = Func(n + '_set_index', [('self', ('S', n)), ('key', kt), ('v', st)], 'void' if self.ch(.7) else self.rtype())
            r.shuffle(sigs)
            for f in fs:
                if f is not None:
                    f.rec = False
                    f.explicit_void = self.ch(.5)
                    sigs.insert(r.randrange(len(sigs) + 1), f)
            self.idxf[n] = tuple(fs)
        for i, f in enumerate(sigs):
            f.order = i
        # globals and functions in turn; functions only mention globals above them
        gl_left = c['globals']
        order = sigs[:]
        r.shuffle(order)
        pend = []
        self.sigs = {f.name: f for f in sigs}
        nf = len(order)
        for i in range(gl_left):
            items.append(self.s_decl())
            while order and self.ch(nf / (gl_left + 1.0)):
                pend.append((len(items), order.pop(), dict(self.gl)))
                items.append(None)
        mainpos = len(items)
        for f in order:
            pend.append((len(items), f, dict(self.gl)))
            items.append(None)
        self.funcs = dict(self.sigs)
        for pos, f, gl in pend:
            keep = self.gl
            self.gl = dict(gl)
            self.func_body(f)
            self.gl = keep
            items[pos] = f
        self.p.funcs = self.funcs
        # main part
        for i in range(c['main']):
            self.env.nest = 0
            self.env.stmts = 0
            items.append(self.stmt())
        if c['pad'] and self.ch(c['pad']):
            for _ in range(r.randrange(1, c['padmax'] + 1)):
                self.padding(items)
        # final state of all globals
        vs = sorted(self.gl)
        for i in range(0, len(vs), 4):
            items.append(N('expr', e=call('emit', [ident(n, self.gl[n]) for n in vs[i:i + 4]], 'void')))
        items += tail
        return self.p

    def padding(self, items):
        """Bulk: many strings, globals, functions, locals, numbers, or long bodies to jump over."""
        r = self.r
        k = self.padk = getattr(self, 'padk', 0) + 1
        kind = r.choice(['strs', 'globals', 'funcs', 'locals', 'body', 'body', 'loop', 'nums', 'args', 'else', 'fbody'])
        g = 'pad%d_' % k

        def emit(*a):
            return N('expr', e=call('emit', list(a), 'void'))

        def gid(n, t='int'):
            return ident(g + n, t)

        def bump(n):
            return N('assign', lhs=gid(n), op='+=', e=lit('int', 1))
        new = []
        if kind == 'strs':
            n = r.choice([100, 200, 240, 256, 257, 300, 300, 500])
            if getattr(self, 'padstr', 0) + n > 600:
                n = 20
            self.padstr = getattr(self, 'padstr', 0) + n
            new.append(N('decl', name=g + 's', ty=None, e=lit('str', b'pad')))
            for i in range(n):
                new.append(N('assign', lhs=gid('s', 'str'), op='=', e=lit('str', b'%d pad %d' % (k, i))))
                if i % 16 == 0 or i in (253, 254, 255, 256, 257):
                    new.append(emit(gid('s', 'str')))
        elif kind == 'globals':
            n = r.choice([60, 120, 128, 250, 256, 300, 600])
            for i in range(n):
                new.append(N('decl', name=g + 'g%d' % i, ty=None, e=lit('int', i * 7)))
            for i in range(0, n, 5):
                new.append(N('assign', lhs=gid('g%d' % i), op='+=', e=gid('g%d' % ((i * 13 + 5) % n))))
            for i in range(0, n, 8):
                new.append(emit(*[gid('g%d' % j) for j in range(i, min(n, i + 8))]))
        elif kind == 'funcs':
            n = r.choice([60, 128, 250, 257, 300])
            for i in range(n):
                f = Func(g + 'f%d' % i, [('q', 'int')], 'int', [N('return', e=binop('+', ident('q', 'int'), lit('int', i), 'int'))])
                f.rec = False
                self.p.funcs[f.name] = f
                new.append(f)
            for i in range(0, n, 6):
                new.append(emit(*[call(g + 'f%d' % j, [lit('int', j * 3)], 'int') for j in range(i, min(n, i + 6), 2)]))
        elif kind == 'locals':
            n = r.choice([20, 60, 127, 128, 129, 200, 250])
            b = [N('decl', name='v0', ty=None, e=ident('q', 'int'))]
            for i in range(1, n):
                b.append(N('decl', name='v%d' % i, ty=None, e=binop('+', ident('v%d' % (i - 1), 'int'), lit('int', i % 5), 'int')))
            for i in range(0, n, 9):
                b.append(N('assign', lhs=ident('v%d' % i, 'int'), op='+=', e=ident('v%d' % ((i * 31 + 7) % n), 'int')))
            for i in range(0, n, 10):
                b.append(emit(*[ident('v%d' % j, 'int') for j in range(i, min(n, i + 10))]))
            b.append(N('return', e=ident('v%d' % (n - 1), 'int')))
            f = Func(g + 'loc', [('q', 'int')], 'int', b)
            f.rec = False
            self.p.funcs[f.name] = f
            new += [f, emit(call(f.name, [lit('int', 3)], 'int'))]
        elif kind == 'nums':
            n = r.choice([50, 130, 260, 300])
            new.append(N('decl', name=g + 'n', ty=None, e=lit('float', 0.0)))
            for i in range(n):
                v = r.choice([lit('int', r.getrandbits(r.randrange(1, 63))), lit('float', round(r.uniform(0, 1e6), 4))])
                new.append(emit(v, lit('float', i + .25)))
        elif kind == 'args':
            n = r.choice([20, 60, 127, 128, 200, 254])
            ps = [('q%d' % i, 'int') for i in range(n)]
            b = [N('decl', name='sum', ty=None, e=lit('int', 0))]
            for i in range(0, n, 7):
                b.append(N('assign', lhs=ident('sum', 'int'), op='=', e=binop('+', binop('*', ident('sum', 'int'), lit('int', 3), 'int') if i < 140 else ident('sum', 'int'), ident('q%d' % i, 'int'), 'int')))
            b.append(emit(ident('q0', 'int'), ident('q%d' % (n - 1), 'int'), ident('q%d' % (n // 2), 'int')))
            b.append(N('return', e=ident('sum', 'int')))
            f = Func(g + 'args', ps, 'int', b)
            f.rec = False
            self.p.funcs[f.name] = f
            new += [f, emit(call(f.name, [lit('int', (i * 37) % 101) for i in range(n)], 'int')),
                    emit(*[lit('int', i) for i in range(n)])]
        else:
            n = r.choice([15, 20, 22, 30, 60, 300, 1000, 2200, 4000, 5500]) if kind != 'fbody' else r.choice([30, 300, 2500, 5000])
            big = [bump('c') for _ in range(n)]
            if kind == 'fbody':
                f = Func(g + 'big', [('q', 'int')], 'int',
                         [N('if', c=binop('>', ident('q', 'int'), lit('int', 0), 'bool'),
                            a=N('block', body=big), b=None), N('return', e=gid('c'))])
                f.rec = False
                self.p.funcs[f.name] = f
                new += [N('decl', name=g + 'c', ty=None, e=lit('int', 0)), f,
                        emit(call(f.name, [lit('int', 0)], 'int'), call(f.name, [lit('int', 1)], 'int'))]
            else:
                new += [N('decl', name=g + 'c', ty=None, e=lit('int', 0)), N('decl', name=g + 'i', ty=None, e=lit('int', 0))]
                i = gid('i')
                if kind == 'body':
                    for v in (0, 1):
                        new.append(N('if', c=binop('==', gid('i'), lit('int', v), 'bool'), a=N('block', body=big + [emit(gid('c'))]), b=None))
                        new.append(emit(lit('int', v), gid('c')))
                        big = big[:r.randrange(1, 30)]
                elif kind == 'else':
                    for v in (0, 1):
                        new.append(N('if', c=binop('==', gid('i'), lit('int', v), 'bool'), a=N('block', body=[emit(lit('int', v))] + big),
                                     b=N('block', body=big[:r.randrange(1, n)] + [emit(lit('int', v + 10))])))
                        new.append(emit(gid('c')))
                else:
                    st = r.choice(['break', 'continue'])
                    inner = [N('if', c=binop('==', gid('i'), lit('int', 2), 'bool'),
                               a=N('block', body=([bump('i')] if st == 'continue' else []) + [N(st)]), b=None)]
                    if r.random() < .5:
                        new.append(N('while', c=binop('<', gid('i'), lit('int', 3), 'bool'),
                                     body=N('block', body=inner + big + [bump('i')])))
                    else:
                        if st == 'continue':
                            inner[0].a.body.pop(0)
                        new.append(N('for', init=N('decl', name=g + 'k', ty=None, e=lit('int', 0)),
                                     c=binop('<', gid('k'), lit('int', 3), 'bool'),
                                     step=bump('k'), body=N('block', body=inner + big + [bump('i')])))
                    new.append(emit(gid('c'), gid('i')))
        # somewhere between the statements of the main part
        at = len(items) if r.random() < .4 else 0
        items[at:at] = new

    def func_body(self, f):
        c = self.c
        old = self.env
        e = self.env = Env(f, f.rec)
        e.nest = 0
        e.calls = 2
        for n, t in f.params:
            e.args[n] = t
        body = []
        if f.rec:
            e.prot.add('fuel')
            fu = self.funcs
            self.funcs = {}
            ret = N('return', e=None if f.ret == 'void' else self.ex_assign(f.ret, 1))
            self.funcs = fu
            body.append(N('if', c=binop('<=', ident('fuel', 'int'), lit('int', 0), 'bool'), a=N('block', body=[ret]), b=None))
        for _ in range(self.r.randrange(1, c['body'] + 1)):
            body.append(self.stmt())
            if body[-1].k in ('break', 'continue'):
                body.pop()
        if f.ret != 'void':
            body.append(N('return', e=self.ex_assign(f.ret, c['depth'])))
        elif self.ch(.2):
            body.append(N('return', e=None))
        f.body = body
        self.env = old


class Made:
    """A generated program, its source pieces and the predicted trace."""
    __slots__ = ('prog', 'it', 'gen', 'seed', 'cfg')

    def events(self, tid=0):
        return self.it.ev


def foreign_table(g):
    t = {n: h[2] for n, h in HOST.items()}
    t.update(STD)
    t.update(dict_foreign('dict'))
    t.update(g.foreign)
    return t


_fix = {'int': 1, 'float': 1.0, 'bool': True, 'str': b'fix'}


def _open(s):
    """Would an else behind this statement belong to it?"""
    if s.k == 'if':
        return s.b is None or _open(s.b)
    return s.k in ('while', 'for') and _open(s.body)


def unblock(prog, r, p):
    """Takes the braces off bodies of one statement which declares nothing."""
    def bare(s, noelse):
        s = visit(s)
        if s.k != 'block' or len(s.body) != 1 or getattr(s, 'mark0', None) is not None or r.random() >= p:
            return s
        x = s.body[0]
        if x.k not in ('assign', 'expr', 'if', 'while', 'for', 'return', 'break', 'continue') or (noelse and _open(x)):
            return s
        return x

    def visit(s):
        if s.k == 'block':
            s.body = [visit(x) for x in s.body]
        elif s.k == 'if':
            s.a = bare(s.a, s.b is not None)
            if s.b is not None:
                s.b = bare(s.b, False)
                if _open(s.a):
                    s.a = N('block', body=[s.a])
        elif s.k in ('while', 'for'):
            s.body = bare(s.body, False)
        return s
    for i, it in enumerate(prog.items):
        if isinstance(it, Func):
            it.body = [visit(x) for x in it.body]
        elif isinstance(it, N):
            prog.items[i] = visit(it)


def make(seed, **cfg):
    """Returns a Made or raises GiveUp."""
    rng = random.Random(seed)
    g = Gen(rng, **cfg)
    prog = g.make()
    if rng.random() < .4:
        unblock(prog, random.Random('%s/unblock' % seed), rng.choice([.3, .7, 1]))
    ft = foreign_table(g)
    for attempt in range(25):
        it = Interp(prog, ft, max_steps=g.c['steps'], max_depth=g.c.get('max_depth', 55))
        try:
            it.run()
            m = Made()
            m.prog, m.it, m.gen, m.seed, m.cfg = prog, it, g, seed, cfg
            return m
        except Unclaimed as u:
            n = u.node
            if n is None or not isinstance(getattr(n, 't', None), str) or n.t not in _fix:
                raise GiveUp(str(u))
            v = _fix[n.t]
            if n.k == 'lit':
                if n.t == 'int' and n.v == v:
                    v = 0
                elif n.v == v:
                    raise GiveUp(str(u))
            for k in list(n.__dict__):
                if k not in ('t',):
                    del n.__dict__[k]
            n.k = 'lit'
            n.v = v
            n.sp = None
        except TooLong:
            raise GiveUp('too long')
        except RecursionError:
            raise GiveUp('recursion')
    raise GiveUp('repair')


def make_some(seed, **cfg):
    """Like make, trying other seeds until one works."""
    for i in range(200):
        try:
            return make('%s/%d' % (seed, i), **cfg)
        except GiveUp:
            pass
    raise GiveUp('no program')


def setup(state=0, std='lad6', extra=()):
    """Driver commands that create a state with the usual bindings."""
    from .run import cmd
    out = [cmd('state', str(state))]
    if std:
        out.append(cmd('std', str(state), std))
    out += ['type %d nat' % state, 'type %d box' % state]
    for n, h in HOST.items():
        out.append(cmd('bind', str(state), h[0], h[1]))
    for k, m in SPYMODES.items():
        out.append('spy %d %s' % (k, m))
    out += list(extra)
    return out
