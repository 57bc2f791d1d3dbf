"""The language: syntax trees, a printer with free layout and a reference interpreter.

The interpreter resolves names by itself from the scoping rules and evaluates the tree directly, so
it shares neither code nor structure with the compiler and the virtual machine under test. It raises
Unclaimed when the meaning of something is not defined by the properties (signed overflow, division
by zero, ...); generators then repair or drop the program.
"""
import math
import struct
import sys

sys.setrecursionlimit(20000)

INT_MIN, INT_MAX = -(1 << 63), (1 << 63) - 1


class Unclaimed(Exception):
    def __init__(self, why, node=None):
        Exception.__init__(self, why)
        self.node = node


class TooLong(Exception):
    pass


# ------------------------------------------------------------------ types
# 'int' 'float' 'bool' 'str' 'void' 'nat' 'box' 'dict' ; ('any', T) any value known to hold a T;
# ('opt', T) nullable ; ('S', name) struct ; ('A', T) array of T (T printed); 'any' any value at all

def tname(t, arr=None):
    if isinstance(t, str):
        return t
    k = t[0]
    if k == 'any':
        return 'any'
    if k == 'opt':
        return tname(t[1]) + '?'
    if k == 'S':
        return t[1]
    if k == 'A':
        return 'array_' + tname(t[1]).replace('?', '_opt')
    if k == 'D':
        return t[1]
    raise ValueError(t)


# ------------------------------------------------------------------ nodes

class N:
    """Expression or statement."""

    def __init__(self, k, **kw):
        self.k = k
        self.__dict__.update(kw)

    def __repr__(self):
        return 'N(%s)' % ', '.join('%s=%r' % x for x in self.__dict__.items())


def lit(t, v, sp=None):
    return N('lit', t=t, v=v, sp=sp)


def ident(name, t):
    return N('id', name=name, t=t)


def binop(op, a, b, t):
    return N('bin', op=op, a=a, b=b, t=t)


def unop(op, a, t):
    return N('un', op=op, a=a, t=t)


def call(f, args, t, arrow=False):
    return N('call', f=f, args=args, t=t, arrow=arrow)


# ------------------------------------------------------------------ values

class Struct:
    __slots__ = ('name', 'f')

    def __init__(self, name, f):
        self.name = name
        self.f = f


class Arr:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class DictV:
    __slots__ = ('d',)

    def __init__(self):
        self.d = {}


class Nat:
    __slots__ = ('id',)

    def __init__(self, i):
        self.id = i


class Box:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class L64:
    """light native (i64)"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class Unset:
    pass


UNSET = Unset()

_safe = set(range(33, 127)) - {ord('%'), ord('"')}


def escq(b):
    return ''.join([chr(c) if c in _safe else '%%%02X' % c for c in b])


def ser(v, seen=None):
    if seen is None:
        seen = {}
    if v is None:
        return 'n'
    if v is True:
        return 'b1'
    if v is False:
        return 'b0'
    t = type(v)
    if t is int:
        return 'i%d' % v
    if t is float:
        if v != v:
            return 'fnan'
        return 'f%016x' % struct.unpack('<Q', struct.pack('<d', v))[0]
    if t is bytes:
        return 's"%s"' % escq(v)
    if t is Struct:
        k = seen.get(id(v))
        if k is not None:
            return 'S#%d' % k
        k = len(seen)
        seen[id(v)] = k
        return 'S#%d{%s}' % (k, ','.join([ser(x, seen) for x in v.f]))
    if t is Arr:
        k = seen.get(id(v))
        if k is not None:
            return 'A#%d' % k
        k = len(seen)
        seen[id(v)] = k
        return 'A#%d[%s]' % (k, ','.join([ser(x, seen) for x in v.v]))
    if t is Box:
        k = seen.get(id(v))
        if k is not None:
            return 'B#%d' % k
        k = len(seen)
        seen[id(v)] = k
        return 'B#%d(%s)' % (k, ser(v.v, seen))
    if t is DictV:
        k = seen.get(id(v))
        if k is None:
            k = len(seen)
            seen[id(v)] = k
        return 'D#%d' % k
    if t is Nat:
        return 'N%d' % v.id
    if t is L64:
        return 'L%x' % (v.v & 0xFFFFFFFFFFFFFFFF)
    raise TypeError(v)


def eq(a, b):
    if a is UNSET or b is UNSET:
        raise Unclaimed('unset')
    if a is b and type(a) is not float:
        return True
    ta, tb = type(a), type(b)
    if ta is not tb:
        return False
    if ta in (int, float, bytes, bool):
        return a == b
    if ta is L64:
        return a.v == b.v
    return False


# ------------------------------------------------------------------ program

class Struc:
    def __init__(self, name, fields):
        self.name = name
        self.fields = fields  # [(name, type)]


class Func:
    def __init__(self, name, params, ret, body=None):
        self.name = name
        self.params = params  # [(name, type)]
        self.ret = ret
        self.body = body      # list of statements


class Program:
    """items: top-level things in textual order: Struc, Func, N statements, ('use', text tokens)."""

    def __init__(self):
        self.items = []
        self.structs = {}
        self.funcs = {}


# ------------------------------------------------------------------ resolver

class ScopeError(Exception):
    pass


class _Res:
    """Binds every name to a slot following the scoping rules of the language."""

    def __init__(self, prog, host_consts=None):
        self.p = prog
        self.gl = {}      # name -> ('g', name) or ('c', value)
        self.host = dict(host_consts or {})
        for n, v in self.host.items():
            self.gl[n] = ('c', v)
        self.scopes = None
        self.args = None
        self.nloc = 0

    def look(self, name):
        if self.scopes is not None:
            for s in reversed(self.scopes):
                if name in s:
                    return s[name]
            if name in self.args:
                return self.args[name]
        return self.gl.get(name)

    def run(self):
        for it in self.p.items:
            if isinstance(it, Func):
                self.scopes = [{}]
                self.args = {}
                for i, (n, t) in enumerate(it.params):
                    if n in self.args:
                        raise ScopeError('arg')
                    self.args[n] = ('l', i)
                self.nloc = len(it.params)
                for s in it.body:
                    self.stmt(s)
                it.nloc = self.nloc
                self.scopes = None
            elif isinstance(it, N):
                self.stmt(it)
        return self

    def declare(self, name):
        if self.scopes is not None:
            for s in self.scopes:
                if name in s:
                    raise ScopeError('local ' + name)
            r = ('l', self.nloc)
            self.nloc += 1
            self.scopes[-1][name] = r
        else:
            if name in self.gl:
                raise ScopeError('global ' + name)
            r = ('g', name)
            self.gl[name] = r
        return r

    def push(self):
        if self.scopes is not None:
            self.scopes.append({})

    def pop(self):
        if self.scopes is not None:
            self.scopes.pop()

    def stmt(self, s):
        k = s.k
        if k == 'decl':
            # the name is in scope in its own initialiser
            s.sym = self.declare(s.name)
            self.expr(s.e)
        elif k == 'const':
            if self.look(s.name):
                raise ScopeError('const ' + s.name)
            self.gl[s.name] = ('c', s.e.v)
        elif k == 'assign':
            self.expr(s.lhs)
            if s.lhs.k == 'id' and s.lhs.sym[0] == 'c':
                raise ScopeError('assign const')
            self.expr(s.e)
        elif k == 'expr':
            self.expr(s.e)
        elif k == 'if':
            self.expr(s.c)
            self.stmt(s.a)
            if s.b is not None:
                self.stmt(s.b)
        elif k == 'block':
            self.push()
            for x in s.body:
                self.stmt(x)
            self.pop()
        elif k == 'while':
            self.expr(s.c)
            self.push()
            self.stmt(s.body)
            self.pop()
        elif k == 'for':
            self.push()
            self.stmt(s.init)
            self.expr(s.c)
            self.stmt(s.step)
            self.stmt(s.body)
            self.pop()
        elif k == 'return':
            if s.e is not None:
                self.expr(s.e)
        elif k in ('break', 'continue', 'raw'):
            pass
        else:
            raise ValueError(k)

    def expr(self, e):
        k = e.k
        if k == 'id':
            e.sym = self.look(e.name)
            if e.sym is None:
                raise ScopeError('undeclared ' + e.name)
        elif k == 'bin':
            self.expr(e.a)
            self.expr(e.b)
        elif k in ('un', 'paren', 'cast', 'dot'):
            self.expr(e.a)
        elif k == 'tern':
            self.expr(e.c)
            self.expr(e.a)
            self.expr(e.b)
        elif k in ('call', 'new'):
            for a in e.args:
                self.expr(a)
        elif k == 'index':
            self.expr(e.a)
            self.expr(e.i)
        elif k == 'lit':
            pass
        else:
            raise ValueError(k)


def cdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a >= 0) == (b >= 0) else -q


_BRK, _CNT = object(), object()


class _Ret:
    __slots__ = ('v',)


class Interp:
    """Reference interpreter. foreign: name -> function(interp, args) -> value."""

    def __init__(self, prog, foreign, max_steps=40000, host_consts=None, tid=0, max_depth=55, natives=None):
        self.p = prog
        self.foreign = foreign
        self.max_steps = max_steps
        self.max_depth = max_depth
        self.steps = 0
        self.depth = 0
        self.maxdepth = 0
        self.ev = []
        self.evbytes = 0
        self.tid = tid
        self.spycount = {}
        self.g = {}
        if not getattr(prog, 'resolved', False):
            _Res(prog, host_consts).run()
            prog.resolved = True
        self.structs = prog.structs
        self.funcs = prog.funcs
        self.kinds = {}   # statistics: node kinds evaluated
        self._E = {k[2:]: getattr(self, k) for k in dir(self) if k.startswith('e_')}
        self._S = {k[2:]: getattr(self, k) for k in dir(self) if k.startswith('s_')}

    def log(self, line):
        self.ev.append(line)
        self.evbytes += len(line)
        if self.evbytes > 400000:
            raise TooLong()

    def log_args(self, name, args):
        seen = {}
        self.log('%s %d %d%s' % (name, self.tid, len(args), ''.join([' ' + ser(a, seen) for a in args])))

    # -------------------------------------------------- running
    def run(self):
        for it in self.p.items:
            if isinstance(it, N):
                r = self.st(it, None)
                assert r is None
        return self

    def st(self, s, fr):
        self.steps += 1
        if self.steps > self.max_steps:
            raise TooLong()
        return self._S[s.k](s, fr)

    def x(self, e, fr):
        self.steps += 1
        if self.steps > self.max_steps:
            raise TooLong()
        return self._E[e.k](e, fr)

    def get(self, sym, fr, node):
        k = sym[0]
        if k == 'l':
            v = fr[sym[1]]
        elif k == 'g':
            v = self.g.get(sym[1], UNSET)
        else:
            return sym[1]
        if v is UNSET:
            raise Unclaimed('unset variable', node)
        return v

    def put(self, sym, fr, v):
        if v is UNSET:
            raise Unclaimed('unset')
        if sym[0] == 'l':
            fr[sym[1]] = v
        else:
            self.g[sym[1]] = v

    # -------------------------------------------------- statements
    def s_decl(self, s, fr):
        self.put(s.sym, fr, self.x(s.e, fr))

    def s_const(self, s, fr):
        pass

    def s_raw(self, s, fr):
        pass

    def s_assign(self, s, fr):
        l = s.lhs
        op = s.op
        if l.k == 'index':
            a = self.x(l.a, fr)
            i = self.x(l.i, fr)
            if op == '=':
                v = self.x(s.e, fr)
            else:
                v = self.arith(op[:-1], self.idx(l, a, i), self.x(s.e, fr), s.e)
            self.setidx(l, a, i, v)
            return
        if op == '=':
            v = self.x(s.e, fr)
        else:
            try:
                old = self.x(l, fr)
            except Unclaimed as u:
                if u.node is l:
                    u.node = None
                raise
            v = self.arith(op[:-1], old, self.x(s.e, fr), s.e)
        if l.k == 'id':
            self.put(l.sym, fr, v)
        else:
            o = self.x(l.a, fr)
            if type(o) is not Struct:
                raise Unclaimed('null struct', None)
            o.f[self.fidx(o, l.field)] = v

    def s_expr(self, s, fr):
        self.call(s.e, fr, True)

    def s_if(self, s, fr):
        if self.x(s.c, fr):
            return self.st(s.a, fr)
        if s.b is not None:
            return self.st(s.b, fr)

    def s_block(self, s, fr):
        for x in s.body:
            r = self.st(x, fr)
            if r is not None:
                return r

    def s_while(self, s, fr):
        while self.x(s.c, fr):
            r = self.st(s.body, fr)
            if r is None or r is _CNT:
                continue
            if r is _BRK:
                break
            return r

    def s_for(self, s, fr):
        self.st(s.init, fr)
        while self.x(s.c, fr):
            r = self.st(s.body, fr)
            if r is not None and r is not _CNT:
                if r is _BRK:
                    break
                return r
            self.st(s.step, fr)

    def s_break(self, s, fr):
        return _BRK

    def s_continue(self, s, fr):
        return _CNT

    def s_return(self, s, fr):
        r = _Ret()
        r.v = self.x(s.e, fr) if s.e is not None else None
        return r

    # -------------------------------------------------- expressions
    def e_lit(self, e, fr):
        return e.v

    def e_id(self, e, fr):
        return self.get(e.sym, fr, e)

    def e_paren(self, e, fr):
        return self.x(e.a, fr)

    def e_cast(self, e, fr):
        return self.x(e.a, fr)

    def e_tern(self, e, fr):
        return self.x(e.a if self.x(e.c, fr) else e.b, fr)

    def e_un(self, e, fr):
        v = self.x(e.a, fr)
        if e.op == '!':
            return not v
        if type(v) is float:
            return v * -1.0
        if v == INT_MIN:
            raise Unclaimed('overflow', e)
        return -v

    def e_bin(self, e, fr):
        op = e.op
        a = self.x(e.a, fr)
        if op == '&&':
            return self.x(e.b, fr) if a else False
        if op == '||':
            return True if a else self.x(e.b, fr)
        b = self.x(e.b, fr)
        if op == '==':
            return eq(a, b)
        if op == '!=':
            return not eq(a, b)
        return self.arith(op, a, b, e)

    def arith(self, op, a, b, node):
        ta, tb = type(a), type(b)
        if a is None or b is None or ta is bool or tb is bool:
            raise Unclaimed('operand', node)
        if ta is float or tb is float:
            a = float(a)
            b = float(b)
            try:
                if op == '+':
                    return a + b
                if op == '-':
                    return a - b
                if op == '*':
                    return a * b
                if op == '/':
                    return a / b
            except (ZeroDivisionError, OverflowError):
                raise Unclaimed('float division by zero', node)
            if op == '<':
                return a < b
            if op == '>':
                return a > b
            if op == '<=':
                return a <= b
            if op == '>=':
                return a >= b
            raise ValueError(op)
        if op == '+':
            r = a + b
        elif op == '-':
            r = a - b
        elif op == '*':
            r = a * b
        elif op in ('/', '%'):
            if b == 0:
                raise Unclaimed('division by zero', node)
            r = cdiv(a, b)
            if op == '%':
                if r > INT_MAX:
                    raise Unclaimed('overflow', node)
                r = a - r * b
        elif op == '&':
            r = a & b
        elif op == '|':
            r = a | b
        elif op == '<<':
            if not 0 <= b <= 62 or a < 0:
                raise Unclaimed('shift', node)
            r = a << b
        elif op == '>>':
            if not 0 <= b <= 63:
                raise Unclaimed('shift', node)
            r = a >> b
        elif op == '<':
            return a < b
        elif op == '>':
            return a > b
        elif op == '<=':
            return a <= b
        elif op == '>=':
            return a >= b
        else:
            raise ValueError(op)
        if not INT_MIN <= r <= INT_MAX:
            raise Unclaimed('overflow', node)
        return r

    def fidx(self, o, name):
        for i, (n, t) in enumerate(self.structs[o.name].fields):
            if n == name:
                return i
        raise KeyError(name)

    def e_dot(self, e, fr):
        o = self.x(e.a, fr)
        if type(o) is not Struct:
            raise Unclaimed('null struct', None)
        return o.f[self.fidx(o, e.field)]

    def e_new(self, e, fr):
        st = self.structs[e.name]
        if e.names is None:
            return Struct(e.name, [self.x(a, fr) for a in e.args])
        by = dict(zip(e.names, e.args))
        return Struct(e.name, [self.x(by[n], fr) for n, t in st.fields])

    def idx(self, e, a, i):
        if type(a) is bytes:
            if not 0 <= i < len(a):
                raise Unclaimed('string index', e.i)
            c = a[i]
            return c - 256 if c > 127 else c
        if type(a) is DictV:
            return a.d.get(dkey(i), (None, None))[1]
        if type(a) is Struct:
            return self.callf(tname(e.a.t) + '_get_index', [a, i])
        if type(i) is not int or not 0 <= i < len(a.v):
            raise Unclaimed('array index', e.i)
        return a.v[i]

    def setidx(self, e, a, i, v):
        if type(a) is DictV:
            a.d[dkey(i)] = (i, v)
            return
        if type(a) is Struct:
            self.callf(tname(e.a.t) + '_set_index', [a, i, v])
            return
        if not 0 <= i < len(a.v):
            raise Unclaimed('array index', e.i)
        a.v[i] = v

    def e_index(self, e, fr):
        a = self.x(e.a, fr)
        i = self.x(e.i, fr)
        return self.idx(e, a, i)

    def e_call(self, e, fr):
        return self.call(e, fr, False)

    def call(self, e, fr, stmt):
        args = [self.x(a, fr) for a in e.args]
        return self.callf(e.f, args, e)

    def callf(self, name, args, node=None):
        f = self.funcs.get(name)
        if f is None:
            ff = self.foreign[name]
            try:
                return ff(self, args)
            except Unclaimed as u:
                if u.node is None:
                    u.node = node
                raise
        self.depth += 1
        if self.depth > self.max_depth:
            raise TooLong()
        if self.depth > self.maxdepth:
            self.maxdepth = self.depth
        fr = list(args) + [UNSET] * (f.nloc - len(args))
        r = None
        for s in f.body:
            r = self.st(s, fr)
            if r is not None:
                break
        self.depth -= 1
        if r is None:
            if f.ret != 'void':
                raise Unclaimed('function without return')
            return None
        return r.v


def dkey(k):
    if k is None or k != k:
        raise Unclaimed('key')
    return (type(k), k)


# ------------------------------------------------------------------ foreign functions of the driver

def spy(n, mode='a', k=0):
    def f(it, args):
        it.log_args('spy%d' % n, args)
        it.spycount[n] = it.spycount.get(n, 0) + 1
        if mode == 'a':
            return args[k] if k < len(args) else None
        if mode == 'c':
            return it.spycount[n]
        return None
    return f


def f_emit(it, args):
    it.log_args('emit', args)
    return None


def f_mknat(it, args):
    it.nats = getattr(it, 'nats', 0) + 1
    if it.nats > 3500:
        raise TooLong()
    return Nat(args[0])


def _setbox(it, args):
    args[0].v = args[1]


def _callback(it, args):
    return it.callf(args[0].decode('latin-1'), list(args[1:]))


def _mkstr(it, args):
    kind, seed, n = args
    if n < 0 or n > 4000 or seed < 0:
        raise Unclaimed('mkstr')
    return bytes((97 + (seed + i * (seed % 7 + 1)) % 26) for i in range(n))


# name: (signature, registered function, python function, argument types, result type)
HOST = {
    'emit': ('emit(...): void', 'emit', f_emit),
    'tint': ('tint(int): int', 'spy0', spy(0)),
    'tfloat': ('tfloat(float): float', 'spy1', spy(1)),
    'tbool': ('tbool(bool): bool', 'spy2', spy(2)),
    'tstr': ('tstr(str): str', 'spy3', spy(3)),
    'tany': ('tany(any): any', 'spy4', spy(4)),
    'tick': ('tick(...): int', 'spy5', spy(5, 'c')),
    'tpick': ('tpick(int, int, int): int', 'spy6', spy(6, 'a', 1)),
    'tlast': ('tlast(int, ...): any', 'last', lambda it, a: a[-1]),
    'argc': ('argc(...): int', 'argc', lambda it, a: len(a)),
    'mknat': ('mknat(int): nat', 'mknat', f_mknat),
    'natid': ('natid(nat): int', 'natid', lambda it, a: a[0].id),
    'box': ('box(any): box', 'box', lambda it, a: Box(a[0])),
    'unbox': ('unbox(box): any', 'unbox', lambda it, a: a[0].v),
    'setbox': ('setbox(box, any): void', 'setbox', _setbox),
    'callback': ('callback(str, ...): any', 'callback', _callback),
    'gc': ('gc(): void', 'gc', lambda it, a: None),
    'garbage': ('garbage(int): void', 'garbage', lambda it, a: None),
    'mkstr': ('mkstr(int, int, int): str', 'mkstr', _mkstr),
}
SPYMODES = {0: 'a0', 1: 'a0', 2: 'a0', 3: 'a0', 4: 'a0', 5: 'c', 6: 'a1'}


def arr_check(a, i, hi):
    if type(i) is not int or not 0 <= i < hi:
        raise Unclaimed('array index')


def _apop(it, a):
    if not a[0].v:
        raise Unclaimed('pop of empty')
    return a[0].v.pop()


def _ashift(it, a):
    if not a[0].v:
        raise Unclaimed('shift of empty')
    return a[0].v.pop(0)


def _aget(it, a):
    arr_check(a[0].v, a[1], len(a[0].v))
    return a[0].v[a[1]]


def _aset(it, a):
    arr_check(a[0].v, a[1], len(a[0].v))
    a[0].v[a[1]] = a[2]


def _ainsert(it, a):
    arr_check(a[0].v, a[1], len(a[0].v))
    a[0].v.insert(a[1], a[2])


def _aremove(it, a):
    arr_check(a[0].v, a[1], len(a[0].v))
    del a[0].v[a[1]]


def _apush(it, a):
    if len(a[0].v) > 3000:
        raise TooLong()
    a[0].v.append(a[1])


def _aresize(it, a):
    if a[1] < 0 or a[1] > 3000:
        raise Unclaimed('resize')
    v = a[0].v
    if a[1] > len(v):
        raise Unclaimed('resize fills with null')
    del v[a[1]:]


def _aresizefill(it, a):
    if a[1] < 0 or a[1] > 3000:
        raise Unclaimed('resize')
    v = a[0].v
    if a[1] < len(v):
        del v[a[1]:]
    else:
        v.extend([a[2]] * (a[1] - len(v)))


def array_foreign(name, elem):
    d = {
        name: lambda it, a: Arr(list(a)),
        name + '_clear': lambda it, a: a[0].v.clear(),
        name + '_resize': _aresize,
        name + '_resize_fill': _aresizefill,
        name + '_get': _aget,
        name + '_set': _aset,
        name + '_len': lambda it, a: len(a[0].v),
        name + '_push': _apush,
        name + '_pop': _apop,
        name + '_shift': _ashift,
        name + '_remove': _aremove,
        name + '_insert': _ainsert,
        name + '_get_index': _aget,
        name + '_set_index': _aset,
    }
    if elem == 'int':
        d[name + '_sort'] = lambda it, a: a[0].v.sort()
    return d


def _dict_new(it, a):
    d = DictV()
    if len(a) % 2:
        raise Unclaimed('dict with an odd number of arguments')
    for i in range(0, len(a), 2):
        d.d[dkey(a[i])] = (a[i], a[i + 1])
    return d


def dict_foreign(name):
    def put(it, a):
        a[0].d[dkey(a[1])] = (a[1], a[2])

    def remove(it, a):
        a[0].d.pop(dkey(a[1]), None)

    def get(it, a):
        return a[0].d.get(dkey(a[1]), (None, None))[1]
    return {
        name: _dict_new,
        name + '_put': put,
        name + '_exists': lambda it, a: dkey(a[1]) in a[0].d,
        name + '_get': get,
        name + '_remove': remove,
        name + '_clear': lambda it, a: a[0].d.clear(),
    }


def _substr(it, a):
    s, st, en = a
    if en == -1:
        en = len(s)
    if not (0 <= st <= en <= len(s)):
        raise Unclaimed('substr')
    return s[st:en]


def _strchr(it, a):
    s, c = a
    if c == 0:
        raise Unclaimed('strchr 0')
    return s.find(bytes([c & 255]))


def _strcat(it, a):
    for x in a:
        if type(x) is not bytes:
            raise Unclaimed('strcat')
    r = b''.join(a)
    if len(r) > 5000:
        raise TooLong()
    return r


def _stridx(it, a):
    s, i = a
    if not 0 <= i < len(s):
        raise Unclaimed('string index')
    return s[i] - 256 if s[i] > 127 else s[i]


def _toint(it, a):
    f = a[0]
    if f != f or not -9.2e18 < f < 9.2e18:
        raise Unclaimed('int()')
    return int(f)


def _fl(fn):
    def f(it, a):
        x = a[0]
        if x != x or abs(x) > 1e15:
            raise Unclaimed('floor')
        r = float(fn(x))
        if r == 0:
            raise Unclaimed('zero sign')
        return r
    return f


STD = {
    'strlen': lambda it, a: len(a[0]),
    'strcat': _strcat,
    'substr': _substr,
    'strchr': _strchr,
    'stridx': _stridx,
    'sget': _stridx,
    'int': _toint,
    'float': lambda it, a: float(a[0]),
    'int_to_str': lambda it, a: b'%d' % a[0],
    'floor': _fl(math.floor),
    'ceil': _fl(math.ceil),
}


# ------------------------------------------------------------------ printer

PREC = {'*': 5, '/': 5, '%': 5, '&': 5, '|': 5, '<<': 4, '>>': 4, '+': 4, '-': 4,
        '<': 3, '>': 3, '<=': 3, '>=': 3, '==': 3, '!=': 3, '&&': 2, '||': 2}


def str_lit(b, rng=None):
    out = ['"']
    for c in b:
        ch = chr(c)
        if ch == '"':
            out.append('\\"')
        elif ch == '\\':
            out.append('\\\\')
        elif ch == '\n':
            out.append('\\n')
        elif ch == '\t' and (rng is None or rng.random() < .5):
            out.append('\\t')
        elif ch == '\r':
            out.append('\\r')
        elif ch == '\b':
            out.append('\\b')
        elif ch == "'" and rng is not None and rng.random() < .5:
            out.append("\\'")
        else:
            out.append(ch)
    out.append('"')
    return ''.join(out)


def float_spell(v):
    s = repr(v)
    if 'e' in s or 'E' in s:
        s = '%.20f' % v
        if float(s) != v:
            from decimal import Decimal
            s = format(Decimal(v), 'f')
        if '.' not in s:
            s += '.0'
    return s


class Mark:
    """A marker in the token stream; gets the line of the token that follows / of the last token."""
    __slots__ = ('line', 'key')

    def __init__(self, key):
        self.key = key
        self.line = None


class Printer:
    """Turns trees into tokens (latin-1 text)."""

    def __init__(self, rng=None, extra_parens=0.0, arrow=True, comma_end=0.0):
        self.t = []
        self.rng = rng
        self.xp = extra_parens
        self.noarrow = False

    def e(self, e, full=True):
        """Prints an expression in a position where a whole expression may stand."""
        t = self.t
        if self.xp and self.rng.random() < self.xp:
            t.append('(')
            self.e0(e)
            t.append(')')
        else:
            self.e0(e)

    def e0(self, e):
        t = self.t
        k = e.k
        if k == 'bin':
            p = PREC[e.op]
            self.operand(e.a, p)
            t.append(e.op)
            self.operand(e.b, p + 1)
        elif k == 'tern':
            t.append('if')
            c = e.c
            # a condition that ends in a name would swallow an opening parenthesis
            self.cond(c)
            n = len(t)
            self.e(e.a)
            if t[n] in ('-', '(', '['):
                t.insert(n, '(')
                t.append(')')
            t.append('else')
            self.e(e.b)
        else:
            self.factor(e)

    def cond(self, c):
        t = self.t
        if c.k in ('bin', 'tern', 'un', 'id', 'dot') or self.rng is None or self.rng.random() < .5:
            t.append('(')
            self.e0(c)
            t.append(')')
        else:
            self.e0(c)

    def operand(self, e, minp):
        t = self.t
        k = e.k
        if (k == 'bin' and PREC[e.op] < minp) or k == 'tern' or \
                (self.xp and self.rng.random() < self.xp):
            t.append('(')
            self.e0(e)
            t.append(')')
        else:
            self.e0(e)

    def factor(self, e):
        """value with suffixes, or unary"""
        t = self.t
        k = e.k
        if k == 'un':
            t.append(e.op)
            if e.a.k in ('bin', 'tern'):
                t.append('(')
                self.e0(e.a)
                t.append(')')
            else:
                self.factor(e.a)
            return
        if k == 'lit':
            self.lit(e)
        elif k == 'id':
            t.append(e.name)
        elif k == 'paren':
            t.append('(')
            self.e0(e.a)
            t.append(')')
        elif k == 'cast':
            t += ['cast', '(']
            self.e(e.a)
            t += [',']
            self.type(e.t)
            t.append(')')
        elif k == 'new':
            t += ['new', e.name, '{']
            for i, a in enumerate(e.args):
                if i:
                    t.append(',')
                if e.names is not None:
                    t += ['.', e.names[i], '=']
                self.e(a)
            t.append('}')
        elif k == 'dot':
            self.prim(e.a)
            t += ['.', e.field]
        elif k == 'index':
            self.prim(e.a)
            t.append('[')
            self.e(e.i)
            t.append(']')
        elif k == 'call':
            args = e.args
            m = getattr(e, 'mark', None)
            if e.arrow and args and not self.noarrow:
                self.prim(args[0])
                args = args[1:]
                t.append('->')
            t.append(e.f)
            if m is not None:
                t.append(m)
            t.append('(')
            for i, a in enumerate(args):
                if i:
                    t.append(',')
                self.e(a)
            t.append(')')
        else:
            t.append('(')
            self.e0(e)
            t.append(')')

    def start(self, e):
        """The factor a statement starts with. It must not start with a parenthesis: after an
        identifier that would be a call."""
        n = len(self.t)
        self.factor(e)
        if self.t[n] == '(':
            del self.t[n:]
            old = self.noarrow, self.xp
            self.noarrow, self.xp = True, 0.0
            self.factor(e)
            self.noarrow, self.xp = old
            if self.t[n] == '(':
                raise ValueError('statement starts with a parenthesis')

    def prim(self, e):
        """something suffixes can be attached to"""
        if e.k in ('bin', 'tern', 'un') or (e.k == 'lit' and e.t in ('int', 'float')):
            self.t.append('(')
            self.e0(e)
            self.t.append(')')
        else:
            self.factor(e)

    def type(self, ty):
        n = tname(ty)
        if n.endswith('?'):
            self.t += [n[:-1], '?']
        else:
            self.t.append(n)

    def lit(self, e):
        t = self.t
        if e.sp is not None:
            if e.sp.startswith('-'):
                t += ['(', '-', e.sp[1:], ')']
            else:
                t.append(e.sp)
            return
        v = e.v
        if v is None:
            t.append('null')
        elif v is True:
            t.append('true')
        elif v is False:
            t.append('false')
        elif type(v) is int:
            if v < 0:
                t += ['(', '-', str(-v), ')']
            else:
                t.append(str(v))
        elif type(v) is float:
            if v < 0 or (v == 0 and math.copysign(1, v) < 0):
                t += ['(', '-', float_spell(-v), ')']
            else:
                t.append(float_spell(v))
        elif type(v) is bytes:
            t.append(str_lit(v, self.rng))
        else:
            raise ValueError(v)

    # ---- statements
    def s(self, s, step=False):
        t = self.t
        k = s.k
        m = getattr(s, 'mark0', None)
        if m is not None:
            t.append(m)
        if k == 'decl':
            t.append(s.name)
            if s.ty is not None:
                t.append(':')
                self.type(s.ty)
                t.append('=')
            else:
                t.append(':=')
            self.e(s.e)
        elif k == 'const':
            t += [s.name, '::']
            self.e0(s.e)
        elif k == 'assign':
            self.start(s.lhs)
            t.append(s.op)
            if self.xp and s.op != '=' and self.rng.random() < .5:
                t.append('(')
                self.e(s.e)
                t.append(')')
            else:
                self.e(s.e)
        elif k == 'expr':
            self.start(s.e)
        elif k == 'if':
            t.append('if')
            self.cond(s.c)
            self.s(s.a)
            if s.b is not None:
                t.append('else')
                self.s(s.b)
        elif k == 'block':
            t.append('{')
            for x in s.body:
                t.append('\n')
                self.s(x)
            t.append('\n')
            t.append('}')
        elif k == 'while':
            t.append('while')
            self.cond(s.c)
            self.s(s.body)
        elif k == 'for':
            t.append('for')
            self.s(s.init)
            t.append(';')
            self.cond(s.c)
            t.append(';')
            self.s(s.step)
            self.s(s.body)
        elif k == 'return':
            t.append('return')
            if s.e is None:
                t.append(';')
            else:
                self.e(s.e)
        elif k in ('break', 'continue'):
            t.append(k)
        elif k == 'raw':
            t += s.toks
        else:
            raise ValueError(k)
        m = getattr(s, 'mark1', None)
        if m is not None:
            t.append(m)

    def item(self, it):
        t = self.t
        if isinstance(it, Struc):
            t += ['struct', it.name, '{']
            for n, ty in it.fields:
                t += ['\n', n, ':']
                self.type(ty)
            t += ['\n', '}']
        elif isinstance(it, Func):
            m = getattr(it, 'mark0', None)
            if m is not None:
                t.append(m)
            t += ['func', it.name, '(']
            for i, (n, ty) in enumerate(it.params):
                if i:
                    t.append(',')
                t += [n, ':']
                self.type(ty)
            t.append(')')
            if it.ret != 'void' or getattr(it, 'explicit_void', False):
                t.append(':')
                self.type(it.ret)
            t.append('{')
            for s in it.body:
                t.append('\n')
                self.s(s)
            t += ['\n', '}']
        elif isinstance(it, tuple) and it[0] == 'use':
            _, mod, args, name = it
            t += ['use', mod, '(']
            for i, a in enumerate(args):
                if i:
                    t.append(',')
                t.append(str_lit(a.encode('latin-1') if isinstance(a, str) else a))
            t.append(')')
            if name:
                t += ['as', name]
        else:
            self.s(it)
        t.append('\n')


_word = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_.')
COMMENTS = ['// note', '//', '// x := "quoted" { ( [', '/// three', '// // twice', '//\t tab */ /*', "// it's"]


def layout(toks, style='normal', rng=None):
    """Joins tokens. Styles: normal, tight (as few blanks as possible), wild (anything legal)."""
    out = []
    line = 1
    depth = 0
    prev = None
    lastline = 1
    marks = []
    for t in toks:
        if isinstance(t, Mark):
            if t.key == 'last':
                t.line = lastline
            else:
                marks.append(t)
            continue
        if t == '\n':
            if style == 'normal':
                out.append('\n')
                line += 1
                prev = None
            elif style == 'wild' and rng.random() < .3:
                out.append('\n')
                line += 1
                prev = None
            continue
        if prev is not None:
            need = True
            a, b = prev[-1], t[0]
            if a in '(){}[],;"\'' or b in '(){}[],;"\'':
                need = a in '"\'' and b in '"\''
                if a in '"\'' and prev[0] not in '"\'':
                    need = True
            elif t == '.' or prev == '.':
                need = False
            elif (a in _word) != (b in _word):
                need = False
            if style == 'wild':
                r = rng.random()
                if r < .55 and not need:
                    pass
                elif r < .85:
                    out.append(rng.choice([' ', ' ', '  ', '\t', ' \t ']))
                elif r < .95:
                    nl = rng.choice(['\n', '\n\n', '\r\n', ' \n\t', '\n   '])
                    out.append(nl)
                    line += nl.count('\n')
                else:
                    out.append(' ' + rng.choice(COMMENTS) + '\n')
                    line += 1
            elif style == 'tight':
                if need:
                    out.append(' ')
            else:
                if need or b not in ',;)(].' and a not in '([.':
                    out.append(' ')
        elif style == 'normal' and depth:
            out.append('    ' * max(0, depth - (t == '}')))
        if t == '{':
            depth += 1
        elif t == '}':
            depth -= 1
        for m in marks:
            m.line = line
        marks = []
        out.append(t)
        lastline = line
        line += t.count('\n')
        prev = t
    for m in marks:
        m.line = line
    return ''.join(out)


def render(prog, style='normal', rng=None, extra_parens=0.0):
    p = Printer(rng, extra_parens)
    for it in prog.items:
        p.item(it)
    return layout(p.t, style, rng)


def render_items(items, style='normal', rng=None, extra_parens=0.0):
    p = Printer(rng, extra_parens)
    for it in items:
        p.item(it)
    return layout(p.t, style, rng)
