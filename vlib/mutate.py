"""Finds the places of a program tree where something of a required type stands, and breaks one."""
import copy
from .lang import *


def clone(prog):
    """Independent copy of a program's trees (symbols are not copied)."""
    memo = {}

    def cp(x):
        if isinstance(x, N):
            n = N(x.k)
            for k, v in x.__dict__.items():
                if k == 'sym':
                    continue
                n.__dict__[k] = cp(v)
            return n
        if isinstance(x, Func):
            f = Func(x.name, list(x.params), x.ret, [cp(s) for s in x.body])
            f.explicit_void = getattr(x, 'explicit_void', False)
            return f
        if isinstance(x, Struc):
            return Struc(x.name, list(x.fields))
        if isinstance(x, list):
            return [cp(y) for y in x]
        return x
    p = Program()
    p.items = [cp(i) for i in prog.items]
    for i in p.items:
        if isinstance(i, Struc):
            p.structs[i.name] = i
        elif isinstance(i, Func):
            p.funcs[i.name] = i
    return p


class Slot:
    """A place holding an expression. want: None (anything), or the required static type, or a tuple
    ('num',) ('numlike', other type) ('bool',) ('int',) ('nonvoid',)"""
    __slots__ = ('owner', 'key', 'want', 'fn', 'ctx')

    def __init__(self, owner, key, want, fn, ctx):
        self.owner, self.key, self.want, self.fn, self.ctx = owner, key, want, fn, ctx

    def get(self):
        return self.owner[self.key] if isinstance(self.owner, list) else getattr(self.owner, self.key)

    def set(self, e):
        if isinstance(self.owner, list):
            self.owner[self.key] = e
        else:
            setattr(self.owner, self.key, e)


# parameter types of foreign functions: name -> (types, variadic)
SIGS = {
    'tint': (['int'], False), 'tfloat': (['float'], False), 'tbool': (['bool'], False), 'tstr': (['str'], False),
    'tany': (['any'], False), 'tpick': (['int', 'int', 'int'], False), 'tlast': (['int'], True),
    'mknat': (['int'], False), 'natid': (['nat'], False), 'box': (['any'], False), 'unbox': (['box'], False),
    'setbox': (['box', 'any'], False), 'garbage': (['int'], False), 'mkstr': (['int', 'int', 'int'], False),
    'gc': ([], False), 'callback': (['str'], True),
    'strlen': (['str'], False), 'strcat': (['str', 'str'], True), 'substr': (['str', 'int', 'int'], False),
    'strchr': (['str', 'int'], False), 'stridx': (['str', 'int'], False), 'int': (['float'], False),
    'float': (['int'], False), 'int_to_str': (['int'], False), 'floor': (['float'], False), 'ceil': (['float'], False),
}


def arr_sig(name, elem):
    a = ('A', elem)
    return {
        name + '_clear': ([a], False), name + '_resize': ([a, 'int'], False),
        name + '_get': ([a, 'int'], False), name + '_set': ([a, 'int', elem], False), name + '_len': ([a], False),
        name + '_push': ([a, elem], False), name + '_pop': ([a], False), name + '_shift': ([a], False),
        name + '_remove': ([a, 'int'], False), name + '_insert': ([a, 'int', elem], False),
        name + '_get_index': ([a, 'int'], False), name + '_set_index': ([a, 'int', elem], False),
    }


class Walk:
    """Collects expression slots, statement lists and uses of names of a program."""

    def __init__(self, prog, extra_sigs=None):
        self.p = prog
        self.slots = []
        self.blocks = []     # (list of statements, Func or None, loop depth)
        self.stmts = []      # (statement, owner list, index, fn)
        self.sigs = dict(SIGS)
        if extra_sigs:
            self.sigs.update(extra_sigs)
        for i, it in enumerate(prog.items):
            if isinstance(it, Func):
                self.block(it.body, it, 0)
            elif isinstance(it, N):
                self.stmts.append((it, prog.items, i, None))
                self.st(it, None, 0)
        self.top = prog.items

    def block(self, b, fn, loop):
        self.blocks.append((b, fn, loop))
        for i, s in enumerate(b):
            self.stmts.append((s, b, i, fn))
            self.st(s, fn, loop)

    def slot(self, owner, key, want, fn, ctx):
        s = Slot(owner, key, want, fn, ctx)
        self.slots.append(s)
        self.ex(s.get(), fn)

    def key_type(self, base, which='get'):
        """Type of the key (or, for 'value', of the assigned value) of an index expression on this base."""
        t = base.t
        if t == 'dict':
            return 'str' if which != 'value' else 'any'
        if isinstance(t, tuple) and t[0] == 'S':
            f = self.p.funcs.get(t[1] + ('_get_index' if which == 'get' else '_set_index'))
            if f is None:
                return None
            return f.params[2 if which == 'value' else 1][1]
        return 'int' if which != 'value' else None

    def st(self, s, fn, loop):
        k = s.k
        if k == 'decl':
            self.slot(s, 'e', s.ty if s.ty is not None else ('nonvoid',), fn, 'decl')
        elif k == 'assign':
            l = s.lhs
            if l.k == 'dot':
                self.slot(l, 'a', None, fn, 'dotbase')
            elif l.k == 'index':
                self.slot(l, 'a', None, fn, 'idxbase')
                self.slot(l, 'i', self.key_type(l.a), fn, 'index')
            want = l.t
            if s.op != '=':
                want = ('compound', l.t, s.op)
            elif l.k == 'index':
                want = self.key_type(l.a, 'value') or l.t
            self.slot(s, 'e', want, fn, 'assign')
        elif k == 'expr':
            self.slot(s, 'e', None, fn, 'stmt')
        elif k == 'if':
            self.slot(s, 'c', 'bool', fn, 'cond')
            self.sub(s.a, fn, loop)
            if s.b is not None:
                self.sub(s.b, fn, loop)
        elif k == 'block':
            self.block(s.body, fn, loop)
        elif k == 'while':
            self.slot(s, 'c', 'bool', fn, 'cond')
            self.sub(s.body, fn, loop + 1)
        elif k == 'for':
            self.st(s.init, fn, loop)
            self.slot(s, 'c', 'bool', fn, 'cond')
            self.st(s.step, fn, loop)
            self.sub(s.body, fn, loop + 1)
        elif k == 'return':
            if s.e is not None and fn is not None:
                self.slot(s, 'e', fn.ret, fn, 'return')

    def sub(self, s, fn, loop):
        if s.k == 'block':
            self.block(s.body, fn, loop)
        else:
            self.st(s, fn, loop)

    def ex(self, e, fn):
        k = e.k
        if k == 'bin':
            op = e.op
            if op in ('&&', '||'):
                w = ('bool', 'bool')
            elif op in ('&', '|', '%', '<<', '>>'):
                w = ('int', 'int')
            elif op in ('==', '!='):
                w = (('nonvoid',), ('nonvoid',))
            else:
                w = (('num',), ('num',))
            self.slot(e, 'a', w[0], fn, 'operand ' + op)
            self.slot(e, 'b', w[1], fn, 'operand ' + op)
        elif k == 'un':
            self.slot(e, 'a', 'bool' if e.op == '!' else ('num',), fn, 'operand unary ' + e.op)
        elif k == 'paren':
            self.slot(e, 'a', None, fn, 'paren')
        elif k == 'cast':
            self.slot(e, 'a', ('cast', e.t), fn, 'cast')
        elif k == 'dot':
            self.slot(e, 'a', None, fn, 'dotbase')
        elif k == 'tern':
            self.slot(e, 'c', 'bool', fn, 'cond')
            self.slot(e, 'a', ('same', e.b), fn, 'ternary')
            self.slot(e, 'b', ('same', e.a), fn, 'ternary')
        elif k == 'index':
            self.slot(e, 'a', None, fn, 'idxbase')
            self.slot(e, 'i', self.key_type(e.a), fn, 'index')
        elif k == 'new':
            st = self.p.structs[e.name]
            for i in range(len(e.args)):
                if e.names is None:
                    t = st.fields[i][1]
                else:
                    t = dict(st.fields)[e.names[i]]
                self.slot(e.args, i, t, fn, 'field of new')
        elif k == 'call':
            f = self.p.funcs.get(e.f)
            for i in range(len(e.args)):
                want = None
                if f is not None:
                    want = f.params[i][1]
                elif e.f in self.sigs:
                    ps, va = self.sigs[e.f]
                    if i < len(ps):
                        want = ps[i]
                self.slot(e.args, i, want, fn, 'argument')


def static(t):
    """Printed static type: 'any' for any-values."""
    if isinstance(t, tuple) and t[0] == 'any':
        return 'any'
    return t


def assignable(t, to):
    t, to = static(t), static(to)
    if t == 'void':
        return False
    if to == 'any':
        return True
    if t == 'any':
        return False
    if isinstance(to, tuple) and to[0] == 'opt':
        return t == to or t == to[1]
    return t == to


def ok(t, want):
    """May an expression of static type t stand where `want` is required?"""
    t = static(t)
    if want is None:
        return True
    if isinstance(want, tuple):
        k = want[0]
        if k == 'nonvoid':
            return t != 'void'
        if k == 'num':
            return t in ('int', 'float')
        if k == 'compound':
            return t == want[1]
        if k == 'same':
            return True
        if k == 'cast':
            return True
    return assignable(t, want)


def wrong_exprs(prog):
    """Closed expressions of many static types (the program must contain struct Wrong)."""
    out = [
        lit('int', 3), lit('float', 2.5), lit('bool', True), lit('str', b'wrong'),
        N('cast', a=lit('int', 1), t=('any', 'int')),
        N('new', name='Wrong', args=[lit('int', 1)], names=None, t=('S', 'Wrong')),
        N('cast', a=N('cast', a=lit('int', 1), t=('any', 'int')), t=('opt', 'int')),
        N('cast', a=N('cast', a=lit('str', b'a'), t=('any', 'str')), t=('opt', 'str')),
        N('cast', a=N('cast', a=lit('bool', True), t=('any', 'bool')), t=('opt', 'bool')),
        N('cast', a=lit(('any', 'int'), None), t=('opt', ('S', 'Wrong'))),
        call('emit', [], 'void'), call('gc', [], 'void'),
        call('mknat', [lit('int', 4)], 'nat'), call('box', [lit('int', 4)], 'box'),
        call('tint', [lit('int', 4)], 'int'), call('tfloat', [lit('float', 4.0)], 'float'),
        call('tstr', [lit('str', b's')], 'str'), call('tbool', [lit('bool', False)], 'bool'),
        call('tlast', [lit('int', 1)], ('any', 'int')),
        call('dict', [], 'dict'),
    ]
    for n in prog.structs:
        if n != 'Wrong':
            out.append(N('cast', a=lit(('any', 'int'), None), t=('S', n)))
            out.append(N('cast', a=lit(('any', 'int'), None), t=('opt', ('S', n))))
    return out
