"""An independent front end: decides from the text alone whether it is a program of the language.

read(text) returns ('ok', Front) when the text conforms to the grammar, every name is declared before it is
used and every expression has the type its place requires, ('no', reason) when it does not, and (None, reason)
when the properties say nothing about the text (see DESIGN.md). The trees built are those of vlib.lang, so the
reference interpreter can run the text and predict what a run must do.
"""
import struct
from . import lang
from .lang import N, Program, Func, Struc, Interp, Unclaimed, TooLong, HOST, STD, Arr, Struct, DictV, Nat, Box
from checks.c23 import model


class Reject(Exception):
    pass


class Odd(Exception):
    pass


def unesc(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '%':
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


def lex(text):
    """[(kind, value)]; ends with EOF, ERROR or ODD"""
    out = []
    for l in model(text):
        if l == 'ODD':
            out.append(('ODD', None))
            return out
        if l.startswith('lexed'):
            break
        p = l.split(' ', 3)
        k = p[1]
        if k == 'EOF':
            out.append(('EOF', None))
            return out
        if k == 'ERROR':
            out.append(('ERROR', None))
            return out
        v = None
        if k == 'INT':
            v = int(p[3])
        elif k == 'CHAR':
            if p[3][0] == '~':
                out.append(('ODD', None))
                return out
            v = int(p[3])
        elif k == 'FLOAT':
            v = struct.unpack('<d', struct.pack('<Q', int(p[3][1:], 16)))[0]
        elif k == 'BOOL':
            v = p[3] == '1'
        elif k in ('IDENT', 'STRING'):
            v = unesc(p[3][1:-1])
            if k == 'IDENT':
                v = v.decode('latin-1')
        out.append((k, v))
    return out


OPS = {'STAR': ('*', 5), 'SLASH': ('/', 5), 'PERCENT': ('%', 5), 'AND': ('&', 5), 'OR': ('|', 5), 'SHIFT_LEFT': ('<<', 4), 'SHIFT_RIGHT': ('>>', 4), 'PLUS': ('+', 4), 'MINUS': ('-', 4),
       'LTE': ('<=', 3), 'GTE': ('>=', 3), 'EQUALS': ('==', 3), 'NOTEQUALS': ('!=', 3), 'LT': ('<', 3), 'GT': ('>', 3), 'LOG_AND': ('&&', 2), 'LOG_OR': ('||', 2)}
ASSIGN = {'EQUAL': '=', 'PLUSEQUAL': '+=', 'MINUSEQUAL': '-=', 'STAREQUAL': '*=', 'SLASHEQUAL': '/=', 'PERCENTEQUAL': '%=', 'OREQUAL': '|=', 'ANDEQUAL': '&='}
PRIMS = ('void', 'bool', 'int', 'float', 'str', 'any')

STDSIGS = '''strlen(str): int|stridx(str, int): int|sget(str, int): int|strchr(str, int): int|strcat(str, str, ...): str|substr(str, int, int): str|str_get_index(str, int): int|ston(str): float
str_to_int(str): int|int_to_str(int): str|ntos(...): str|stoi(str, int): int|time(): int|srand(int): void|rand(): int|floor(float): float|ceil(float): float|int(float): int|float(int): float
get_function_index(str): any|call_function(any, ...): any|perf_count(): int|perf_freq(): int|sleep(int): void|exit(int): void
dict(...): dict|dict_put(dict, any, any): void|dict_exists(dict, any): bool|dict_get(dict, any): any|dict_remove(dict, any): void|dict_keys(dict): array_any|dict_values(dict): array_any
dict_clear(dict): void|dict_get_index(dict, str): any|dict_set_index(dict, str, any): void|dict_str_int(...): dict_str_int|dict_str_int_put(dict_str_int, str, int): void
dict_str_int_exists(dict_str_int, str): bool|dict_str_int_get(dict_str_int, str): int|dict_str_int_remove(dict_str_int, str): void|dict_str_int_keys(dict_str_int): array_str
dict_str_int_clear(dict_str_int): void|int_to_i64(int): i64|i64_add_many(i64, ...): i64|i64_mul_many(i64, ...): i64|i64_to_string(i64): str'''.replace('\n', '|').split('|')
# bound as well, but nothing is said about their use here
OTHER = set('bool_to_json str_to_json int_to_json float_to_json get_executing_line debug_break'.split())
FOREIGN_TYPES = {'nat', 'box', 'dict', 'dict_str_int', 'i64', 'array_any', 'array_str'}


def parse_sig(s):
    n, rest = s.split('(', 1)
    a, ret = rest.rsplit('): ', 1)
    a = [x.strip() for x in a.split(',') if x.strip()]
    var = bool(a) and a[-1] == '...'
    return n, ([x for x in a if x != '...'], var, ret)


SIGS = dict(parse_sig(s) for s in STDSIGS + [h[0] for h in HOST.values()])


class Var:
    __slots__ = ('name', 'kind', 't', 'ended', 'value')

    def __init__(self, name, kind, t=None):
        self.name, self.kind, self.t, self.ended = name, kind, t, False


def assignable(src, dst):
    if src == 'void':
        return False
    if dst == 'any':
        return True
    if src == 'any':
        return False
    if dst[-1] == '?':
        return assignable(src[:-1] if src[-1] == '?' else src, dst[:-1])
    return src == dst


class Front:
    def __init__(self, text, depth=200):
        self.toks = lex(text)
        self.i = 0
        self.depth = 0
        self.maxdepth = depth
        self.p = Program()
        self.gl = {}
        self.func = None       # Func being parsed
        self.scope = 0
        self.args = {}
        self.locals = []       # [(scope, Var)]
        self.mentioned = set()
        self.uses = []
        self.odd = None        # why acceptance would not be claimed
        self.arrays = {}       # name -> element type
        self.kinds = {}
        self.sigs = dict(SIGS)
        self.espans = []       # where expressions and statements stand, in tokens
        self.sspans = []
        self.tops = []

    # ------------------------------------------------------------- tokens
    @property
    def k(self):
        t = self.toks[self.i][0]
        if t == 'ODD':
            raise Odd('token')
        return t

    @property
    def v(self):
        return self.toks[self.i][1]

    def next(self):
        if self.k == 'ERROR':
            raise Reject('lexer error')
        if self.k != 'EOF':
            self.i += 1

    def expect(self, kind):
        if self.k != kind:
            raise Reject('%s where %s is expected' % (self.k, kind))

    def nextexpect(self, kind):
        self.next()
        self.expect(kind)

    def flag(self, why):
        if self.odd is None:
            self.odd = why

    # ------------------------------------------------------------- names
    def look(self, name):
        if self.func is not None:
            for s, v in self.locals:
                if not v.ended and v.name == name:
                    return v
            if name in self.args:
                return self.args[name]
        return self.gl.get(name)

    def open(self):
        self.scope += 1

    def close(self):
        if self.func is not None:
            for s, v in self.locals:
                if s == self.scope:
                    v.ended = True
        self.scope -= 1

    def type(self):
        self.expect('IDENT')
        n = self.v
        self.mentioned.add(n)
        self.next()
        if self.k == 'QUESTION':
            if n == 'void':
                raise Reject('void?')
            if n == 'any':
                raise Odd('any?')
            self.next()
            n += '?'
        return n

    # ------------------------------------------------------------- grammar
    def program(self):
        if self.k == 'EOF':
            raise Odd('empty')
        while self.k != 'EOF':
            i = self.i
            if self.k == 'STRUCT':
                self.struct()
                self.sspans.append((i, self.i))
            else:
                s = self.statement()
                self.p.items.append(s)
            self.tops.append((i, self.i))

    def struct(self):
        self.nextexpect('IDENT')
        n = self.v
        if n in PRIMS or n in FOREIGN_TYPES:
            raise Odd('struct with the name of another type')
        if n in self.p.structs:
            raise Reject('struct defined twice')
        st = Struc(n, [])
        self.p.structs[n] = st
        self.nextexpect('OPENCURLY')
        self.next()
        while self.k != 'CLOSECURLY':
            self.expect('IDENT')
            f = self.v
            if any(f == x for x, t in st.fields):
                raise Reject('two fields of the same name')
            self.nextexpect('COLON')
            self.next()
            t = self.type()
            if t == 'void':
                self.flag('void field')
            st.fields.append((f, t))
            if len(st.fields) > 250:
                raise Odd('fields')
        self.next()
        if not st.fields:
            raise Reject('no fields')
        self.p.items.append(st)

    def function(self):
        if self.func is not None:
            raise Reject('function in function')
        if self.scope:
            raise Odd('function in block')
        self.nextexpect('IDENT')
        n = self.v
        if n in self.p.funcs or n in self.sigs or n in OTHER:
            raise Odd('two functions of one name')
        f = Func(n, [], 'void', [])
        self.p.funcs[n] = f
        self.func = f
        self.args = {}
        self.locals = []
        self.nextexpect('OPENPAREN')
        self.next()
        while self.k != 'CLOSEPAREN':
            self.expect('IDENT')
            a = self.v
            if a in self.args:
                raise Reject('two parameters of one name')
            var = self.args[a] = Var(a, 'arg')
            self.nextexpect('COLON')
            self.next()
            var.t = self.type()
            if var.t == 'void':
                self.flag('void parameter')
            f.params.append((a, var.t))
            if self.k not in ('CLOSEPAREN', 'COMMA'):
                raise Reject('parameter list')
            if self.k == 'COMMA':
                self.next()
                if self.k == 'CLOSEPAREN':
                    self.flag('trailing comma')
        self.next()
        if self.k == 'COLON':
            self.next()
            f.ret = self.type()
        self.open()
        if self.k != 'OPENCURLY':
            self.flag('function body without braces')
        b = self.statement()
        self.close()
        self.func = None
        f.body = b.body if b.k == 'block' else [b]
        if len(self.locals) > 250 or len(f.params) > 120:
            raise Odd('many')
        return f

    def statement(self):
        self.depth += 1
        if self.depth > self.maxdepth:
            raise Odd('deep')
        i = self.i
        try:
            s = self.statement_()
            self.sspans.append((i, self.i))
            return s
        finally:
            self.depth -= 1

    def branch(self):
        if self.k == 'USE':
            raise Reject('use inside something')
        return self.braceless(self.statement())

    def braceless(self, s):
        if not isinstance(s, N):
            raise Odd('function as the body of an if')
        if s.k == 'decl':
            self.flag('declaration as the body of an if')
        return s

    def statement_(self):
        k = self.k
        if k == 'OPENCURLY':
            self.next()
            self.open()
            body = []
            while self.k != 'CLOSECURLY':
                body.append(self.statement())
            self.next()
            self.close()
            return N('block', body=body)
        if k == 'FUNC':
            return self.function()
        if k == 'IF':
            self.next()
            c = self.expr()
            a = self.branch()
            b = None
            if self.k == 'ELSE':
                self.next()
                b = self.branch()
            return N('if', c=c, a=a, b=b)
        if k == 'WHILE':
            self.next()
            c = self.expr()
            self.open()
            b = self.statement()
            self.close()
            return N('while', c=c, body=b)
        if k == 'FOR':
            self.next()
            self.open()
            init = self.statement()
            self.expect('SEMI')
            self.next()
            c = self.expr()
            self.expect('SEMI')
            self.next()
            step = self.statement()
            for s in (init, step):
                if s.k not in ('decl', 'assign', 'expr'):
                    self.flag('for with an unusual statement in its head')
            body = self.statement()
            self.close()
            return N('for', init=init, c=c, step=step, body=body)
        if k == 'RETURN':
            if self.func is None:
                raise Reject('return outside a function')
            self.next()
            if self.k == 'SEMI':
                self.next()
                return N('return', e=None, fn=self.func)
            if self.func.ret == 'void':
                raise Reject('value returned from a void function')
            return N('return', e=self.expr(), fn=self.func)
        if k in ('BREAK', 'CONTINUE'):
            self.next()
            return N(k.lower())
        if k == 'USE':
            if self.func is not None or self.scope:
                raise Reject('use inside something')
            self.nextexpect('IDENT')
            name = self.v
            self.nextexpect('OPENPAREN')
            self.next()
            args = []
            while self.k != 'CLOSEPAREN':
                self.expect('STRING')
                args.append(self.v.decode('latin-1'))
                self.next()
                if self.k == 'COMMA':
                    self.next()
                    if self.k == 'CLOSEPAREN':
                        self.flag('trailing comma')
                elif self.k != 'CLOSEPAREN':
                    self.flag('no comma')
            self.next()
            as_ = None
            if self.k == 'IDENT' and self.v == 'as':
                self.nextexpect('IDENT')
                as_ = self.v
                self.next()
            self.uses.append((name, args, as_))
            return N('raw')
        lhs = self.factor()
        if lhs.k == 'call':
            return N('expr', e=lhs)
        op = self.k
        if op in ('DECLARE', 'COLON'):
            if lhs.k != 'id':
                raise Reject('declaration of something which is not a name')
            n = lhs.name
            if self.func is not None:
                for s, v in self.locals:
                    if not v.ended and v.name == n:
                        raise Reject('declared twice')
                var = Var(n, 'local')
                self.locals.append((self.scope, var))
            else:
                if n in self.gl:
                    raise Reject('declared twice')
                var = self.gl[n] = Var(n, 'global')
            ty = None
            if op == 'COLON':
                self.next()
                ty = var.t = self.type()
                self.expect('EQUAL')
            self.next()
            return N('decl', name=n, ty=ty, e=self.expr(), var=var)
        if op in OPS:
            raise Reject('expression as a statement')
        if op == 'DECLARECONST':
            if lhs.k != 'id':
                raise Reject('constant which is not a name')
            self.next()
            e = self.expr()
            if e.k != 'lit' or e.v is None:
                raise Reject('constant whose value is not a literal')
            if self.func is not None:
                raise Odd('constant in a function')
            if self.scope:
                self.flag('constant in a block')
            if lhs.name in self.gl:
                raise Reject('declared twice')
            var = self.gl[lhs.name] = Var(lhs.name, 'const', e.t)
            return N('const', name=lhs.name, e=e)
        if op not in ASSIGN:
            raise Reject('%s after an expression' % op)
        self.next()
        e = self.expr()
        if lhs.k not in ('id', 'dot', 'index'):
            raise Reject('assignment to something else')
        return N('assign', lhs=lhs, op=ASSIGN[op], e=e)

    def expr(self):
        self.depth += 1
        if self.depth > self.maxdepth:
            raise Odd('deep')
        i = self.i
        try:
            e = self.binary(0)
            self.espans.append((i, self.i))
            return e
        finally:
            self.depth -= 1

    def binary(self, least):
        """precedence climbing; all operators associate to the left"""
        a = self.factor()
        while self.k in OPS and OPS[self.k][1] >= least:
            op, prec = OPS[self.k]
            self.next()
            b = self.binary(prec + 1)
            a = N('bin', op=op, a=a, b=b)
        return a

    def factor(self):
        self.depth += 1
        if self.depth > self.maxdepth:
            raise Odd('deep')
        begin = self.i
        try:
            e = self.value()
            while True:
                self.espans.append((begin, self.i))
                k = self.k
                if k == 'OPENSQUARE':
                    self.next()
                    i = self.expr()
                    self.expect('CLOSESQUARE')
                    self.next()
                    e = N('index', a=e, i=i)
                elif k == 'ARROW':
                    self.nextexpect('IDENT')
                    n = self.v
                    self.nextexpect('OPENPAREN')
                    e = N('call', f=n, args=[e] + self.callargs(), arrow=True)
                elif k == 'DOT':
                    self.nextexpect('IDENT')
                    e = N('dot', a=e, field=self.v)
                    self.next()
                else:
                    return e
        finally:
            self.depth -= 1

    def callargs(self):
        self.next()
        args = []
        while self.k != 'CLOSEPAREN':
            args.append(self.expr())
            if self.k == 'COMMA':
                self.next()
                if self.k == 'CLOSEPAREN':
                    self.flag('trailing comma')
            elif self.k != 'CLOSEPAREN':
                raise Reject('argument list')
        self.next()
        return args

    def value(self):
        k, v = self.k, self.v
        if k == 'NULL':
            self.next()
            return N('lit', v=None, t='any')
        if k == 'BOOL':
            self.next()
            return N('lit', v=v, t='bool')
        if k in ('INT', 'CHAR'):
            self.next()
            return N('lit', v=v, t='int')
        if k == 'FLOAT':
            self.next()
            return N('lit', v=v, t='float')
        if k == 'STRING':
            self.next()
            return N('lit', v=v, t='str')
        if k == 'IDENT':
            self.next()
            if self.k == 'OPENPAREN':
                return N('call', f=v, args=self.callargs(), arrow=False)
            return N('id', name=v, var=self.look(v))
        if k in ('MINUS', 'BANG'):
            self.next()
            return N('un', op='-' if k == 'MINUS' else '!', a=self.factor())
        if k == 'OPENPAREN':
            self.next()
            e = self.expr()
            self.expect('CLOSEPAREN')
            self.next()
            return N('paren', a=e)
        if k == 'NEW':
            self.next()
            if self.k != 'IDENT':
                raise Odd('new without a name')
            n = self.v
            self.nextexpect('OPENCURLY')
            self.next()
            names, args = [], []
            while self.k != 'CLOSECURLY':
                if self.k == 'DOT':
                    self.nextexpect('IDENT')
                    names.append(self.v)
                    self.nextexpect('EQUAL')
                    self.next()
                args.append(self.expr())
                if self.k not in ('CLOSECURLY', 'COMMA'):
                    raise Reject('initialiser list')
                if self.k == 'COMMA':
                    self.next()
                    if self.k == 'CLOSECURLY':
                        self.flag('trailing comma')
            self.next()
            if names and len(names) != len(args):
                self.flag('some initialisers named')
            return N('new', name=n, args=args, names=names or None, mixed=bool(names) and len(names) != len(args))
        if k == 'CAST':
            self.nextexpect('OPENPAREN')
            self.next()
            e = self.expr()
            self.expect('COMMA')
            self.next()
            t = self.type()
            self.expect('CLOSEPAREN')
            self.next()
            return N('cast', a=e, ty=t)
        if k == 'IF':
            self.next()
            c = self.expr()
            a = self.expr()
            self.expect('ELSE')
            self.next()
            return N('tern', c=c, a=a, b=self.expr())
        raise Reject('unexpected ' + k)

    # ------------------------------------------------------------- modules
    def modules(self):
        for name, args, as_ in self.uses:
            if name != 'array':
                raise Odd('module ' + name)
            if len(args) != 1 or as_ is None:
                raise Reject('array needs one argument and a name')
            el = args[0]
            if as_ in self.arrays or (as_ in FOREIGN_TYPES and as_ != 'array_' + el) or as_ in PRIMS or as_ in self.p.structs:
                raise Odd('name given twice')
            if el not in PRIMS and el not in FOREIGN_TYPES and el not in self.p.structs:
                if el in self.mentioned or el in self.arrays:
                    raise Odd('element type')
                raise Reject('no such element type')
            if el in ('void', 'array_any', 'array_str') or (el == 'any' and as_ != 'array_any'):
                raise Odd('element type')
            fns = [x % ((as_,) + (as_,) * (x.count('%s') - 1)) for x in (
                '%s(...): %s', '%s_clear(%s): void', '%s_resize(%s, int): void', '%s_resize_fill(%s, int, EL): void', '%s_get(%s, int): EL', '%s_get_index(%s, int): EL', '%s_set(%s, int, EL): void',
                '%s_set_index(%s, int, EL): void', '%s_len(%s): int', '%s_push(%s, EL): void', '%s_pop(%s): EL', '%s_shift(%s): EL', '%s_remove(%s, int): void', '%s_insert(%s, int, EL): void')]
            if el == 'int':
                fns.append('%s_sort(%s): void' % (as_, as_))
            for f in fns:
                n, s = parse_sig(f)
                if n in self.p.funcs or n in self.sigs:
                    raise Odd('two functions of one name')
                self.sigs[n] = ([el if x == 'EL' else x for x in s[0]], s[1], el if s[2] == 'EL' else s[2])
            self.arrays[as_] = el

    # ------------------------------------------------------------- types
    def known(self, t):
        t = t.rstrip('?')
        return t in PRIMS or t in FOREIGN_TYPES or t in self.arrays or t in self.p.structs

    def sig(self, name):
        """(parameter types, variadic, result) or None"""
        f = self.p.funcs.get(name)
        if f is not None:
            return [t for n, t in f.params], False, f.ret
        if name in OTHER:
            raise Odd('function ' + name)
        return self.sigs.get(name)

    def check(self):
        for t in self.mentioned:
            if not self.known(t):
                self.flag('undefined type ' + t)
        for it in self.p.items:
            if isinstance(it, Func):
                for s in it.body:
                    self.st(s, 0)
            elif isinstance(it, N):
                self.st(it, 0)

    def cond(self, e):
        self.ty(e)
        if e.t != 'bool':
            raise Reject('condition of type ' + e.t)

    def st(self, s, loop):
        k = s.k
        self.kinds[k] = self.kinds.get(k, 0) + 1
        if k == 'decl':
            self.ty(s.e)
            if s.ty is None:
                if s.e.t == 'void':
                    raise Reject('void value')
                if s.e.k == 'lit' and s.e.v is None:
                    self.flag('null')
                s.var.t = s.e.t
            else:
                if not assignable(s.e.t, s.ty):
                    raise Reject('%s initialised with %s' % (s.ty, s.e.t))
                if mentions(s.e, s.var):
                    self.flag('initialised with itself')
        elif k == 'const':
            pass
        elif k == 'assign':
            if s.op == '=' and s.lhs.k == 'index':
                s.lhs.target = True
            self.ty(s.lhs)
            self.ty(s.e)
            l = s.lhs.t
            if s.op != '=':
                if l != 'int' and (l != 'float' or s.op in ('%=', '|=', '&=')):
                    raise Reject('%s on %s' % (s.op, l))
                if not simple(s.lhs):
                    self.flag('compound assignment to something computed')
            if not assignable(s.e.t, l):
                raise Reject('%s assigned to %s' % (s.e.t, l))
            if s.lhs.k == 'id' and s.lhs.var.kind == 'const':
                raise Reject('assignment to a constant')
            if s.lhs.k == 'index':
                g = self.sig(s.lhs.a.t + '_set_index')
                if g is None:
                    raise Reject('no set function')
                if len(g[0]) != 3 or g[1]:
                    self.flag('set function with other than three parameters')
                if len(g[0]) != 3 and not g[1]:
                    raise Reject('set function with %d parameters' % len(g[0]))
                for a, b in zip((s.lhs.a.t, s.lhs.i.t, s.e.t), g[0]):
                    if not assignable(a, b):
                        raise Reject('set function')
                if len(g[0]) == 3 and g[0][2] not in (l, 'any'):
                    self.flag('get and set disagree')
        elif k == 'expr':
            self.ty(s.e, True)
        elif k == 'if':
            self.cond(s.c)
            self.st(s.a, loop)
            if s.b is not None:
                self.st(s.b, loop)
        elif k == 'block':
            for x in s.body:
                self.st(x, loop)
        elif k == 'while':
            self.cond(s.c)
            self.st(s.body, 1)
        elif k == 'for':
            self.st(s.init, 0)
            self.cond(s.c)
            self.st(s.step, 0)
            self.st(s.body, 1)
        elif k == 'return':
            if s.e is None:
                if s.fn.ret != 'void':
                    raise Reject('return without value')
            else:
                self.ty(s.e)
                if not assignable(s.e.t, s.fn.ret):
                    raise Reject('%s returned for %s' % (s.e.t, s.fn.ret))
        elif k in ('break', 'continue'):
            if not loop:
                raise Reject(k + ' outside a loop')
        elif k != 'raw':
            raise ValueError(k)

    def ty(self, e, stmt=False):
        k = e.k
        self.kinds[k] = self.kinds.get(k, 0) + 1
        if k == 'lit':
            return
        if k == 'id':
            if e.var is None:
                raise Reject('%s is not declared' % e.name)
            if e.var.t is None:
                raise Reject('type of %s not known yet' % e.name)
            e.t = e.var.t
        elif k == 'paren':
            self.ty(e.a)
            e.t = e.a.t
        elif k == 'bin':
            self.ty(e.a)
            self.ty(e.b)
            a, b = e.a.t, e.b.t
            op = e.op
            num = a in ('int', 'float') and b in ('int', 'float')
            if op in ('+', '-', '*', '/'):
                if not num:
                    raise Reject('%s %s %s' % (a, op, b))
                e.t = 'int' if a == b == 'int' else 'float'
            elif op in ('%', '&', '|', '<<', '>>'):
                if not a == b == 'int':
                    raise Reject('%s %s %s' % (a, op, b))
                e.t = 'int'
            elif op in ('<', '>', '<=', '>='):
                if not num:
                    raise Reject('%s %s %s' % (a, op, b))
                e.t = 'bool'
            elif op in ('&&', '||'):
                if not a == b == 'bool':
                    raise Reject('%s %s %s' % (a, op, b))
                e.t = 'bool'
            else:
                if 'void' in (a, b):
                    raise Reject('void compared')
                e.t = 'bool'
        elif k == 'un':
            self.ty(e.a)
            if e.a.t not in (('int', 'float') if e.op == '-' else ('bool',)):
                raise Reject('%s %s' % (e.op, e.a.t))
            e.t = e.a.t
        elif k == 'tern':
            self.cond(e.c)
            self.ty(e.a)
            self.ty(e.b)
            if e.a.t != e.b.t:
                raise Reject('%s or %s' % (e.a.t, e.b.t))
            e.t = e.a.t
            if e.t == 'void':
                self.flag('void choice')
        elif k == 'cast':
            self.ty(e.a)
            if e.a.t == 'void' or (e.a.t != 'any' and e.ty != 'any'):
                raise Reject('cast of %s to %s' % (e.a.t, e.ty))
            if e.ty == 'void':
                self.flag('cast to void')
            e.t = e.ty
        elif k == 'dot':
            self.ty(e.a)
            st = self.p.structs.get(e.a.t)
            if st is None:
                raise Reject('. on ' + e.a.t)
            for n, t in st.fields:
                if n == e.field:
                    e.t = t
                    break
            else:
                raise Reject('no field ' + e.field)
        elif k == 'new':
            st = self.p.structs.get(e.name)
            if st is None:
                raise Reject('new of %s' % e.name)
            if e.names and len(set(e.names)) != len(e.names):
                raise Reject('field given twice')
            for a in e.args:
                self.ty(a)
            if e.mixed:
                raise Reject('some initialisers named')
            if len(e.args) != len(st.fields):
                raise Reject('number of initialisers')
            types = dict(st.fields)
            for i, a in enumerate(e.args):
                if e.names:
                    if e.names[i] not in types:
                        raise Reject('no field ' + e.names[i])
                    t = types[e.names[i]]
                else:
                    t = st.fields[i][1]
                if not assignable(a.t, t):
                    raise Reject('%s for a field of type %s' % (a.t, t))
            e.t = e.name
        elif k == 'call':
            s = self.sig(e.f)
            if s is None:
                raise Reject('no function ' + e.f)
            ps, var, e.t = s
            for i, a in enumerate(e.args):
                self.ty(a)
                if i < len(ps):
                    if not assignable(a.t, ps[i]):
                        raise Reject('%s for a parameter of type %s' % (a.t, ps[i]))
                elif not var:
                    raise Reject('too many arguments')
                elif a.t == 'void':
                    self.flag('void as a variable argument')
            if len(e.args) < len(ps):
                raise Reject('too few arguments')
        elif k == 'index':
            self.ty(e.a)
            self.ty(e.i)
            s = self.sig(e.a.t + '_get_index')
            if s is None:
                raise Reject('[] on ' + e.a.t)
            if len(s[0]) != 2 and getattr(e, 'target', False):
                # it is not called
                self.flag('get function of a target with other than two parameters')
            elif len(s[0]) != 2 and not s[1]:
                raise Reject('get function with %d parameters' % len(s[0]))
            if len(s[0]) != 2:
                self.flag('variadic get function')
            for a, b in zip((e.a.t, e.i.t), s[0]):
                if not assignable(a, b):
                    raise Reject('%s for the get function of %s' % (e.i.t, e.a.t))
            if s[2] == 'void':
                self.flag('get function without a result')
            e.t = s[2]
        else:
            raise ValueError(k)


def kids(e):
    k = e.k
    if k in ('bin',):
        return [e.a, e.b]
    if k in ('un', 'paren', 'cast', 'dot'):
        return [e.a]
    if k == 'tern':
        return [e.c, e.a, e.b]
    if k in ('call', 'new'):
        return e.args
    if k == 'index':
        return [e.a, e.i]
    return []


def mentions(e, var):
    return (e.k == 'id' and e.var is var) or any(mentions(x, var) for x in kids(e))


def simple(e):
    """may be evaluated twice without anybody noticing"""
    return e.k not in ('call', 'new', 'tern') and (e.k != 'index' or e.a.t in ('array_int', 'array_float')) and all(simple(x) for x in kids(e))


def read(text):
    f = None
    try:
        f = Front(text)
        f.program()
        f.modules()
        f.check()
    except Reject as e:
        return 'no', str(e)
    except Odd as e:
        return None, str(e)
    if f.odd:
        return None, f.odd
    return 'ok', f


# ------------------------------------------------------------------ running

class Run(Interp):
    """The reference interpreter, made to stop where the properties say nothing."""

    def __init__(self, front, **kw):
        fo = {k: h[2] for k, h in HOST.items()}
        fo.update(STD)
        fo.update(lang.dict_foreign('dict'))
        for n, el in front.arrays.items():
            fo.update(lang.array_foreign(n, el))
            fo[n] = lambda it, a, el=el: it.mkarr(el, a)
        for n, lo, hi in (('mknat', 0, 1 << 31), ('garbage', 0, 500)):
            fo[n] = lambda it, a, f=fo[n], lo=lo, hi=hi: f(it, a) if type(a[0]) is int and lo <= a[0] < hi else self.never()
        fo['callback'] = self.called
        self.front = front
        Interp.__init__(self, front.p, fo, **kw)

    def never(self):
        raise Unclaimed('value')

    def fits(self, v, t):
        if t == 'any':
            return True
        if t[-1] == '?':
            return v is None or self.fits(v, t[:-1])
        if t in ('int', 'float', 'bool', 'str'):
            return type(v) is {'int': int, 'float': float, 'bool': bool, 'str': bytes}[t]
        if t in self.structs:
            return v is None or type(v) is Struct and v.name == t
        if t in ('nat', 'box', 'dict'):
            return v is None or type(v) is {'nat': Nat, 'box': Box, 'dict': DictV}[t]
        if t in self.front.arrays:
            return v is None or type(v) is Arr and len(self.front.arrays) == 1
        return False

    @staticmethod
    def called(it, a):
        f = it.funcs.get(a[0].decode('latin-1')) if type(a[0]) is bytes else None
        if f is None or f.ret == 'void' or len(a) - 1 != len(f.params) or not all(it.fits(v, t) for v, (n, t) in zip(a[1:], f.params)):
            raise Unclaimed('callback')
        return it.callf(f.name, list(a[1:]))

    def mkarr(self, el, a):
        for v in a:
            if not self.fits(v, el):
                raise Unclaimed('element')
        return Arr(list(a))

    def e_cast(self, e, fr):
        v = self.x(e.a, fr)
        if not self.fits(v, e.ty):
            raise Unclaimed('cast')
        return v

    def idx(self, e, a, i):
        f = e.a.t + '_get_index'
        return self.callf(f, [a, i]) if f in self.funcs else Interp.idx(self, e, a, i)

    def setidx(self, e, a, i, v):
        f = e.a.t + '_set_index'
        if f in self.funcs:
            self.callf(f, [a, i, v])
        else:
            Interp.setidx(self, e, a, i, v)

    def arith(self, op, a, b, node):
        r = Interp.arith(self, op, a, b, node)
        if type(r) is float and (r != r or r in (float('inf'), float('-inf'))):
            raise Unclaimed('not finite')
        return r


def run(front, max_steps=6000):
    """Events of a run of the program, or None where nothing is said about one."""
    try:
        it = Run(front, max_steps=max_steps)
        it.run()
        return it.ev
    except (Unclaimed, TooLong):
        return None
    except lang.ScopeError:
        raise
    except (TypeError, AttributeError, KeyError, ValueError, IndexError, AssertionError, OverflowError):
        return None
