"""Edits of the tokens of a program after which it may or may not still be a program."""
import re

TYPES = [b'int', b'float', b'bool', b'str', b'any', b'nat', b'box', b'dict', b'void', b'int?', b'str?', b'float?', b'nat?', b'array_int']
LITS = [b'0', b'1', b'2', b'7', b'2.5', b'1.0', b'true', b'false', b'null', b'"s"', b'"ab"', b"'a'", b'cast(1, any)', b'cast(null, int?)', b'(1)', b'-1', b'!true', b'0x1f']
BIN = [b'+', b'-', b'*', b'/', b'%', b'&', b'|', b'<<', b'>>', b'<', b'>', b'<=', b'>=', b'==', b'!=', b'&&', b'||']
ASG = [b'=', b'+=', b'-=', b'*=', b'/=', b'%=', b'&=', b'|=', b':=', b'::']
OPEN = {b'(': b')', b'{': b'}', b'[': b']'}
PUNCT = [b'(', b')', b'{', b'}', b'[', b']', b',', b';', b':', b'.', b'->', b'?', b'...', b'!', b'-']
KW = [b'if', b'else', b'while', b'for', b'func', b'struct', b'new', b'cast', b'use', b'return', b'break', b'continue', b'null', b'true', b'foreach', b'foreign']
SNIPS = [b'x := 1', b'return', b'return;', b'return 1', b'break', b'continue', b'{ }', b'emit(1)', b'gc()', b'struct Zz { z: int }', b'func zz(): int { return 3 }', b'zz()', b'new Zz { 1 }', b'Kk :: 3', b'emit(Kk)',
         b'if true { }', b'if true 1 else 2', b'while false { break }', b'for q := 0; q < 2; q += 1 { continue }', b'use array("int") as arr_i', b'arr_i(1)', b'x: int = 2', b'x: any = 2', b'x: int? = 2', b'x = null',
         b'else { }', b'else emit(2)', b'func yy(a: int, b: str) { emit(a) }', b'yy(1, "s")', b'struct Ww { w: Ww v: int? }', b'emit(gc())', b'tint(1)', b'tlast(1, 2)', b'x.y', b'x[0]', b'x -> tint()', b'x -> emit()']
IDENT = re.compile(rb'[A-Za-z][A-Za-z0-9_]*\Z')
KEY = set(KW + [b'int', b'float', b'bool', b'str', b'any', b'void', b'false', b'as'])
SP = re.compile(rb'\s+\Z')
SPLIT = re.compile(rb'"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])\'|[A-Za-z_][A-Za-z_0-9]*|0x[0-9a-fA-F]+|[0-9]+(?:\.[0-9]*)?|//[^\n]*|\s+|\.\.\.|:=|::|==|!=|<=|>=|&&|\|\||->|<<|>>|[-+*/%&|]=|.', re.S)


def toks(src):
    """tokens without the space between"""
    return [t for t in SPLIT.findall(src) if not SP.match(t) and t[:2] != b'//']


def text(r, t):
    out = bytearray()
    for x in t:
        out += x
        out += b'\n' if x in (b'}',) or r.random() < .08 else b' '
    return bytes(out)


def group(t, i):
    """end (exclusive) of the bracketed group that begins at i"""
    d = 0
    for j in range(i, len(t)):
        if t[j] in OPEN:
            d += 1
        elif t[j] in (b')', b'}', b']'):
            d -= 1
            if d == 0:
                return j + 1
    return None


def islit(x):
    return x[:1].isdigit() or x[:1] in (b'"', b"'") or x in (b'true', b'false', b'null')


def kind(x):
    if x in BIN:
        return 'bin'
    if x in ASG:
        return 'asg'
    if islit(x):
        return 'lit'
    if IDENT.match(x) and x not in KEY:
        return 'id'
    if x in TYPES:
        return 'type'
    return 'other'


def edit(r, t, other=()):
    """One edit; returns what was done."""
    n = len(t)
    if n < 3:
        return 'none'
    k = r.random()
    if k < .68:
        # another one of the same kind
        for _ in range(12):
            i = r.randrange(n)
            q = kind(t[i])
            if q != 'other':
                break
        if q == 'id':
            typ = i > 0 and t[i - 1] == b':'
            ids = [x for x in t if kind(x) == 'id'] + (TYPES * 2 if typ else [])
            fld = i > 0 and t[i - 1] == b'.'
            cal = i + 1 < n and t[i + 1] == b'('
            if r.random() < .7:
                same = [x for j, x in enumerate(t) if kind(x) == 'id' and (j > 0 and t[j - 1] == b'.') == fld and (j + 1 < n and t[j + 1] == b'(') == cal]
                ids = same or ids
            t[i] = r.choice(ids)
            if not fld and not cal and r.random() < .1:
                t[i] = r.choice(LITS)
        elif q == 'lit':
            t[i] = r.choice(LITS)
            if r.random() < .3:
                ids = [x for x in t if kind(x) == 'id']
                if ids:
                    t[i] = r.choice(ids)
        elif q == 'bin':
            t[i] = r.choice(BIN)
        elif q == 'asg':
            t[i] = r.choice(ASG)
        elif q == 'type':
            t[i] = r.choice(TYPES + [x for j, x in enumerate(t) if j and t[j - 1] in (b'struct', b'new')])
        return 'replace ' + q
    if k < .72:
        del t[r.randrange(n)]
        return 'delete'
    if k < .745:
        i = r.randrange(n)
        t.insert(i, t[i])
        return 'double'
    if k < .77:
        i = r.randrange(n - 1)
        t[i], t[i + 1] = t[i + 1], t[i]
        return 'swap'
    if k < .8:
        t.insert(r.randrange(n + 1), r.choice(r.choice([PUNCT, KW, BIN, ASG, LITS, TYPES])))
        return 'insert'
    if k < .835:
        t.insert(r.randrange(n + 1), r.choice(SNIPS))
        return 'insert statement'
    if k < .87:
        # a bracketed group goes, doubles, or changes place with another
        opens = [i for i in range(n) if t[i] in OPEN]
        if not opens:
            return 'none'
        i = r.choice(opens)
        e = group(t, i)
        if e is None:
            return 'none'
        m = r.randrange(4)
        if m == 0:
            del t[i:e]
        elif m == 1:
            del t[e - 1]
            del t[i]
        elif m == 2:
            t[e:e] = t[i:e]
        else:
            j = r.choice([x for x in opens if t[x] == t[i]])
            f = group(t, j)
            if f is None or not (f <= i or j >= e):
                return 'none'
            a, b = sorted([(i, e), (j, f)])
            t[:] = t[:a[0]] + t[b[0]:b[1]] + t[a[1]:b[0]] + t[a[0]:a[1]] + t[b[1]:]
        return 'groups'
    if k < .9:
        # two expressions in an argument list change places, or one goes
        c = [i for i in range(n) if t[i] == b',']
        if not c:
            return 'none'
        i = r.choice(c)
        if r.random() < .4:
            j = min(n, i + 2)
            del t[i:j]
        elif 0 < i < n - 1:
            t[i - 1], t[i + 1] = t[i + 1], t[i - 1]
        return 'arguments'
    if k < .94:
        # a run of tokens moves or is copied
        i = r.randrange(n)
        j = min(n, i + r.choice([2, 3, 4, 5, 8, 12, 20]))
        s = t[i:j]
        m = r.random()
        if m < .5:
            del t[i:j]
        p = r.randrange(len(t) + 1)
        if m < .3 or m >= .5:
            t[p:p] = s
        return 'run'
    if k < .97 and other:
        i = r.randrange(len(other))
        t[r.randrange(n):0] = other[i:i + r.choice([1, 3, 6, 15])]
        return 'splice'
    # parentheses around one token
    i = r.randrange(n)
    t[i:i + 1] = [b'(', t[i], b')']
    return 'parenthesise'


def trees(r, t, espans, sspans, other=None):
    """One edit that keeps the text grammatical: an expression or statement is replaced by another one (of
    this program or another), moved, doubled or dropped. Returns the new tokens and what was done."""
    k = r.random()
    ot, oe, os_ = other or (t, espans, sspans)
    if k < .62 and espans and oe:
        a, b = r.choice(espans)
        short = [x for x in oe if x[1] - x[0] <= 12]
        c, d = r.choice(short or oe)
        return t[:a] + ot[c:d] + t[b:], 'expression'
    if k < .7 and espans:
        a, b = r.choice(espans)
        c, d = r.choice(espans)
        if b <= c:
            return t[:a] + t[c:d] + t[b:c] + t[a:b] + t[d:], 'expressions'
        return t[:a] + r.choice([[b'('] + t[a:b] + [b')'], [b'!'] + t[a:b], [b'-'] + t[a:b], [b'cast', b'('] + t[a:b] + [b',', r.choice(TYPES), b')'],
                                 [b'if', b'true'] + t[a:b] + [b'else'] + t[c:d], t[a:b] + [r.choice(BIN)] + t[c:d], t[a:b] + [b'->', b'tint', b'(', b')']]) + t[b:], 'wrapped'
    if not sspans or not os_:
        return t, 'none'
    a, b = r.choice(sspans)
    c, d = r.choice(os_)
    if k < .85:
        if not a <= c < b and not c <= a < d or other:
            return t[:a] + ot[c:d] + t[a:], 'statement copied'
        return t[:a] + [r.choice(SNIPS)] + t[a:], 'statement inserted'
    if k < .92:
        return t[:a] + t[b:], 'statement dropped'
    if b <= c and not other:
        return t[:a] + t[c:d] + t[b:c] + t[a:b] + t[d:], 'statements'
    return t[:a] + [r.choice([b'{ ', b'if true { ', b'while false { ', b'for zq := 0; zq < 1; zq += 1 { '])] + t[a:b] + [b'}'] + t[b:], 'statement wrapped'


def lines(r, src):
    """Statements (lines) of a program printed normally change place, double, go or get a neighbour."""
    l = src.split(b'\n')
    plain = [i for i, x in enumerate(l) if x.strip() and not x.rstrip().endswith(b'{') and not x.strip().startswith(b'}') and x.count(b'{') == x.count(b'}')]
    if not plain:
        return src
    i = r.choice(plain)
    k = r.random()
    x = l[i]
    if k < .45:
        del l[i]
        l.insert(r.randrange(len(l) + 1), x)
    elif k < .7:
        l.insert(r.randrange(len(l) + 1), x)
    elif k < .85:
        del l[i]
    else:
        l.insert(r.randrange(len(l) + 1), r.choice(SNIPS))
    return b'\n'.join(l)
