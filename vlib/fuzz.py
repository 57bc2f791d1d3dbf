"""Texts that are mostly not programs: mutations, token soup, truncations, random bytes."""
import re
from . import lang, gen, progs

KW = ['func', 'foreign', 'if', 'else', 'while', 'for', 'return', 'break', 'continue', 'struct', 'new', 'cast', 'use', 'as',
      'null', 'true', 'false', 'do', 'then', 'end', 'case', 'switch']
PUNCT = list('(){}[],:;.=<>+-*/%&|!?"\'\\#@$^~`') + [':=', '::', '==', '!=', '<=', '>=', '&&', '||', '+=', '-=', '*=', '/=',
         '%=', '&=', '|=', '->', '<<', '>>', '..', '...', '//', '/*', '*/', '=>', '=:', '??', '[]', '()', '{}', '&=', '<<=']
WORDS = ['a', 'b', 'x', 'y', 'f', 'g', 'P', 'emit', 'tint', 'int', 'float', 'bool', 'str', 'void', 'any', 'nat', 'array_int',
         'dict', 'strcat', 'strlen', 'main', '_', 'x1', 'A' * 300, 'array', 'json', 'delegate', 'log', 'box', 'P_to_json']
LITS = ['0', '1', '2', '42', '9223372036854775807', '9223372036854775808', '99999999999999999999999999', '0x', '0xff', '0xg',
        '1.5', '1.', '.5', '1.2.3', '1e5', '00', "'a'", "'", "''", "'ab'", "'\\n'", "'\\", '"s"', '""', '"', '"\\"', '"a\\', '"a\nb"',
        '0x7fffffffffffffff', '0xffffffffffffffffff', 'null', 'true', 'false', '123abc', '1_000']
SNIPS = ['func f(a: int): int { return a }', 'struct P { x: int y: float }', 'x := 5', 'y: int = 3', 'C :: 10', 'emit(x)',
         'if x > 3 { emit(1) } else { emit(2) }', 'while x > 0 { x -= 1 }', 'for i := 0; i < 3; i += 1 { emit(i) }',
         'new P { 1, 2.0 }', 'new P { .y = 1.0, .x = 2 }', 'use array("int") as array_int', 'a := array_int(1, 2)', 'a[0] = 4',
         'x = a[1]', 'cast(x, any)', 'return', 'return;', 'return 5', 'break', 'continue', 'p.x += 1', 'f(1, 2)', 'x -> f()',
         'use json("P")', 'use delegate("f") as mk', 'use log("a", "b") as q', 'use nosuch()', 'use array()', 'use fail("because")',
         'z := null', 'n: int? = cast(null, int?)', 'func g() {}', 'func h(a: int, b: str, c: any): void { }', 'q := "str" + 1',
         'b := !true && false || true', 'use comp("u := 4")', 'use try("u := (")', '{ t := 1 { u := t } }', 'v := if true 1 else 2',
         'func r(n: int): int { return r(n - 1) }', '"abc" -> strlen() -> emit()', 'x := 5 % 3 << 2 & 1 | 7', 'use dict_str_int()',
         '// comment', 'x := (1 + 2) * -3', 'emit(-x, !b, "q", \'c\')', 'foreign func ff()', 'A :: "s"', 'B :: -5', 'D :: 1.5']

SPLIT = re.compile(rb'"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])\'|[A-Za-z_][A-Za-z_0-9]*|[0-9][0-9.]*|\s+|:=|::|==|!=|<=|>=|&&|\|\||->|.', re.S)


def tokens(src):
    return [t for t in SPLIT.findall(src)]


def piece(r):
    k = r.random()
    if k < .3:
        return r.choice(PUNCT)
    if k < .5:
        return r.choice(WORDS)
    if k < .65:
        return r.choice(LITS)
    if k < .8:
        return r.choice(KW)
    if k < .97:
        return r.choice(SNIPS)
    return ''.join(chr(r.randrange(1, 256)) for _ in range(r.randrange(1, 8)))


def soup(r, n=None):
    n = n or r.choice([1, 2, 3, 5, 8, 15, 30, 80])
    return ''.join(piece(r) + r.choice(['', ' ', ' ', '\n']) for _ in range(n)).encode('latin-1')


def nested(r, depth=None):
    """Constructs nested to a moderate depth, sometimes cut off."""
    d = depth or r.choice([3, 20, 60, 150])
    o, c = r.choice([('(', ')'), ('{', '}'), ('[', ']'), ('-', ''), ('!', ''), ('if true { ', '}'), ('while true ', 'break'),
                     ('f(', ')'), ('a[', ']'), ('new P { .x = ', '}'), ('cast(', ', any)'), ('if true 1 else ', ' '), ('a.', ''), ('1 + ', ''), ('x -> f(', ')'),
                     ('func f() { ', '}'), ('x := ', ''), ('else ', ''), ('for i := 0; i < 1; i += 1 { ', '}'), ('1 + (', ')')])
    core = r.choice(['1', 'x', '', '"s"', 'emit(1)', 'null', ';', ')'])
    cut = r.choice([d, d, d - 1, 0, d + 1])
    pre = r.choice(['', 'x := ', 'emit', 'struct P { x: int } '])
    return (pre + o * d + core + c * cut).encode('latin-1')


def mutate(r, src, n=None):
    """A few token or byte edits."""
    n = n or r.choice([1, 1, 1, 2, 3, 6])
    if r.random() < .75:
        t = tokens(src)
        for _ in range(n):
            if not t:
                break
            i = r.randrange(len(t))
            k = r.random()
            if k < .25:
                del t[i]
            elif k < .45:
                t.insert(i, (' ' + piece(r) + ' ').encode('latin-1'))
            elif k < .65:
                t[i] = (' ' + piece(r) + ' ').encode('latin-1')
            elif k < .75:
                j = r.randrange(len(t))
                t[i], t[j] = t[j], t[i]
            elif k < .85:
                j = min(len(t), i + r.randrange(1, 20))
                del t[i:j]
            elif k < .95:
                j = min(len(t), i + r.randrange(1, 12))
                p = r.randrange(len(t))
                t[p:p] = t[i:j]
            else:
                t = t[:i]
        return b''.join(t)
    b = bytearray(src)
    for _ in range(n):
        if not b:
            break
        i = r.randrange(len(b))
        k = r.random()
        if k < .3:
            b[i] = r.randrange(1, 256)
        elif k < .5:
            del b[i]
        elif k < .7:
            b.insert(i, r.randrange(1, 256))
        elif k < .85:
            del b[i:]
        else:
            b[i] ^= 1 << r.randrange(7)
            if b[i] == 0:
                b[i] = 1
    return bytes(b)


def rnd(r):
    n = r.choice([0, 1, 2, 5, 20, 100, 1000])
    k = r.randrange(3)
    if k == 0:
        return bytes(r.randrange(1, 256) for _ in range(n))
    if k == 1:
        return bytes(r.choice(b'abc(){}:=;"\'\\/ \n0159.,-+<>&|') for _ in range(n))
    return bytes(r.choice(b'"\\\n a\'') for _ in range(n))


HEAD = b'use array("int") as array_int\nstruct P { x: int y: float }\nfunc f(a: int): int { return a }\n'


def any_text(r, valid=None):
    k = r.random()
    if k < .45 and valid:
        return mutate(r, valid)
    if k < .6:
        return soup(r)
    if k < .7:
        return HEAD + soup(r)
    if k < .76:
        return nested(r)
    if k < .8:
        return rnd(r)
    if k < .9 and valid:
        return valid[:r.randrange(len(valid) + 1)]
    s = b'\n'.join(r.choice(SNIPS).encode() for _ in range(r.randrange(1, 12)))
    return HEAD + (mutate(r, s) if r.random() < .6 else s)


# Texts that are not programs, one per reason.
BAD = [
    'x :=', 'x := ;', 'x : = 5', 'x: = 5', ':= 5', '5 := 5', 'x := 5 6', '5', '"str"', '1 + 2', 'x := (1', 'x := 1)', 'x := (1))', 'x := [1]',
    'x := 1 +', 'x := * 1', 'x := 1 + * 2', 'x := !', 'x := -', 'if', 'if true', 'if true {', 'if true { }}', 'if { }', 'else { }', 'if true { } else',
    'while', 'while true', 'while { }', 'for', 'for x := 0 { }', 'for x := 0; x < 1 { }', 'for x := 0; x < 1; { }', 'for ; ; { }',
    'for x := 0 x < 1; x += 1 { }', 'func', 'func f', 'func f(', 'func f()', 'func f() {', 'func f(a) { }', 'func f(a:) { }',
    'func f(a: int { }', 'func f(: int) { }', 'func f() : { }', 'func f() int { }', 'func () { }', 'func 5() { }',
    'func f() { func g() { } }', 'if true { func g() { } } func h() { func k() { } }', 'struct', 'struct P', 'struct P {', 'struct P { x }', 'struct P { x: }',
    'struct P { : int }', 'struct { x: int }', 'struct P { 5: int }', 'struct P { x: int', 'return 5 func', 'func f(): int { return }',
    'func f() { return 5 }', 'break', 'continue', 'if true { break }', 'func f() { break }', 'func f() { continue }', 'x = 5',
    'emit(', 'emit(1', 'emit(1,', 'emit(,1)', 'emit(1,,2)', 'emit 1', 'nofunc()', 'new', 'x := new', 'x := new P', 'x := new P {', 'x := new P { 1 }',
    'x := cast', 'x := cast(', 'x := cast(1', 'x := cast(1,', 'x := cast(1, any', 'x := cast(1)', 'x := cast(any)', 'x := cast(1 any)',
    'use', 'use array', 'use array(', 'use array("int"', 'use array("int") as', 'use array("int") as 5', 'use array(int)', 'use nosuch()',
    'use nosuch("a") as b', 'use "array"("int")', 'func f() { use array("int") as q }', 'x: nosuch = 5', 'x: int? = 5.0',
    'x := "unterminated', "x := 'u", "x := ''", "x := 'ab'", 'x := "a\\', 'x := "a\\"', 'x := 1.2.3', 'x := 0xg', '@', '#', '$', '^', '~', '`', '\\',
    'x := 1 @ 2', 'x := 5 x := 6', 'x :: 5 x :: 6', 'x :: ', 'x :: y', 'x :: f()', 'x :: 1 + 2 +', 'func f() { x :: 5 x = 6 }', 'x :: 5 x = 6', 'x :: 5 x := 6',
    'x := y', 'y: int = z', 'emit(q)', 'struct P { x: int } p := new P { 1 } p.y = 2', 'struct P { x: int } p := new P { 1 } emit(p.y)',
    'x := 5 x.y = 6', 'x := 5 emit(x.y)', 'x := 5 x[0] = 1', 'x := 5 emit(x[0])', 'x := if true 1', 'x := if true 1 else', 'x := if 1 else 2',
    'x := 5 x()', 'x := 5 x +', 'x := 5 x + 1', 'x := 5 x ==  5', 'x := 1 x += "s"', 'x := "s" x += "t"', 'x := true x += 1', 'x := 5 x++', 'x := 5 x--',
    '}', ')', ']', '{', '(', '[', ',', ';', '.', ':', '->', '{ x := 5', '{ { } ', 'x := 5 }', 'x -> f()', '5 -> nofunc()', '5 ->', '-> f()', '5 -> 6',
    'true', 'null', 'x := true + 1', 'x := !1', 'x := -true', 'x := -"s"', 'x := "a" + "b"', 'x := "a" < "b"', 'x := 1 && true', 'x := true || 0',
    'x := 1.5 % 2', 'x := 1.5 & 2', 'x := 1 | 1.0', 'x := 1 << 1.0', 'if 1 { }', 'while 1 { }', 'if "s" { }', 'for i := 0; 1; i += 1 { }', 'x: int = 1.0',
    'x: float = 1', 'x: str = 5', 'x: bool = 1', 'x := 5 x = 6.0', 'x := 5 x = "s"', 'func f(a: int) { } f()', 'func f(a: int) { } f(1, 2)',
    'func f(a: int) { } f("s")', 'func f(a: int) { } f(1.0)', 'func f() { } x := f()', 'func f() { } emit(1 + f())', 'func f(): int { return "s" }',
    'func f(): nosuch { return 1 }', 'func f(a: nosuch) { }', 'struct P { x: nosuch }', 'struct P { x: int } struct P { y: int }', 'struct P { x: int x: int }',
    'struct P { x: int } p := new P { 1, 2 }', 'struct P { x: int } p := new P { }', 'struct P { x: int } p := new P { "s" }',
    'struct P { x: int y: int } p := new P { .x = 1 }', 'struct P { x: int y: int } p := new P { .x = 1, .x = 2 }', 'struct P { x: int } p := new P { .z = 1 }',
    'struct P { x: int } p: P = null', 'struct P { x: int } struct Q { x: int } p: P = new Q { 1 }', 'x := cast("s", int)', 'x := cast(1, float)',
    'a: any = 5 b: int = a', 'a: any = 5 emit(a + 1)', 'n: int? = 5 m: int = n', 'n: int? = 5 emit(n + 1)', 'func f(a: int, a: int) { }',
    'x := tint("s")', 'x := tint()', 'x := tint(1, 2)', 'x := strlen(5)', 'x := emit(1)', 'gc(1)', 'x: void = 5', 'return', 'return 5 5',
    'use array("int") as array_int a := array_int() a[1.0] = 1', 'use array("int") as array_int a := array_int() a["s"] = 1', 'use array("int") as array_int a := array_int() a[0] = "s"',
    'use array("int") as array_int a := array_int() emit(a["s"])', 'use array("int") as array_int a: array_str = array_int()', 'use fail("told you")', 'use fail()',
    'use comp("x := (")', 'use comp("x := nosuch")', 'use array("nosuch") as q', 'use json("nosuch")', 'use delegate("nosuch") as q', 'use array() as q', 'use array("int")',
]
