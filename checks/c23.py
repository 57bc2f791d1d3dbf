"""C23: tokenising reads every text as the longest valid tokens."""
import itertools, re, struct
from vlib import progs, gen, fuzz, lang
from vlib.core import Fam, Unit, diff
from vlib.run import Case

SCALE = 2
RULE = ('Every string of up to three characters over the characters that matter (all operators, letters, digits, quotes, escapes, whitespace), random strings over many alphabets, random and adversarial sequences '
        'of tokens with and without space between, sources of generated programs and mutations of them, and long tokens are tokenised in buffers of the exact size under ASan/UBSan/MSan with a CPU limit and compared, '
        'token by token with values and lines, with an independent tokeniser; after the end there is end-of-file for ever. Distinct by texts.')

OPS3 = {'...': 'ELLIPSIS'}
OPS2 = {'&&': 'LOG_AND', '||': 'LOG_OR', ':=': 'DECLARE', '::': 'DECLARECONST', '+=': 'PLUSEQUAL', '-=': 'MINUSEQUAL', '*=': 'STAREQUAL', '/=': 'SLASHEQUAL', '%=': 'PERCENTEQUAL', '|=': 'OREQUAL',
        '&=': 'ANDEQUAL', '==': 'EQUALS', '!=': 'NOTEQUALS', '<=': 'LTE', '>=': 'GTE', '->': 'ARROW', '<<': 'SHIFT_LEFT', '>>': 'SHIFT_RIGHT'}
OPS1 = {'(': 'OPENPAREN', ')': 'CLOSEPAREN', '{': 'OPENCURLY', '}': 'CLOSECURLY', '[': 'OPENSQUARE', ']': 'CLOSESQUARE', '+': 'PLUS', '-': 'MINUS', '*': 'STAR', '/': 'SLASH', '%': 'PERCENT', '>': 'GT',
        '<': 'LT', '=': 'EQUAL', '!': 'BANG', '&': 'AND', '|': 'OR', ',': 'COMMA', ';': 'SEMI', ':': 'COLON', '.': 'DOT', '?': 'QUESTION'}
KW = {w: w.upper() for w in 'null if func foreign return while for else struct new cast break continue use foreach'.split()}
ESC = {'t': '\t', 'n': '\n', 'r': '\r', 'b': '\b'}

IDENT = re.compile(r'[A-Za-z][A-Za-z0-9_]*')
SPACE = ' \t\n\v\f\r'


def escq(s):
    return ''.join(c if 32 < ord(c) < 127 and c not in '%"' else '%%%02X' % ord(c) for c in s)


class Odd(Exception):
    pass


def model(s):
    """Yields the lines the driver prints; 'ODD' where the grammar says nothing."""
    i, line, n = 0, 1, len(s)
    out = []
    while True:
        while i < n:
            if s[i] in SPACE:
                line += s[i] == '\n'
                i += 1
            elif s.startswith('//', i):
                while i < n and s[i] != '\n':
                    i += 1
            else:
                break
        if i >= n:
            for _ in range(3):
                out.append('tok EOF %d' % line)
            out.append('lexed 3 0')
            return out
        c = s[i]
        for k, t in ((3, OPS3), (2, OPS2), (1, OPS1)):
            if s[i:i + k] in t and len(s[i:i + k]) == k:
                out.append('tok %s %d' % (t[s[i:i + k]], line))
                i += k
                break
        else:
            m = IDENT.match(s, i)
            if m:
                w = m.group()
                i = m.end()
                if w in KW:
                    out.append('tok %s %d' % (KW[w], line))
                elif w in ('true', 'false'):
                    out.append('tok BOOL %d %d' % (line, w == 'true'))
                else:
                    out.append('tok IDENT %d "%s"' % (line, w))
                continue
            if c.isascii() and c.isdigit():
                m = re.compile(r'0x[0-9a-fA-F]+|[0-9]+(\.[0-9]*)?').match(s, i)
                t = m.group()
                e = m.end()
                # spellings about which nothing is said
                if t[:2] == '0x':
                    if s[e:e + 1] == '.' or int(t, 16) > 2 ** 63 - 1:
                        out.append('ODD')
                        return out
                    out.append('tok INT %d %d' % (line, int(t, 16)))
                else:
                    if s[e:e + 1] == 'x':
                        out.append('ODD')
                        return out
                    if '.' in t:
                        out.append('tok FLOAT %d %s' % (line, lang.ser(float(t))))
                    else:
                        t = t.lstrip('0') or '0'
                        if len(t) > 19 or int(t) > 2 ** 63 - 1:
                            out.append('ODD')
                            return out
                        out.append('tok INT %d %d' % (line, int(t)))
                i = e
                continue
            if c == "'":
                j = i + 1
                if j < n and s[j] == "'":
                    out.append('ODD')
                    return out
                if j < n and s[j] == '\\':
                    j += 1
                    v = ESC.get(s[j], s[j]) if j < n else None
                else:
                    v = s[j] if j < n else None
                if v is not None and s[j] == '\n':
                    line += 1
                j += 1
                if v is None or j >= n or s[j] != "'":
                    out.append('tok ERROR %d msg=1' % line)
                    out.append('lexed 0 1')
                    return out
                out.append('tok CHAR %d %s' % (line, ord(v) if ord(v) < 128 else '~%d' % ord(v)))
                i = j + 1
                continue
            if c == '"':
                j = i + 1
                v = []
                while j < n and s[j] != '"':
                    if s[j] == '\\':
                        j += 1
                        if j >= n:
                            break
                        v.append(ESC.get(s[j], s[j]))
                    else:
                        v.append(s[j])
                    if s[j] == '\n':
                        line += 1
                    j += 1
                if j >= n:
                    out.append('tok ERROR %d msg=1' % line)
                    out.append('lexed 0 1')
                    return out
                out.append('tok STRING %d "%s"' % (line, escq(''.join(v))))
                i = j + 1
                continue
            out.append('tok ERROR %d msg=1' % line)
            out.append('lexed 0 1')
            return out


def unit(ctx, texts, var):
    c = Case()
    exps = []
    for t in texts:
        t = t.split('\0')[0]
        c.add('lex', t.encode('latin-1'))
        exps.append(model(t))
        ctx.count('texts tokenised')
        ctx.count('tokens predicted', len(exps[-1]))
    ts = [t.split('\0')[0] for t in texts]

    def judge(rs):
        per, cur = [], []
        for l in rs[0].lines:
            cur.append(l)
            if l.startswith('lexed '):
                per.append(cur)
                cur = []
        for k, e in enumerate(exps):
            o = per[k] if k < len(per) else cur
            for i, x in enumerate(e):
                if x == 'ODD':
                    if not o or not o[-1].startswith('lexed '):
                        return 'not finished: %r' % ts[k][:200]
                    break
                g = o[i] if i < len(o) else 'nothing'
                if g == x:
                    continue
                if '~' in x and x.startswith('tok CHAR'):
                    p = x.split('~')
                    if g in (p[0] + p[1], p[0] + str(int(p[1]) - 256)):
                        continue
                return '%r: token %d should be %s, is %s' % (ts[k][:200], i, x[:200], g[:200])
            else:
                if len(o) != len(e):
                    return '%r: more tokens: %s' % (ts[k][:200], o[len(e):][:3])
        if not exps:
            return None
    return Unit([(var, c)], judge, '\0'.join(texts), '\n'.join(repr(t[:100]) for t in texts[:5]))


ALPHA = sorted(set('()[]{}+-*/%<>=!&|,;:.?"\'\\ax0_9 \n#'))


def p_short(ctx):
    """All strings of one to three characters, a slice of them per index; at the end of longer ones too."""
    r = ctx.rng
    N = len(ALPHA)
    total = N + N * N + N ** 3
    per = 450
    lo = ctx.i * per % total
    texts = []
    for q in range(lo, min(lo + per, total)):
        if q < N:
            texts.append(ALPHA[q])
        elif q < N + N * N:
            q -= N
            texts.append(ALPHA[q // N] + ALPHA[q % N])
        else:
            q -= N + N * N
            texts.append(ALPHA[q // N // N] + ALPHA[q // N % N] + ALPHA[q % N])
    ctx.count('short strings', len(texts))
    yield unit(ctx, texts, 'asan' if ctx.i % 4 else 'msan')


def p_random(ctx):
    r = ctx.rng
    texts = []
    for _ in range(60):
        al = r.choice([''.join(ALPHA), '+-*/%=&|<>!:.', '0123456789.xabcdefgh ', '"\\ntrb\'a\n/', '//\n a"', "'\\\"nt\n a", 'abcdefxyzABZ_019 ', 'nultrefasiw ',
                       ''.join(chr(k) for k in range(1, 256)), '.0. x', '\t\v\f\r\n /a'])
        n = r.choice([1, 3, 6, 12, 30, 80])
        texts.append(''.join(r.choice(al) for _ in range(r.randrange(n + 1))))
    yield unit(ctx, texts, r.choice(['asan', 'msan', 'fast']))


WORDS = list(KW) + ['true', 'false']


def token(r):
    k = r.randrange(10)
    if k < 3:
        return r.choice(list(OPS1) + list(OPS2) + list(OPS3))
    if k == 3:
        w = r.choice(WORDS)
        m = r.randrange(5)
        return w if m < 2 else w + r.choice(['_', 'x', '1', 's']) if m == 2 else w[:-1] if m == 3 and len(w) > 1 else w.upper() if m == 3 else w.capitalize()
    if k == 4:
        return r.choice('abcxyzABZ') + ''.join(r.choice('abcxyzABZ_0189') for _ in range(r.choice([0, 1, 3, 10, 31, 32, 63, 64, 255, 256, 1000])))
    if k == 5:
        v = r.choice([0, 1, 7, 9, 10, 255, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 53 + 1, 2 ** 63 - 1, r.getrandbits(63), r.getrandbits(20)])
        return r.choice(['%d', '%d', '0%d', '0x%x', '0x%X', '0x00%x']) % v
    if k == 6:
        return r.choice(['%d.%d' % (r.getrandbits(r.choice([3, 20, 50])), r.getrandbits(r.choice([3, 20, 50]))), '%.3f' % (r.random() * 1000), '%d.' % r.randrange(99), '0.1', '0.30000000000000004', '1.7976931348623157',
                         '%.40f' % r.random(), '1' * 300 + '.5', '0.' + '0' * 300 + '1', '179769313486231570' + '0' * 291 + '.0'])
    if k == 7:
        return "'%s'" % r.choice(['a', ' ', '"', '\\n', '\\t', '\\r', '\\b', "\\'", '\\"', '\\\\', '\\q', '\\0', '\n', '\\\n', '/', '\t', '%', '\x7f', '\x01'])
    if k == 8:
        n = r.choice([0, 0, 1, 5, 30, 300, 3000 if r.random() < .1 else 3])
        return '"%s"' % ''.join(r.choice(['a', 'b', ' ', '\n', '\\n', '\\t', '\\"', '\\\\', "'", '//', '\\q', '\\\n', chr(r.randrange(128, 256)), '%', '\\r', '\\b', '/', 'x']) for _ in range(n))
    return r.choice(['@', '#', '$', '^', '~', '`', '\\', '_', '\x80', '\xe9', '\x01', '"open', "'ab'", "'", '"x\\']) if r.random() < .15 else ';'


def p_tokens(ctx):
    r = ctx.rng
    texts = []
    for _ in range(40):
        sep = r.choice(['', ' ', 'mix', 'mix', 'lines'])
        o = []
        for _ in range(r.choice([1, 2, 5, 20, 60])):
            o.append(token(r))
            if sep == ' ':
                o.append(' ')
            elif sep == 'lines':
                o.append(r.choice(['\n', '\n\n', ' // c "\' \n', '//\n', '\t', '//x\n//y\n', '\r\n', '\v', '\f']))
            elif sep == 'mix':
                o.append(r.choice(['', '', ' ', '\n', '//', '// c\n', '\t ', '\r\n']))
        texts.append(''.join(o))
    yield unit(ctx, texts, r.choice(['asan', 'fast', 'msan']))


def p_programs(ctx):
    r = ctx.rng
    m = progs.make(ctx, r.choice(sorted(progs.PRESETS)), steps=1500, main=r.choice([2, 6]))
    v = progs.source(m, r, 'wild' if r.random() < .6 else None)
    texts = [v.decode('latin-1')]
    for _ in range(6):
        texts.append(fuzz.any_text(r, v).decode('latin-1'))
    a = r.randrange(len(v))
    texts.append(v[a:a + r.choice([1, 10, 100])].decode('latin-1'))
    texts.append(v[:a].decode('latin-1'))
    yield unit(ctx, texts, r.choice(['asan', 'fast']))


def p_long(ctx):
    r = ctx.rng
    n = r.choice([4095, 4096, 65535, 65536, 100000])
    k = r.randrange(9)
    t = ['a' * n, '"%s"' % ('s' * n), '"%s' % ('s' * n), '//' + 'c' * n + '\nx', ' ' * n + 'x', '\n' * n + 'x', '// c\n' * (n // 5) + 'x', '0' * n + '7', '1.' + '3' * n, ][k]
    texts = [t, t + r.choice(ALPHA), '(' * (n // 8) + ')' * 5, '"%s"' % ('\\"' * (n // 4)), 'x' + '_' * n + ' y']
    yield unit(ctx, texts, r.choice(['asan', 'fast']))


def p_values(ctx):
    """The values of literals as programs see them."""
    r = ctx.rng
    L, ev = [], []
    for _ in range(60):
        k = r.randrange(5)
        if k == 0:
            v = r.choice([r.getrandbits(r.randrange(1, 64)), 2 ** 63 - 1, 2 ** 31, 255, 256, 0, 65535])
            s = r.choice(['%d', '0x%x', '00%d', '0x%X']) % v
            x = v
        elif k == 1:
            s = r.choice(['%.1f' % r.uniform(0, 1e6), '%.20f' % r.random(), '%d.5' % r.getrandbits(40), '0.1', '%d.' % r.randrange(99)])
            x = float(s)
        elif k == 2:
            e, x = r.choice([('a', 97), ('\\n', 10), ('\\t', 9), ('\\r', 13), ('\\b', 8), ("\\'", 39), ('\\"', 34), ('\\\\', 92), ('"', 34), (' ', 32), ('~', 126), ('\\z', 122), ('0', 48), ('\\0', 48), ('\n', 10)])
            s = "'%s'" % e
        elif k == 3:
            ps = [r.choice([('a', 'a'), ('\\n', '\n'), ('\\t', '\t'), ('\\"', '"'), ("'", "'"), ("\\'", "'"), ('\\\\', '\\'), ('\n', '\n'), ('//', '//'), ('\\b', '\b'), ('\\r', '\r'), ('\\x', 'x'), ('%d', '%d'), ('\xe4', '\xe4'), ('\\\n', '\n')])
                  for _ in range(r.choice([0, 1, 4, 20]))]
            s = '"%s"' % ''.join(p[0] for p in ps)
            x = ''.join(p[1] for p in ps).encode('latin-1')
        else:
            x = r.random() < .5
            s = 'true' if x else 'false'
        if r.random() < .3:
            n = 'v%d' % len(ev)
            if r.random() < .5:
                L.append('%s :: %s' % (n, s))
            else:
                L.append('%s := %s' % (n, s))
            s = n
        L.append('emit(%s)%s' % (s, r.choice(['', ' // "', '//\n'])))
        ev.append(progs.emitted(x))
    yield progs.text_unit('\n'.join(L), ev, var=r.choice(['fast', 'asan']))


def families(tier):
    N = len(ALPHA)
    shorts = (N + N * N + N ** 3) // 450 + 1
    v = ('asan', 'fast', 'msan')
    return [
        Fam('short', p_short, shorts, shorts, ('asan', 'msan')),
        Fam('random', p_random, 300, 12000, v),
        Fam('tokens', p_tokens, 300, 12000, v),
        Fam('programs', p_programs, 150, 4000, ('asan', 'fast')),
        Fam('long', p_long, 18, 200, ('asan', 'fast')),
        Fam('values', p_values, 120, 3000, ('asan', 'fast')),
    ]
