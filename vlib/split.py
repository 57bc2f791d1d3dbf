"""Cuts generated programs into compile units at statement boundaries."""
from . import lang
from .lang import Struc, Func, N, Printer


def item_tokens(it):
    p = Printer()
    p.item(it)
    return [t for t in p.t if isinstance(t, str) and t != '\n']


def defined(it):
    if isinstance(it, Struc) or isinstance(it, Func):
        return {it.name}
    if isinstance(it, tuple) and it[0] == 'use':
        return {it[3]} if it[3] else {it[1]}
    return set()


def mentions(toks, names):
    """names used by the tokens; array modules also define functions with their name as prefix"""
    out = set()
    for t in toks:
        if t in names:
            out.add(t)
        elif '_' in t and t[0].isalpha():
            for n in names:
                if t.startswith(n + '_'):
                    out.add(n)
    return out


def indexed(x, out):
    """struct names that an item's index expressions apply to"""
    if isinstance(x, N):
        if x.k == 'index':
            t = x.a.t
            if isinstance(t, tuple) and t[0] == 'S':
                out.add(t[1])
        for v in vars(x).values():
            if isinstance(v, (N, list, tuple)):
                indexed(v, out)
    elif isinstance(x, Func):
        indexed(x.body, out)
    elif isinstance(x, (list, tuple)):
        for v in x:
            if isinstance(v, (N, list, tuple)):
                indexed(v, out)
    return out


def hoist(items, r, p=1.0):
    """Moves definitions of structs and modules to the front (in an order that respects their mentions)."""
    defs = [i for i in items if not isinstance(i, (N, Func))]
    rest = [i for i in items if isinstance(i, (N, Func))]
    if r.random() < p:
        structs = [i for i in defs if isinstance(i, Struc)]
        uses = [i for i in defs if not isinstance(i, Struc)]
        return structs + uses + rest
    return items


def cuts(items):
    """Positions 1..len-1 at which the text may be divided."""
    n = len(items)
    toks = [item_tokens(i) for i in items]
    later = {}
    for k, it in enumerate(items):
        for d in defined(it):
            later[d] = k
    names = set(later)
    last = 0      # the largest index of a definition that items so far mention
    out = []
    for k in range(n - 1):
        for m in mentions(toks[k], names):
            last = max(last, later[m])
        for m in indexed(items[k], set()):
            for f in (m + '_get_index', m + '_set_index'):
                last = max(last, later.get(f, 0))
        if last <= k:
            out.append(k + 1)
    return out


def split(m, r, most=None, style=None):
    """The program as a list of source texts (bytes), more than one if possible."""
    items = hoist(m.prog.items, r)
    c = cuts(items)
    if c:
        n = r.choice([1, 1, 2, 3, 6, len(c)]) if most is None else most
        c = sorted(r.sample(c, min(n, len(c))))
    parts = []
    for a, b in zip([0] + c, c + [len(items)]):
        parts.append(items[a:b])
    return parts


def texts(parts, r, style=None, parens=0.0):
    return [lang.render_items(p, style or r.choice(['normal', 'normal', 'tight', 'wild']), r, parens).encode('latin-1') for p in parts]
