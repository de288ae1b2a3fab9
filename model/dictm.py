"""Reference dictionary: what a sequence of source lines defines, and the gloss of a place of a word (plain cases)."""
from . import lujvo as L
SUF = 'nvaqt'
def canon(w):
    """canonical form of a lujvo, or None (also for words that are no lujvo)"""
    if not L.is_lujvo(w): return None
    c = L.components(w)
    if any(len(x) != 1 for x in c): return None
    return '+'.join(next(iter(x)) for x in c)
def entry(line):
    s = line.lstrip(' \t\r\v\f')
    if not s or s[0] in '#!;' or ':' not in s: return None
    k, v = s.split(':')[:2]
    return None if len(k) > 255 or len(v) > 255 else (k, v)
def apply(m, line):
    e = entry(line)
    if not e: return
    k, v = e
    def preen(x):
        for c in SUF: m.pop(x + c, None)
    if k and k[-1].isdigit():
        preen(k)
    m[k] = v
    if k and k[-1].isdigit() and len(k) >= 7 and all(c.isalpha() or c == "'" for c in k[:-1]):
        c = canon(k[:-1])
        if c: preen(c + k[-1]); m[c + k[-1]] = '@' + k
def place(m, w, p, ctx, depth=0):
    """gloss of place p of w in context n, v, q or t; None: no entry"""
    full = m.get('%s%d%s' % (w, p, ctx))
    if full is None and ctx == 'q': full = m.get('%s%da' % (w, p))
    t = full if full is not None else m.get('%s%d' % (w, p))
    if t is None:
        t = m.get(w)
        return None if t is None else t + '??'
    if t.startswith('@'):
        if depth > 5: return None
        return place(m, t[1:-1], int(t[-1]), ctx, depth + 1)
    n = m.get('%s%dn' % (w, p)) or ''
    return inflect(t, ctx, n)
CONS = 'bcdfghjklmnpqrstvwxz'
def star(x):
    i = x.find('*')
    return i if i >= 0 and (i + 1 == len(x) or x[i + 1].isspace() or x[i + 1] == '/') else -1
def plural(x):
    i = star(x)
    if i >= 0: return plural(x[:i]) + (plural(x[i + 1:]) if '*' in x[i + 1:] else x[i + 1:])
    if x[-1:] in ('s', 'z', 'x') or x[-2:] == 'ch': return x + '(es)'
    if x[-1:] == 'y' and x[-2:-1] and x[-2] in CONS: return x + '(ies)'
    return x + '(s)'
def er(x):
    i = star(x)
    if i >= 0:
        r = x[i + 1:]
        prep = r.lstrip().startswith(('in', 'at', 'with', 'through'))
        return er(x[:i]) + ('' if prep else ' of') + (er(r) if '*' in r else r)
    return x + ('-r(s)' if x[-1:] == 'e' else '-er(s)')
def ing(x):
    i = star(x)
    if i >= 0: return ing(x[:i]) + (ing(x[i + 1:]) if '*' in x[i + 1:] else x[i + 1:])
    return (x[:-1] if len(x) > 1 and x[-1] == 'e' and x[-2] not in 'aeiou' else x) + '-ing'
def basic(x): return ''.join(c for i, c in enumerate(x) if not (c == '*' and x[i + 1:i + 2].isspace()))
def inflect(t, ctx, n=''):
    """t: dictionary text; n: the noun override or ''"""
    if t[1:2] != ';': return t
    k, x = t[0], t[2:]
    if k in 'DE': return {'n': plural(x), 'v': 'being ' + (n or plural(x)), 'q': basic(x) + '-ish', 't': n or plural(x)}[ctx]
    if k == 'S': return {'n': basic(x), 'v': 'being ' + (n or x), 'q': x + '-ish', 't': n or x}[ctx]
    if k == 'A': return er(x) if ctx in 'nt' else ing(x)
    if k == 'P': return {'n': x + ' thing(s)', 'v': 'being ' + x, 'q': x, 't': x + ' thing(s)'}[ctx]
    if k == 'R': return {'n': 'thing(s) ' + x, 'v': 'being ' + x, 'q': x, 't': 'thing(s) ' + x}[ctx]
    if k == 'I': return 'thing(s) ' + ing(x) if ctx in 'nt' else ing(x)
    return None
