"""Reference lujvo making, scoring and splitting (reference grammar, chapter 4), over the frozen rafsi table ref/reduced_gismu."""
import os, itertools, functools
from . import morph
V = 'aeiou'
RAFSI = {}     # word -> its short rafsi
SOURCE = {}    # rafsi -> source words
for _l in open(os.path.join(morph.REF, 'reduced_gismu')):
    _l = _l.rstrip('\n'); _w = _l[:5].strip()
    if _w: RAFSI[_w] = tuple(_l[6:18].split())
for _w, _r in RAFSI.items():
    for _x in _r: SOURCE.setdefault(_x, set()).add(_w)
    if len(_w) == 5: SOURCE.setdefault(_w[:4], set()).add(_w); SOURCE.setdefault(_w, set()).add(_w)

@functools.lru_cache(None)
def shape(r): return ''.join('V' if c in V else "'" if c == "'" else 'y' if c == 'y' else 'C' for c in r)
def choices(words, long, brod):
    """the rafsi each word may contribute"""
    o = []
    for i, w in enumerate(words):
        last = i == len(words) - 1
        c = [r for r in RAFSI[w] if not last or r[-1] in V]
        if (long or not c) and len(w) == 5:
            if last: c.append(w)
            elif brod or w[:4] != 'brod': c.append(w[:4])
        o.append(c)
    return o
@functools.lru_cache(200000)
def is_lujvo(w):
    r = morph.scan(w)
    return r.type == 'lujvo' and r.starts == [0]
def needs_y(a, b):
    """between rafsi a and b"""
    if shape(a) in ('CVCC', 'CCVC'): return True
    if a[-1] in V: return False
    if not morph.permissible(a[-1], b[0]): return True
    return (a[-1] + b[:2]) in ('ndj', 'ndz', 'ntc', 'nts')
def join(rs):
    """-> (word, number of hyphens)"""
    g = ['y' if needs_y(a, b) else '' for a, b in zip(rs, rs[1:])]
    if shape(rs[0]) in ('CVV', "CV'V") and not (len(rs) == 2 and shape(rs[1]) == 'CCV'):
        g[0] = 'n' if rs[1][0] == 'r' else 'r'
    mk = lambda: ''.join(a + b for a, b in zip(rs, g + ['']))
    w = mk()
    if shape(rs[0]) == 'CVC' and not g[0] and not is_lujvo(w):
        g[0] = 'y'; w = mk()
    return w, sum(map(bool, g))
RV = {'CVCCV': 1, 'CVCC': 2, 'CCVCV': 3, 'CCVC': 4, 'CVC': 5, "CV'V": 6, 'CCV': 7, 'CVV': 8}
def score(rs, w, h):
    return 1000 * len(w) - 500 * w.count("'") + 100 * h - 10 * sum(RV[shape(r)] for r in rs) - sum(c in V for c in w)
def forms(words, long=False, brod=False):
    """{lujvo: (score, rafsi)}"""
    o = {}
    for rs in itertools.product(*choices(words, long, brod)):
        j = join(rs); o[j[0]] = (score(rs, *j), rs)
    return o

def splits(w):
    """all ways of reading w as rafsi and hyphens, as lists of rafsi"""
    sh = shape(w); n = len(w); out = []
    def rest(i, acc):
        if i == n: out.append(acc); return
        s = sh[i:]; first = i == 0
        if s in ('CVCCV', 'CCVCV') and not first: out.append(acc + [w[i:]])
        for p in ('CCV', 'CVV', "CV'V"):
            if s.startswith(p):
                e = i + len(p)
                rest(e, acc + [w[i:e]])
                if first and p != 'CCV' and e + 1 < n and ((w[e] == 'r' and w[e + 1] != 'r') or w[e:e + 2] == 'nr') and sh[e + 1] == 'C':
                    rest(e + 1, acc + [w[i:e]])
        if s.startswith('CVCy'): rest(i + 4, acc + [w[i:i + 3]])
        elif s.startswith('CVC') and i + 3 < n: rest(i + 3, acc + [w[i:i + 3]])
        for p in ('CVCCy', 'CCVCy'):
            if s.startswith(p) and i + 5 < n: rest(i + 5, acc + [w[i:i + 4]])
    rest(0, [])
    return [o for o in out if len(o) > 1 and all(shape(r)[:2] != 'CC' or r[:2] in morph.INITIAL for r in o)]
def components(w):
    """list of sets of source words (empty set: no such rafsi) for a lujvo"""
    ss = splits(w); assert len(ss) == 1, (w, ss)
    return [SOURCE.get(r, {r} if len(r) == 5 else set()) for r in ss[0]]
