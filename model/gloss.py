"""Reference glosser: the English of a word in its grammatical role, and the sequence of words and glosses of a parsed text, for a given dictionary map."""
import re
from . import lujvo as L, morph, places, dictm
from .parse import Nt
from .places import isn, kid, cm, walk
class Wild(Exception): pass
# ---- one word
def bind(parts):
    """components with se, te, ve, xe joined to the component after them: [(text, place map, start index incl. conversions, index)]"""
    out = []; i = len(parts) - 1
    while i >= 0:
        p = {1: 1, 2: 2, 3: 3, 4: 4, 5: 5}; j = i
        while j > 0 and parts[j - 1] in places.SE:
            k = places.SE[parts[j - 1]]; p[1], p[k] = p[k], p[1]; j -= 1
        out.insert(0, (parts[i], p, j, i)); i = j - 1
    return out
def at(p, n): return p.get(n, n)
def canon(w):
    if '+' in w: return w.split('+')
    c = dictm.canon(w)
    return c.split('+') if c else None
class Glosser:
    def __init__(self, m): self.m = m
    def adv(self, w, p, c, depth=0):
        """gloss of place p of word w in role c (n noun, v verb, q qualifier, t tag); None: nothing can be said"""
        m = self.m
        if depth > 30: raise Wild
        if p == 0: p, c = 1, 'v'
        t = m.get('%s%d%s' % (w, p, c)); 
        if t is None and c == 'q': t = m.get('%s%da' % (w, p))
        if t is None: t = m.get('%s%d' % (w, p))
        if t is not None:
            if t.startswith('@'):
                x = re.match(r"@([A-Za-z']*)(\d)", t)
                return self.adv(x.group(1), int(x.group(2)), c, depth + 1) if x else '??'
            return dictm.inflect(t, c, m.get('%s%dn' % (w, p)) or '')
        if w in m: return m[w] + '??'
        t = self.pattern(w, p, c, depth)
        if t is not None: return t
        t = self.unknown(w, p, c, depth)
        return (t or '') + '??'
    def pattern(self, w, p, c, depth):
        k = canon(w)
        if not k or len(k) < 2: return None
        cs = bind(k)
        if len(cs) == 1: return self.adv(cs[0][0], at(cs[0][1], p), c, depth + 1)
        for prec in (5, 4, 3, 2, 1, 0):
            for suffix in (1, 0):
                for n in (1, 2):
                    t = self.template(prec, suffix, n, k, cs, p, c, depth)
                    if t is None: break
                    if t != '-': return t
    def template(self, prec, suffix, n, k, cs, p, c, depth):
        if suffix:
            g = cs[len(cs) - n]; generic = ('+' if g[3] else '') + '+'.join(k[g[3]:]); specific = '+'.join(k[:g[2]])
        else:
            if n >= len(cs): return None
            g = cs[n - 1]; generic = '+'.join(k[:cs[n][2]]) + '+'; specific = '+'.join(k[cs[n][2]:])
        q = at(g[1], p); key = '*%d%s%d' % (prec, generic, q); full = self.m.get(key + c)
        if full is None and c == 'q': full = self.m.get(key + 'a')
        t = full if full is not None else self.m.get(key)
        if t is None: return None
        if t.startswith('@'): return self.adv(specific, ord(t[1]) - 48, c, depth + 1)
        s = re.sub(r'%(.)(.)', lambda x: self.adv(specific, ord(x.group(1)) - 48, x.group(2) if x.group(2) in 'nvqt' else 'n', depth + 1) or '?', t)
        return s if full is not None else dictm.inflect(s, c, self.m.get(key + 'n') or '')
    def comps(self, cs, p, c, depth, tail=None):
        o = []
        for i, (t, pm, _, _) in enumerate(cs):
            last = i == len(cs) - 1
            o.append(self.adv(t, at(pm, p if last else 1), c if last else 'q', depth + 1) or '?')
        return '-'.join(o)
    def unknown(self, w, p, c, depth):
        if '+' in w: k = w.split('+'); return self.comps(bind(k), p, 'n', depth) if len(bind(k)) > 1 else None
        r = morph.scan(w)
        if r.type == 'lujvo':
            k = canon(w)
            if not k: raise Wild
            return self.comps(bind(k), p, 'n', depth)
        if r.type in ('gismu', 'fuivla4') : return '?'
        if r.type and r.type.startswith("fu'ivla (stage-4") : return '?'
        if r.hyph is not None and ',' not in w:
            # classifier rafsi, hyphen, the rest: the classifier is glossed in its first place
            k = L.SOURCE.get(w[:r.hyph], ())
            if len(k) != 1: raise Wild
            return self.comps(bind(list(k)), 1, c, depth) + '-[%s]' % w[r.hyph + 1:]
        if r.type == 'cmavos': return None
        if r.type == 'cmene': return '[NAME]'
        raise Wild
# ---- a whole text
TRUTH = {'a': (1, 1, 1, 0), 'e': (1, 0, 0, 0), 'o': (1, 0, 0, 1), 'u': (1, 1, 0, 0)}
def truth(v, na, se, nai):
    """truth function letters for both operands true, first only, second only, none"""
    if v == 'q': return 'QQQQ'
    f = TRUTH[v]; o = ''
    for x in (1, 0):
        for y in (1, 0):
            # se exchanges the operands of the connective; na negates the first operand, nai the second
            a, b = x ^ na, y ^ nai
            if se: a, b = b, a
            o += 'FT'[f[(1 - a) * 2 + (1 - b)]]
    return o
VOW = {'a': 'a', 'e': 'e', 'o': 'o', 'u': 'u', 'ji': 'q', 'ja': 'a', 'je': 'e', 'jo': 'o', 'ju': 'u', "je'i": 'q', "gi'a": 'a', "gi'e": 'e', "gi'o": 'o', "gi'u": 'u', "gi'i": 'q',
       'ga': 'a', 'ge': 'e', 'go': 'o', 'gu': 'u', "ge'i": 'q', "gu'a": 'a', "gu'e": 'e', "gu'o": 'o', "gu'u": 'u', "gu'i": 'q'}
# modes: words and glosses, words with the glosses of indicators only, words only, glosses only
BOTH, WORDS, BARE, ENG = 'both', 'words', 'bare', 'eng'
IND = {'UI', 'CAI', 'Y', 'DAhO', 'FUhE', 'FUhO'}
class Text:
    """events: ('l', text), ('e', gloss or regex), ('?',) perhaps a gloss; tags: see places"""
    def __init__(self, top, m):
        self.top = top; self.m = m; self.g = Glosser(m); self.ev = []; self.parent = {}; self.conv = {}; self.tertau = set(); self.tags = None; self.labels = {}
        for n in walk(top):
            for c in n.kids: self.parent[id(c)] = n
        self.leaf = {id(c): c for n in walk(top) for c in n.kids if not isinstance(c, Nt)}
        self.scan()
        try: a = places.Assign(top); self.labels = a.labels; self.heads = a.conv; self.judged = True
        except places.Unspecified: self.judged = False; self.heads = {}
        self.go(top, BOTH)
    # -- roles
    def up(self, n):
        while id(n) in self.parent: n = self.parent[id(n)]; yield n
    def scan(self):
        for n in walk(self.top):
            if n.name == 'SELBRI_3':
                self.head4(kid(n, 'SELBRI_4')) if id(n) not in self.tertau else None
                x = n
                while x is not None: self.tertau.add(id(x)); x = kid(x, 'SELBRI_3')
    def head4(self, n):
        for c in n.kids:
            if isn(c, 'SELBRI_4'): self.head4(c)
            elif isn(c, 'SELBRI_5'): self.head5(c)
    def head5(self, n):
        for c in n.kids:
            if isn(c, 'SELBRI_5', 'SELBRI_6'): self.head5(c)
            elif isn(c, 'TANRU_UNIT'): self.headtu(c)
    def headtu(self, n):
        for c in n.kids:
            if isn(c, 'TANRU_UNIT'): self.headtu(c)
            elif isn(c, 'TANRU_UNIT_1'): self.head2(c.kids[0])
    def head2(self, n):
        c = n.kids[0]
        if not isinstance(c, Nt):
            self.tertau.add(id(c))
        elif c.name in ('SE_TU2', 'JAI_TU2', 'NAHE_TU2', 'JAI_TAG_TU2'): 
            if c.name == 'JAI_TAG_TU2': self.tertau.add(id(c.kids[0]))
            self.head2(kid(c, 'TANRU_UNIT_2'))
        elif c.name == 'ABSTRACTION':
            for x in walk(c.kids[0]):
                for t in x.kids:
                    if not isinstance(t, Nt) and t.sel == 'NU': self.tertau.add(id(t))
    def role(self, t):
        if id(t) not in self.tertau: return 'q'
        for n in self.up(t):
            if n.name in ('MAIN_SELBRI', 'METALINGUISTIC_MAIN_SELBRI'): return 'v'
            if n.name in ('JAI_TU2', 'JAI_TAG_TU2') and n.kids[0] is not t: return 'v'
            if n.name in ('SUMTI', 'FREE', 'OPERAND_3', 'MEX_OPERATOR', 'COMPLEX_TENSE_MODAL'): return 'n'
        return 'n'
    def place(self, t):
        """which place of the word is the x1 of what it stands for"""
        if not self.judged and any(n.name in ('SE_TU2', 'JAI_TU2', 'JAI_TAG_TU2') for n in self.up(t)): raise Wild
        if id(t) in self.heads:
            x = self.heads[id(t)]
            if x is None: raise Wild
            return x
        p = {1: 1, 2: 2, 3: 3, 4: 4, 5: 5}
        for n in self.up(t):
            if n.name == 'SE_TU2': k = places.SE[n.kids[0].w]; p[1], p[k] = p[k], p[1]
            elif n.name == 'JAI_TU2': raise Wild
            elif n.name == 'JAI_TAG_TU2': p[1] = 0
            elif n.name == 'SELBRI_4':
                q = self.parent[id(n)]
                if q.name == 'SELBRI_3' and self.parent[id(q)].name == 'SELBRI_3': break
            elif n.name in ('SELBRI_2', 'SELBRI', 'SELBRI_1'): break
        return p[1]
    def convertible(self, w, t): return self.g.adv(w, self.place(t), self.role(t))
    def ctx(self, n):
        for a in self.up(n):
            if a.name in ('TERM_TAGGED_SUMTI', 'TAGGED_TERMSET'): return '@TERM'
            if a.name in ('TEXT_1C', 'I_JJ_STAG_BO', 'GIHEK_STAG_KE', 'GIHEK_STAG_BO', 'JOIK_EK_KE', 'JOIK_EK_STAG_BO', 'JOIK_STAG_KE', 'JOIK_JEK_STAG_BO'): return '@LINK'
            if a.name in ('SUMTI_5B', 'SUMTI_TAIL_1'): return '@NOUN'
            if a.name in ('STATEMENT_3', 'TERM_FLOATING_TENSE', 'GEK_SENTENCE', 'MAIN_SELBRI', 'METALINGUISTIC_MAIN_SELBRI'): return '@SELBRI'
            if a.name == 'JAI_TAG_TU2': return '@JAI'
            if a.name in ('MEX_OPERATOR', 'OPERAND_3', 'COMPLEX_TENSE_MODAL', 'FREE'): return ''
            if a.name == 'GEK': return '@CONNECT'
        return ''
    def inctx(self, w, c):
        x = self.m.get(w + c) if c else None
        return x if x is not None else self.m.get(w)
    # -- events
    def e(self, g, mode):
        if mode in (WORDS, BARE): return
        if g is Wild: self.ev.append(('?',))
        elif g: self.ev.append(('e', g))
    def l(self, w, mode):
        if mode != ENG: self.ev.append(('l', w))
    def tok(self, t, mode):
        for b in t.bahe: self.word(b, BOTH if mode == WORDS else mode)
        self.word(t, mode)
        for u in t.ui:
            for b in u.bahe: self.word(b, BOTH if mode == WORDS else mode)
            self.word(u, BOTH if mode == WORDS else mode)
    def word(self, t, mode):
        m = self.m; w = l = t.w
        try:
            if t.t == 'ZOI': l = ' '.join([t.form, t.term] + ([t.w] if t.w else []) + [t.term]); g = m.get(t.w, '?')
            elif t.t == 'ZO': l = 'zo ' + w; g = '"%s"' % m.get(w, '?')
            elif t.t == 'LOhU': l = "lo'u %s le'u" % w; g = m.get(w, '?')
            elif t.t == 'BU': l = w + '.bu'; g = m.get(l, '?')
            elif t.t == 'CMENE': l = w; g = '[NAME]'
            elif t.t == 'BRIVLA': l = w; g = self.convertible(w, t)
            elif t.t == 'ZEI':
                l = w; ps = w.split(' zei '); x = self.convertible('+'.join(ps), t)
                if any(' ' in p for p in ps): raise Wild
                g = x if x and x[0] != '?' else ' type-of '.join(m.get(p, '?') for p in ps)
            else: l, g = self.cmavo(t)
        except Wild: g = Wild
        self.l(l, mode); self.e(g, mode)
    def cmavo(self, t):
        m = self.m; w = t.w; s = t.sel
        if s in IND and (s in ('UI', 'CAI') or t.nai or t.cai):
            cai = (t.cai[0] + ('nai' if len(t.cai) > 1 else '')) if t.cai else ''
            b = w + ('nai' if t.nai else ''); g = m.get(b); l = b + (' ' + cai if cai else '')
            return l, ('{' + (m[cai] + ' ' if cai in m else '') + g + '..}') if g is not None else None
        if s == 'NU': return w, self.convertible(w, t)
        if s == 'BAI':
            n = self.parent.get(id(t)); b = w
            if n is not None and n.name == 'SE_BAI': b = n.kids[0].w + w
            if self.ctx(t) == '@JAI': b += '@JAI'
            g = m.get(b)
            if g is None: g = m[w] + ' (CONV?)' if w in m else '?'
            return w, g
        if s == 'SE': return w, Wild if w in m else None
        if s == 'GOI':
            n = self.parent.get(id(t)); k = kid(n, 'TERM')
            return w, None if k and isn(k.kids[0], 'TERM_TAGGED_SUMTI', 'TAGGED_TERMSET') else m.get(w)
        if w == "ke'a": return w, re.compile(re.escape(m.get(w, '')) + r'(?: #\d+)?\Z') if w in m else Wild
        if s in ('PU', 'ZAhO', 'VA', 'FAhA'): return w, self.inctx(w, self.ctx(t))
        if s == 'JAI':
            n = self.parent.get(id(t))
            if n is None or n.name != 'JAI_TAG_TU2': return w, Wild
            a = '_a'
            if id(t) in self.tertau: a = {'v': '_v', 'n': '_n'}[self.role(t)]
            return w, m.get('jai' + a, m.get('jai'))
        return w, m.get(w)
    def go(self, n, mode):
        if not isinstance(n, Nt): self.tok(n, mode); return
        k = n.kids
        def seq(x, md=mode):
            for c in x: self.go(c, md)
        N = n.name
        if N == 'SELBRI_3' and len(k) == 2: self.go(k[0], mode); self.e('[type-of]', mode); self.go(k[1], mode)
        elif N == 'TERM':
            if mode != ENG: self.ev.append(('t', n))
            seq(k)
        elif N == 'NO_CU_SENTENCE' and len(k) == 2: self.go(k[0], mode); self.e('[is, does]', mode); self.go(k[1], mode)
        elif N == 'TIME_OFFSET':
            if mode != ENG: seq(k, WORDS)
            self.e(self.offset(n), mode)
        elif N in ('SPACE_INT_PROP', 'INTERVAL_PROPERTY', 'NUMBER_MOI_TU2'):
            b = self.plain(n)
            c = self.ctx(n) if N != 'NUMBER_MOI_TU2' else ''
            g = self.inctx(b, c)
            if g is not None:
                if mode != ENG: seq(k, WORDS)
                self.e(g, mode)
            else: seq(k)
        elif N == 'SUMTI_TAIL' and isn(k[0], 'SUMTI_6'):
            if mode != ENG: self.go(k[0], BARE); self.e(' ', BOTH)
            seq(k[1:])
            if mode in (BOTH, ENG): self.e('[of]', mode); self.go(k[0], ENG)
        elif (N == 'SUMTI_5A' and len(k) == 2) or (N == 'SUMTI_TAIL_1' and isn(k[0], 'QUANTIFIER') and len(k) > 1 and isn(k[1], 'SUMTI')):
            self.go(k[0], mode); self.e('(of)', mode); seq(k[1:])
        elif N in ('JEK', 'JEK_OPT_KE', 'JEK_OPT_KEBO', 'EK', 'GIHEK', 'GEK', 'GIK', 'GUHEK'):
            if mode != ENG: seq(k, WORDS)
            if mode in (BOTH, ENG):
                for g in self.connective(n): 
                    if isinstance(g, Nt): self.go(g, ENG)
                    else: self.e(g, mode)
        else: seq(k)
    def plain(self, n):
        o = ''
        def f(c):
            nonlocal o
            if isinstance(c, Nt):
                for x in c.kids: f(x)
            elif c.t == 'CMAVO':
                if c.sel not in IND: o += c.w
            elif c.t == 'BU': o += c.w
        f(n); return o
    def offset(self, n):
        pu, nai, zi = cm(n, 'PU'), cm(n, 'NAI'), cm(n, 'ZI'); ws = [x.w for x in (pu, nai, zi) if x]
        c = self.ctx(n); g = self.inctx(''.join(ws), c)
        if g is None and any(a.name in ('MEX_OPERATOR', 'OPERAND_3', 'COMPLEX_TENSE_MODAL', 'FREE') for a in self.up(n)) and not c: return None
        return g if g is not None else ' '.join(self.m.get(w, '?') for w in ws)
    def connective(self, n):
        h = n; gik = None
        if n.name == 'GIK':
            p = self.parent[id(n)]; h = next((c for c in p.kids if isn(c, 'GEK', 'GUHEK')), None); gik = n
            if h is None or p.name == 'GEK': return []
        elif n.name in ('GEK', 'GUHEK'):
            gik = kid(self.parent[id(n)], 'GIK')
        ws = [c for c in h.kids if not isinstance(c, Nt)]; sel = {c.sel for c in ws}
        key = [c for c in ws if c.w in VOW and c.sel in ('A', 'JA', 'GIhA', 'GA', 'GUhA')]
        if key:
            na = 'NA' in sel; se = 'SE' in sel; nai = 'NAI' in sel
            if h.name in ('GEK', 'GUHEK'): f = truth(VOW[key[0].w], nai, se, cm(gik, 'NAI') is not None); s = '@GI' if n is gik else '@GE'
            else: f = truth(VOW[key[0].w], na, se, nai); s = '@AFTER'
            x = self.m.get(f + s); return [x] if x is not None else []
        joik, stag = kid(h, 'JOIK'), kid(h, 'STAG')
        neg2 = gik is not None and cm(gik, 'NAI') is not None
        if joik is not None: return [] if n is h else (['other than'] if neg2 else []) + [joik]
        g = kid(h, 'GIK'); neg1 = g is not None and cm(g, 'NAI') is not None
        if n is h: return ['something other than'] if neg1 else []
        return [stag] + (['other than'] if neg2 else [])
