"""Reference place assignment: which places of which selbri each term of a parsed text fills.

Works on the tree of model.parse.tree. A label is (kind, word, key, pos): kind 'brivla', 'goha', 'nu', 'me' show the word, 'moi' the MOI word after a number for
the construct, 'num' (nu'a and zei words) only a number for the construct, 'jai' the place that 'jai TAG' adds."""
from .parse import Nt
NTERMS = {'CEhE', 'PEhE', 'NUhI'}
class Unspecified(Exception): pass
def isn(c, *names): return isinstance(c, Nt) and c.name in names
def kid(n, name, k=1):
    for c in n.kids:
        if isn(c, name):
            k -= 1
            if not k: return c
def cm(n, sel, k=1):
    for c in n.kids:
        if not isinstance(c, Nt) and c.t == 'CMAVO' and c.sel == sel: return c
def walk(n):
    yield n
    for c in n.kids:
        if isinstance(c, Nt): yield from walk(c)

FA = {'fa': 1, 'fe': 2, 'fi': 3, 'fo': 4, 'fu': 5}; SE = {'se': 2, 'te': 3, 've': 4, 'xe': 5}
def term_entry(t):
    """TERM node -> list of (node, kind, place)"""
    c = t.kids[0]
    if c.name == 'TERM_PLAIN_SUMTI': return [(t, 'pos', 0)]
    if c.name == 'TERM_PLACED_SUMTI':
        w = c.kids[0].w
        if w == "fi'a": return []
        if w == 'fai': return [(t, 'fai', 0)]
        return [(t, 'fa', FA[w])]
    return []
def terms_of(n):
    """TERMS node -> entries in text order"""
    out = []
    def go(x):
        for c in x.kids:
            if isn(c, 'TERMS'): go(c)
            elif isn(c, 'TERMS_1'):
                if len(c.kids) > 1 or len(c.kids[0].kids) > 1: raise Unspecified('termset')
                t = c.kids[0].kids[0]
                if t.kids[0].name in ('TERMSET', 'TAGGED_TERMSET'): raise Unspecified('termset')
                out.extend(term_entry(t))
    go(n); return out
def links_of(la):
    out = []
    while la is not None:
        t = kid(la, 'TERM')
        if t.kids[0].name in ('TERMSET', 'TAGGED_TERMSET'): raise Unspecified('termset')
        out += term_entry(t); la = kid(la, 'LINKS')
    return out

class Assign:
    def __init__(self, top):
        self.labels = {}        # id of TERM node -> [label]
        self.conv = {}          # id of the word of a bridi's selbri -> its place that is the x1 (None: not stated), up to a jai
        self.nodes = {}
        self.done = set(); self.head = True
        self.top = top
        self.insumti = False
        for n in walk(top):
            if n.name == 'STATEMENT_3' and len(n.kids) == 1: self.sentence(n.kids[0], [], [])
            elif n.name == 'ABSTRACTION': self.subsentence(kid(n, 'SUBSENTENCE'), [], [])
            elif n.name == 'FULL_RELATIVE_CLAUSE': self.subsentence(kid(n, 'SUBSENTENCE'), [], [])
            elif n.name == 'METALINGUISTIC':
                t = kid(n, 'TERMS'); self.selbri(kid(n, 'METALINGUISTIC_MAIN_SELBRI').kids[0], terms_of(t) if t else [], [], [])
        self.insumti = True
        for n in walk(top):
            if n.name in ('SUMTI_5B', 'SUMTI_TAIL_1A'): self.selbri(kid(n, 'SELBRI'), [], [], [])
        # linked terms of tanru units that are not the head of a bridi, outermost first
        self.head = False
        for n in walk(top):
            if n.name == 'TANRU_UNIT_1' and len(n.kids) > 1 and id(n) not in self.done: self.tu1(n, [], [], [])
    def put(self, t, lab): self.labels.setdefault(id(t), []).append(lab); self.nodes[id(t)] = t
    # -- bridi
    def subsentence(self, n, pre, post):
        while isn(n, 'SUBSENTENCE'): n = n.kids[-1]
        self.sentence(n, pre, post)
    def sentence(self, n, pre, post):
        if isn(n.kids[0], 'NO_CU_SENTENCE', 'OBSERVATIVE_SENTENCE'): n = n.kids[0]
        t = kid(n, 'TERMS')
        self.tail(kid(n, 'BRIDI_TAIL'), pre + (terms_of(t) if t else []), post)
    def tail(self, n, pre, post):
        """any level of bridi tail"""
        tt = kid(n, 'TAIL_TERMS')
        if tt:
            t = kid(tt, 'TERMS')
            if t: post = terms_of(t) + post
        for c in n.kids:
            if isn(c, 'BRIDI_TAIL', 'BRIDI_TAIL_1', 'BRIDI_TAIL_2', 'BRIDI_TAIL_3'): self.tail(c, pre, post)
            elif isn(c, 'MAIN_SELBRI'): self.selbri(c.kids[0], pre, post, [])
            elif isn(c, 'GEK_SENTENCE'): self.gek(c, pre, post)
    def gek(self, n, pre, post):
        if isn(n.kids[0], 'GEK'):
            tt = kid(n, 'TAIL_TERMS'); t = kid(tt, 'TERMS') if tt else None
            if t: post = terms_of(t) + post
            self.subsentence(kid(n, 'SUBSENTENCE'), pre, post); self.subsentence(kid(n, 'SUBSENTENCE', 2), pre, post)
        else: self.gek(kid(n, 'GEK_SENTENCE'), pre, post)
    # -- selbri. lc: list of modifiers, outermost first
    def selbri(self, n, pre, post, lc):
        while n.name != 'SELBRI_2': n = [c for c in n.kids if isn(c, 'SELBRI', 'SELBRI_1', 'SELBRI_2')][0]
        if len(n.kids) == 1: self.selbri3(n.kids[0], pre, post, lc)
        else:
            self.selbri3(n.kids[0], pre, [], lc)
            while len(n.kids) > 1: n = kid(n, 'SELBRI_2')
            self.selbri3(n.kids[0], [], post, lc)
    def selbri3(self, n, pre, post, lc): self.selbri4(kid(n, 'SELBRI_4'), pre, post, lc)
    def selbri4(self, n, pre, post, lc):
        for c in n.kids:
            if isn(c, 'SELBRI_4'): self.selbri4(c, pre, post, lc)
            elif isn(c, 'SELBRI_5'): self.selbri5(c, pre, post, lc)
            elif isn(c, 'KE_SELBRI_3'): self.selbri3(kid(c, 'SELBRI_3'), pre, post, lc)
    def selbri5(self, n, pre, post, lc):
        for c in n.kids:
            if isn(c, 'SELBRI_5'): self.selbri5(c, pre, post, lc)
            elif isn(c, 'SELBRI_6'): self.selbri6(c, pre, post, lc)
    def selbri6(self, n, pre, post, lc):
        tu = kid(n, 'TANRU_UNIT')
        if tu is None:          # gu'e A gi B
            self.selbri(kid(n, 'SELBRI'), pre, post, lc); self.selbri6(kid(n, 'SELBRI_6'), pre, post, lc)
        elif kid(n, 'SELBRI_6') is not None: self.selbri6(kid(n, 'SELBRI_6'), pre, post, lc)   # A bo B
        elif len(tu.kids) > 1:
            if not self.insumti: raise Unspecified('cei')
        else: self.tu1(tu.kids[0], pre, post, lc)
    def tu1(self, n, pre, post, lc):
        self.done.add(id(n))
        la = kid(n, 'LINKARGS')
        self.tu2(n.kids[0], pre, post, lc + [('links', links_of(la))] if la else lc)
    def tu2(self, n, pre, post, lc):
        c = n.kids[0]
        if not isinstance(c, Nt):
            if c.t == 'BRIVLA': lab = ('brivla', c.w, id(c))
            elif c.t == 'ZEI': lab = ('num', '', id(c))
            elif c.sel == 'GOhA': lab = ('goha', c.w, id(c))
            elif c.sel == 'ME': lab = ('me', 'me', id(c))
            elif c.sel == 'NUhA': lab = ('num', '', id(c))
            else: raise AssertionError(c)
            self.assign(pre, post, lc, lab)
        elif c.name == 'NUMBER_MOI_TU2': self.assign(pre, post, lc, ('moi', cm(c, 'MOI').w, id(c)))
        elif c.name == 'KE_SELBRI3_TU2': self.selbri3(kid(c, 'SELBRI_3'), pre, post, lc)
        elif c.name == 'SE_TU2': self.tu2(kid(c, 'TANRU_UNIT_2'), pre, post, lc + [('se', SE[c.kids[0].w])])
        elif c.name == 'JAI_TAG_TU2': self.tu2(kid(c, 'TANRU_UNIT_2'), pre, post, lc + [('tag', id(c))])
        elif c.name == 'JAI_TU2': self.tu2(kid(c, 'TANRU_UNIT_2'), pre, post, lc + [('jai',)])
        elif c.name == 'NAHE_TU2': self.tu2(kid(c, 'TANRU_UNIT_2'), pre, post, lc)
        elif c.name == 'ABSTRACTION':
            nu = c.kids[0].kids[0]
            if isinstance(nu, Nt): raise Unspecified('connected abstractors')
            self.assign(pre, post, lc, ('nu', nu.w, id(nu)))
        else: raise AssertionError(c.name)
    def assign(self, pre, post, lc, lab):
        N = 19
        if len(pre) + len(post) + sum(len(m[1]) for m in lc if m[0] == 'links') > 14: raise Unspecified('many terms')
        place = {i: [lab + (i,), False] for i in range(1, N + 1)}; fai = []
        def fill(v, base):
            for t, k, p in v:
                if k == 'fa': self.put(t, place[p][0]); place[p][1] = True
                elif k == 'fai' and fai: self.put(t, fai[0][0]); fai[0][1] = True
            for t, k, p in v:
                if k == 'fa': base = p + 1
                elif k == 'pos':
                    while place[base][1]: base += 1
                    self.put(t, place[base][0]); place[base][1] = True; base += 1
        if self.head:
            x = {i: i for i in range(1, 6)}
            for m in reversed(lc):
                if m[0] == 'se': x[1], x[m[1]] = x[m[1]], x[1]
                elif m[0] == 'tag': break
                elif m[0] == 'jai': x = {1: None, **{i: None for i in range(2, 6)}}
            self.conv[lab[2]] = x[1]
        for m in reversed(lc):
            if m[0] == 'se': place[1], place[m[1]] = place[m[1]], place[1]
            elif m[0] == 'tag': fai.insert(0, place[1]); place[1] = [('jai', '', m[1], 1), False]
            elif m[0] == 'jai':
                if place[1][0][0] == 'jai': raise Unspecified('jai of a jai place')
                fai.insert(0, place[1]); place[1] = [place[1][0], False]
            else: fill(m[1], 2)
        fill(pre, 1); fill(post, 2)

def leaves(n):
    for c in n.kids:
        if isinstance(c, Nt): yield from leaves(c)
        else: yield c
def expected(top):
    """-> [(number of words before the term, [labels])] in text order (outer terms first)"""
    a = Assign(top); out = []; n = [0]
    def go(c):
        if not isinstance(c, Nt): n[0] += len(shown(c)); return
        if c.name == 'TERM' and id(c) in a.labels: out.append((n[0], a.labels[id(c)]))
        for k in c.kids: go(k)
    go(top); return out
def shown(t):
    """the words of one token as the glossed output shows them"""
    if t.t == 'ZEI': return t.w.split()
    if t.t == 'ZO': return ['zo', t.w]
    if t.t == 'LOhU': return ["lo'u"] + t.w.split() + ["le'u"]
    if t.t == 'ZOI': return [t.form, t.term] + t.w.split() + [t.term]
    if t.t == 'BU': return t.w.split() + ['bu']
    return [t.w]
