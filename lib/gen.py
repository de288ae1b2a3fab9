"""Generators of Lojban texts: random derivations of the reference grammar, realised as words, decorated, mutated and laid out."""
import os, re
from collections import defaultdict
from model import grammar, text, morph
REF = morph.REF
CMW = defaultdict(list)
for w, (sel, ssm, m) in text.CM.items(): CMW[sel].append(w)
for k in CMW: CMW[k].sort()
GISMU = [l.split()[0] for l in open(os.path.join(REF, 'reduced_gismu')) if l.strip()]
RAFSI = {}
for l in open(os.path.join(REF, 'reduced_gismu')):
    f = l.split()
    if f: RAFSI[f[0]] = f[1:]
IND = ('UI', 'CAI', 'Y', 'DAhO', 'FUhE', 'FUhO')
CM_IND = [w for s in IND for w in CMW[s]]
NAMES = ['djan', 'meris', 'alis', 'xorxes', "ui'n", 'bab', 'nitcion', 'kis', 'tom', 'djim', "no'ar", 'rik', 'Adam', 'djiMIR', 'spat', 'brus', 'lojban', 'fred,s', 'az', 'sam']
FUIVLA = ["spageti", "cidjrspageti", "djarspageti", "iglu", "akvari", "jbena'aspa" if False else "tricrbongu", "bangrtlingana", "cipnrstrigi", "kuarka", "spa'i'u" if False else "ispani"]
LUJVO = ["brivla", "lujvo", "selbri", "jbobau", "jvocu'adju", "zdacau", "mamypatfu", "bavlamdei", "selma'o", "gerzda", "lo'ifla" if False else "fagri'a", "cakcinki", "ralju'i" if False else "jijnai'e" if False else "nunkla", "terbi'a", "soirsai", "balvi'a", "blabi'o"]
BRIVLA = None
def brivla_pool():
    global BRIVLA
    if BRIVLA is None:
        BRIVLA = []
        for w in FUIVLA + LUJVO:
            k, r = morph.kind(w)
            if k in ('GISMU', 'LUJVO', 'FUIVLA3', 'FUIVLA4') and len(r.starts) == 1: BRIVLA.append(w)
    return BRIVLA
def brivla(rng):
    if rng.random() < .75: return rng.choice(GISMU)
    return rng.choice(brivla_pool())
QW = ['broda', 'mi', 'klama', 'cu', 'foo', 'bar', "li'u", 'hello', 'x', 'Quux', 'ku', 'si', 'lo', '--', 'a1b' if False else 'ab', "it's"]
DELIM = ['gy', 'glico', 'by', 'x', 'py', 'zoi', 'ly', 'quux']

class Gram:
    def __init__(self, full=False):
        toks, rules = grammar.read_rules(False)
        self.full = full; self.rules = [r for r in rules if not r[3] and 'error' not in r[1] and not (full and r[2])]
        self.byl = defaultdict(list)
        for i, r in enumerate(self.rules): self.byl[r[0]].append(i)
        self.nts = set(self.byl)
        BADT = {'GARBAGE', 'SI', 'SA', 'SU'} | {s for r in self.rules for s in r[1] if s not in self.nts and not s.startswith('PRIVATE') and s not in CMW and s not in ('BRIVLA', 'CMENE')}
        cost = {}; ch = True
        while ch:
            ch = False
            for l, r, e, x in self.rules:
                if any(s not in self.nts and s in BADT for s in r): continue
                if all(s in cost or s not in self.nts for s in r):
                    c = 1 + sum(cost[s] if s in self.nts else (0 if s.startswith('PRIVATE') else 1) for s in r)
                    if c < cost.get(l, 1 << 30): cost[l] = c; ch = True
        self.cost = cost
        self.rcost = []
        for l, r, e, x in self.rules:
            if any(s not in self.nts and s in BADT for s in r) or any(s in self.nts and s not in cost for s in r): self.rcost.append(None)
            else: self.rcost.append(1 + sum(cost[s] if s in self.nts else (0 if s.startswith('PRIVATE') else 1) for s in r))
        self.rare = {'free', 'free_seq', 'free_modifier', 'free_modifier_list', 'nai_seq', 'indicators', 'subscript'}
        # parent rules for steering
        self.parents = defaultdict(list)
        for i, (l, r, e, x) in enumerate(self.rules):
            for s in set(r):
                if s in self.nts and self.rcost[i] is not None: self.parents[s].append(i)
        # distance from 'all' to each nonterminal in rule steps
        self.dist = {'all': 0}; q = ['all']; self.via = {}
        for a in q:
            for i in self.byl[a]:
                if self.rcost[i] is None: continue
                for s in self.rules[i][1]:
                    if s in self.nts and s not in self.dist: self.dist[s] = self.dist[a] + 1; q.append(s)
        import random as _r
        self.targets = [i for i, r in enumerate(self.rules) if self.rcost[i] is not None and r[0] in self.dist]
        _r.Random(7).shuffle(self.targets)
    def ids(self):
        """own rule numbers -> those of the tables"""
        if not hasattr(self, '_ids'):
            T = grammar.tables(self.full); ix = {}
            for k, r in enumerate(T.rules): ix.setdefault((r[0], r[1], tuple(r[2])), k)
            self._ids = [ix.get((r[0], tuple(r[1]), tuple(r[2]))) for r in self.rules]
        return self._ids
    def path(self, rng, nt):
        """random short chain of rules from 'all' down to nonterminal nt: [(rule, position)]"""
        out = []
        while nt != 'all':
            ps = [i for i in self.parents[nt] if self.rules[i][0] in self.dist]
            best = min(self.dist[self.rules[i][0]] for i in ps)
            ps = [i for i in ps if self.dist[self.rules[i][0]] <= best + (rng.random() < .2)] or ps
            i = rng.choice(ps); r = self.rules[i][1]
            pos = rng.choice([k for k, s in enumerate(r) if s == nt])
            out.append((i, pos)); nt = self.rules[i][0]
        return out[::-1]
    def pairs(self):
        """(rule, position, rule expanding that position), for all rules that derive something"""
        if not hasattr(self, '_pairs'):
            import random as _r
            self._pairs = [(i, k, j) for i in self.targets for k, s in enumerate(self.rules[i][1]) if s in self.nts for j in self.byl[s] if self.rcost[j] is not None]
            _r.Random(8).shuffle(self._pairs)
        return self._pairs
    def shortest(self, nt):
        """a shortest yield of a nonterminal"""
        out = []; st = [nt]
        while st:
            a = st.pop()
            if a not in self.nts: out.append(a); continue
            i = min((i for i in self.byl[a] if self.rcost[i] is not None), key=lambda i: self.rcost[i])
            st.extend(reversed(self.rules[i][1]))
        return out
    def access(self, full=False):
        """[(state, list of terminals reaching it)] over the reference LALR tables"""
        T = grammar.tables(full); seen = {0: []}; q = [0]
        for a in q:
            nx = [(x, v[1], [x]) for x, v in sorted(T.action[a].items()) if v[0] == 's'] + [(x, v, None) for x, v in sorted(T.goto[a].items())]
            for x, b, y in nx:
                if b in seen: continue
                if y is None:
                    if x not in self.cost: continue
                    y = self.shortest(x)
                seen[b] = seen[a] + y; q.append(b)
        return sorted(seen.items())
    def derive(self, rng, budget, target=None, elide=.7, start='all', pair=None):
        """random derivation from `start` (through rule `target`, or a (rule, position, rule) pair, if given) -> list of terminals.
        The size budget is split at random among the children, so that big constructs occur in every position."""
        out = []; rules, rcost, nts = self.rules, self.rcost, self.nts
        def pick(a, b):
            rs = [i for i in self.byl[a] if rcost[i] is not None]
            m = min(rcost[i] for i in rs)
            ok = [i for i in rs if rcost[i] <= max(b, m)]
            ws = []
            for i in ok:
                l, r, e, x = rules[i]
                w = 1. + (rcost[i] - m) * .2 * (b > 8)
                if any(s in self.rare for s in r): w *= .12
                if a in ('text', 'text_0', 'text_1', 'text_A_801', 'text_B', 'text_C') and any(s in ('NAI', 'nai_seq', 'CMENE', 'cmene', 'cmene_seq') for s in r): w *= .2
                if r and b > 8 and sum(s in nts for s in r) > 1: w *= 1.6
                ws.append(w * (2 * elide if e else 1.))
            return rng.choices(ok, ws)[0]
        def kids(i, b, depth, fixed=None):
            r = rules[i][1]; left = max(0, b - rcost[i])
            ns = [k for k, s in enumerate(r) if s in nts and k != fixed]
            share = {k: 0 for k in range(len(r))}
            if ns and left:
                if rng.random() < .4: share[rng.choice(ns)] = left
                else:
                    w = [rng.random() ** 2 + .01 for _ in ns]; t = sum(w)
                    for k, x in zip(ns, w): share[k] = left * x / t
            return share
        def exp(a, b, depth):
            if a not in nts: out.append(a); return
            i = pick(a, self.cost[a] + b if depth < 80 else 0)
            sh = kids(i, self.cost[a] + b, depth)
            for k, s in enumerate(rules[i][1]): exp(s, sh[k], depth + 1)
        def steer(chain, a, b, depth):
            if not chain:
                sh = kids(target, b, depth)
                for k, s in enumerate(rules[target][1]): exp(s, sh[k], depth + 1)
                return
            i, pos = chain[0]; sh = kids(i, b / 4, depth, pos)
            for k, s in enumerate(rules[i][1]):
                if k == pos: steer(chain[1:], s, b, depth + 1)
                else: exp(s, sh[k], depth + 1)
        if pair: target = pair[2]; steer(self.path(rng, rules[pair[0]][0]) + [(pair[0], pair[1])], start, budget, 0)
        elif target is None: exp(start, budget, 0)
        else: steer(self.path(rng, rules[target][0]), start, budget, 0)
        return out
_g = {}
def gram(full=False):
    """the grammar (full: that without elision, for -re)"""
    if full not in _g: _g[full] = Gram(full)
    return _g[full]

def follow(rng, ts):
    """markers that look ahead get the word that they announce"""
    o = []; want = None
    for k, t in enumerate(ts):
        if t in ('PRIVATE_JEK_KE', 'PRIVATE_JEK_BO', 'PRIVATE_JOIK_KE'): want = t
        o.append(t)
        if want and t in ('PRIVATE_END_JEK', 'PRIVATE_END_JOIK'):
            nx = next((x for x in ts[k + 1:] if not x.startswith('PRIVATE')), None)
            if ts[k + 1:] and ts[k + 1].startswith(('PRIVATE_START_TENSE', 'PRIVATE_START_BAI', 'FIhO')) and rng.random() < .8: want = None; continue
            if want[-2:] == 'KE' and nx != 'KE': o += rng.choice([['KE'], ['KE', 'BRIVLA'], ['KE', 'BRIVLA', 'KEhE'], ['KE', 'KOhA', 'KEhE'] if 'KOhA' in CMW else ['KE']])
            if want[-2:] == 'BO' and nx != 'BO': o += rng.choice([['BO'], ['BO', 'BRIVLA'], ['PU', 'BO'], ['BO', 'BRIVLA']])
            want = None
    return o
def uses(d, pair):
    """does a derivation use a (rule, position, rule) pair?"""
    i, k, j = pair; st = [d]
    while st:
        ri, kids = st.pop()
        if ri == i and (k is None or isinstance(kids[k], tuple) and kids[k][0] == j): return True
        st += [c for c in kids if isinstance(c, tuple)]
    return False
FREES = [['TO', 'BRIVLA', 'TOI'], ['TO', 'KOhA', 'TOI'], ['DOI', 'KOhA', 'DOhU'], ['SEI', 'BRIVLA', 'SEhU'], ['XI', 'PA', 'BOI'], ['PA', 'MAI'], ['TO', 'TOI'], ['COI', 'DOhU'], ['SOI', 'KOhA', 'SEhU']]
ROOTS = ['sentence', 'statement', 'paragraphs', 'text', 'all']
def contexts(g):
    """cheapest chains of rules from several roots down to each nonterminal, in a few noisy variants"""
    if hasattr(g, '_ctx'): return g._ctx
    import random, heapq
    rng = random.Random(11); g._ctx = []
    for root in ROOTS:
        for v in range(5):
            noise = [1 + v * rng.random() for _ in g.rules]; d = {root: 0}; via = {}; q = [(0, root)]
            while q:
                c, a = heapq.heappop(q)
                if c > d[a]: continue
                for i in g.byl[a]:
                    if g.rcost[i] is None: continue
                    r = g.rules[i][1]
                    for k, s in enumerate(r):
                        if s not in g.nts: continue
                        e = c + (.2 + sum(g.cost.get(x, 1) for j, x in enumerate(r) if j != k) + 3 * sum(x in g.rare for x in r)) * noise[i]
                        if e < d.get(s, 1e9): d[s] = e; via[s] = (i, k); heapq.heappush(q, (e, s))
            g._ctx.append((root, d, via))
    return g._ctx
def derive_in(g, rng, pair, budget, elide):
    """a small derivation through the pair in a simple context, with free modifiers that are closed"""
    nt = g.rules[pair[0]][0]; cs = [c for c in contexts(g) if nt in c[1]]
    if not cs: return g.derive(rng, budget, elide=elide, pair=pair)
    root, d, via = rng.choice(cs[:5] if rng.random() < .5 else cs); chain = [(pair[0], pair[1])]; a = nt
    while a != root: chain.insert(0, via[a]); a = g.rules[via[a][0]][0]
    out = []
    def exp(s):
        if s not in g.nts: out.append(s)
        elif s in ('free', 'free_seq') and rng.random() < .9: out.extend(rng.choice(FREES))
        elif rng.random() < .5: out.extend(g.derive(rng, rng.choice([0, 0, 1, 3]), elide=elide, start=s))
        else: out.extend(g.shortest(s))
    def go(n, s):
        i = chain[n][0] if n < len(chain) else pair[2]; r = g.rules[i][1]
        for k, x in enumerate(r):
            if n < len(chain) and k == chain[n][1]: go(n + 1, x)
            else: exp(x)
    go(0, root)
    pre, post = rng.choice([([], [])] * 3 + [(['KOhA'], []), (['BRIVLA', 'VAU', 'I'], []), ([], ['I', 'KOhA', 'BRIVLA']), ([], ['BRIVLA']), (['KOhA'], ['BRIVLA']), (['LI'], []), (['LI'], ['LOhO']), ([], ['KOhA'])] if not g.full else [([], []), ([], []), (['BRIVLA', 'VAU', 'I'], []), (['KOhA'], ['CU', 'BRIVLA', 'VAU'])])
    return pre + out + post
def sure(rng, pair, tries=10, full=False):
    """units of a text whose reference parse uses the pair (if one is found; another derivation through it otherwise)"""
    from model import parse
    g = gram(full); ids = g.ids(); want = (ids[pair[0]], pair[1], ids[pair[2]])
    for n in range(tries):
        b = rng.choice([1, 3, 6, 12]); e = rng.choice([1e-6, 1e-6, .1, .5, .9])
        ts = g.derive(rng, b, elide=e, pair=pair) if rng.random() < .15 else derive_in(g, rng, pair, b, e)
        if rng.random() < .15:
            for k in range(len(ts) - 1, 0, -1):
                if ts[k - 1] == 'BY' and ts[k] in ('BY', 'PA', 'LAU'): ts.insert(k, 'BOI')
        u = realise(rng, follow(rng, ts))
        r = parse.analyse(' '.join(flat(u)) + '\n', full)
        if r[0] == 'ok' and uses(r[1], want): return u, True
    return u, False
def any_words(rng, n, bad=()):
    o = []
    for _ in range(n):
        k = rng.random()
        if k < .3: o.append(brivla(rng))
        elif k < .4: o.append(rng.choice(NAMES))
        else:
            while True:
                w = rng.choice(ALLCM)
                if text.CM[w][0] not in bad: break
            o.append(w)
    return o
ALLCM = sorted(text.CM)
def realise(rng, terms):
    """terminals -> list of units, each a list of words to be separated"""
    out = []
    for t in terms:
        if t.startswith('PRIVATE') or t == '$end': continue
        if t == 'BRIVLA': out.append([brivla(rng)])
        elif t == 'CMENE': out.append([rng.choice(NAMES)])
        elif t == 'ZOI':
            d = rng.choice(DELIM); out.append([rng.choice(['zoi', "la'o"]), d] + [w for w in (rng.choice(QW + [d + 'a', d[:-1] or 'q', 'x' + d, d + d]) for _ in range(rng.randint(0, 3))) if w != d] + [d])
        elif t == 'ZO': out.append(['zo'] + any_words(rng, 1, ('ZOI',)))
        elif t == 'LOhU': out.append(["lo'u"] + any_words(rng, rng.randint(1, 4), ('ZOI', 'ZO', 'LEhU')) + ["le'u"])
        elif t == 'ZEI': out.append([x for w in any_words(rng, rng.randint(2, 3), ('ZOI', 'ZO', 'LOhU', 'LEhU', 'SI', 'SA', 'SU', 'ZEI', 'BAhE', 'BU', 'FAhO')) for x in ('zei', w)][1:])
        elif t == 'BU': out.append(any_words(rng, 1, ('ZOI', 'ZO', 'LOhU', 'LEhU', 'SI', 'SA', 'SU', 'ZEI', 'BAhE', 'BU', 'FAhO')) + ['bu'])
        else: out.append([rng.choice(CMW[t])])
    return out
def decorate(rng, units, p=.08):
    """insert indicators, ba'e and erasures that leave a grammatical text grammatical"""
    out = []
    for u in units:
        if rng.random() < p / 2: out.append(["ba'e"])
        if rng.random() < p / 3: out += [[w] for w in any_words(rng, 1, ('ZOI', 'ZO', 'LOhU', 'LEhU', 'SI', 'SA', 'SU', 'ZEI', 'BAhE', 'BU', 'FAhO'))] + [['si']]
        out.append(u)
        if rng.random() < p:
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                out.append([rng.choice(CM_IND)])
                if rng.random() < .3: out.append(['nai'])
                if rng.random() < .3: out.append([rng.choice(CMW['CAI'])])
                if rng.random() < .1: out.append(['nai'])
    return out
def mutate(rng, units):
    u = list(units)
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        if not u: break
        k = rng.random(); i = rng.randrange(len(u))
        if k < .35: del u[i]
        elif k < .6: u.insert(i, [rng.choice(ALLCM)])
        elif k < .75: u[i] = [rng.choice(ALLCM)]
        elif k < .85: j = rng.randrange(len(u)); u[i], u[j] = u[j], u[i]
        elif k < .95: u.insert(rng.randrange(len(u) + 1), u[i])
        else: u.insert(i, [brivla(rng)])
    return u
def ok_terms(terms): return all(t in CMW or t in ('BRIVLA', 'CMENE', 'ZOI', 'ZO', 'LOhU', 'ZEI', 'BU', '$end') or t.startswith('PRIVATE') for t in terms)
def flat(units): return [w for u in units for w in u]
def layout(rng, ws):
    if rng.random() < .5: return ' '.join(ws) + '\n'
    o = []
    for w in ws:
        o.append(w); o.append(rng.choice([' ', ' ', ' ', '\n', '  ', '\t', ' . ', '.', ' (c) ', '\n\n', '. ']))
    return ''.join(o) + '\n'
STARTS = ['paragraphs', 'sentence', 'statement', 'all', 'bridi_tail', 'sumti', 'terms']; STARTW = [6, 8, 3, 1, 3, 2, 1]
def words_in(rng, g, b, target):
    st = rng.choices(STARTS, STARTW)[0] if target is None else 'all'
    return realise(rng, g.derive(rng, b, target, rng.choice([.1, .5, .9]), st))
def words(rng, i=None, budget=None, dec=.06, mut=.25):
    g = gram(); target = None
    if rng.random() < .3:
        from .bridi import B
        while True:
            u = [[w] for w in B(rng).text(rng.choice([1, 2, 2, 3])).replace('.', '').split()]
            if len(u) < 100: break
        if rng.random() < .5: u = decorate(rng, u, dec)
        if rng.random() < mut: u = mutate(rng, u)
        return flat(u)
    if i is not None and rng.random() < .6: target = g.targets[i % len(g.targets)]
    b = budget or rng.choice([3, 6, 10, 15, 25, 40])
    if target is not None and budget is None and rng.random() < .4: u = sure(rng, rng.choice(g.pairs()), 6)[0]
    else: u = words_in(rng, g, b, target)
    if rng.random() < .5: u = decorate(rng, u, dec)
    if rng.random() < mut: u = mutate(rng, u)
    return flat(u)
