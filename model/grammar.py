"""Reads the frozen grammar productions (ref/rpc2x.y) and builds LALR(1) tables with yacc's conflict rules.

Everything here is written from the definition of LALR(1); nothing of bison's output or of the repository's
generator scripts is used."""
import os, re, pickle, hashlib
REF = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'ref')

def strip_comments(s):
    # comments nest; "/* ET X */" is kept as a token "?X"; "/* error */" marks an error production
    out = []; i = 0; n = len(s)
    while i < n:
        if s.startswith('/*', i):
            m = re.match(r'/\* ET ([A-Zh]+) \*/', s[i:])
            if m:
                out.append(' ?%s ' % m.group(1)); i += m.end(); continue
            if s.startswith('/* error */', i):
                out.append(' !error '); i += len('/* error */'); continue
            depth = 1; i += 2
            while depth:
                if s.startswith('/*', i): depth += 1; i += 2
                elif s.startswith('*/', i): depth -= 1; i += 2
                else: i += 1
            continue
        out.append(s[i]); i += 1
    return ''.join(out)

def read_rules(full=False):
    s = open(os.path.join(REF, 'rpc2x.y')).read()
    head, body = re.split(r'(?m)^%%\s*$', s, maxsplit=1)
    toks = re.findall(r'(?m)^%token\s+(\S+)', head)
    body = strip_comments(body)
    # remove actions
    res = []; depth = 0
    for ch in body:
        if ch == '{': depth += 1; res.append(' ')
        elif ch == '}': depth -= 1
        elif depth == 0: res.append(ch)
    body = ''.join(res)
    rules = []
    for part in body.split(';'):
        part = part.strip()
        if not part or part.startswith('%%'): continue
        lhs, rhs = part.split(':', 1)
        lhs = lhs.strip()
        for alt in rhs.split('|'):
            syms = alt.split()
            el = []; rr = []; err = False
            for x in syms:
                if x.startswith('?'): el.append((len(rr), x[1:]))
                elif x == '!error': err = True
                else: rr.append(x)
            if full and el: continue
            rules.append((lhs, tuple(rr), tuple(el), err))
    return toks, rules

class Tables: pass

def build(full=False):
    toks, rules = read_rules(full)
    lhss = {r[0] for r in rules}
    # drop unproductive/unreachable rules
    prod = set()
    tset = set(toks) | {'error'}
    ch = True
    while ch:
        ch = False
        for l, r, e, x in rules:
            if l not in prod and all(s in prod or s not in lhss for s in r):
                prod.add(l); ch = True
    rules = [r for r in rules if all(s in prod or s not in lhss for s in r[1])]
    reach = {'all'}; work = ['all']
    while work:
        a = work.pop()
        for l, r, e, x in rules:
            if l == a:
                for s in r:
                    if s in lhss and s not in reach: reach.add(s); work.append(s)
    rules = [r for r in rules if r[0] in reach]
    for l, r, e, x in rules:
        for s in r:
            assert s in lhss or s in tset, (l, s)
    rules.insert(0, ("$accept", ("all", "$end"), (), False))
    nts = {r[0] for r in rules}
    byl = {}
    for i, r in enumerate(rules): byl.setdefault(r[0], []).append(i)
    # nullable
    nullable = set(); ch = True
    while ch:
        ch = False
        for r in rules:
            if r[0] not in nullable and all(s in nullable for s in r[1]): nullable.add(r[0]); ch = True
    # LR(0)
    def closure_nts(kernel):
        seen = set(); work = []
        for ri, d in kernel:
            rhs = rules[ri][1]
            if d < len(rhs) and rhs[d] in nts and rhs[d] not in seen: seen.add(rhs[d]); work.append(rhs[d])
        while work:
            a = work.pop()
            for ri in byl[a]:
                rhs = rules[ri][1]
                if rhs and rhs[0] in nts and rhs[0] not in seen: seen.add(rhs[0]); work.append(rhs[0])
        return seen
    start = frozenset({(0, 0)})
    states = {start: 0}; slist = [start]; trans = []
    i = 0
    while i < len(slist):
        k = slist[i]
        items = list(k) + [(ri, 0) for a in closure_nts(k) for ri in byl[a]]
        mv = {}
        for ri, d in items:
            rhs = rules[ri][1]
            if d < len(rhs): mv.setdefault(rhs[d], []).append((ri, d + 1))
        t = {}
        for s, its in mv.items():
            if s == '$end': continue
            f = frozenset(its)
            if f not in states: states[f] = len(slist); slist.append(f)
            t[s] = states[f]
        trans.append(t); i += 1
    # DeRemer-Pennello
    nttrans = [(p, a) for p in range(len(slist)) for a in trans[p] if a in nts]
    idx = {x: n for n, x in enumerate(nttrans)}
    DR = []
    reads = []
    terms = sorted(({s for r in rules for s in r[1]} - nts))
    tn = {t: n for n, t in enumerate(terms)}
    for p, a in nttrans:
        q = trans[p][a]; b = 0
        for s in trans[q]:
            if s in tn: b |= 1 << tn[s]
        if (0, 1) in slist[q]: b |= 1 << tn['$end']
        DR.append(b)
        reads.append([idx[(q, s)] for s in trans[q] if s in nullable])
    includes = [[] for _ in nttrans]; lookback = {}
    for p, a in nttrans:
        for ri in byl[a]:
            q = p; rhs = rules[ri][1]
            for j, s in enumerate(rhs):
                if s in nts and all(x in nullable for x in rhs[j + 1:]):
                    if (q, s) in idx: includes[idx[(q, s)]].append(idx[(p, a)])
                q = trans[q].get(s, None) if s != '$end' else None
                if q is None: break
            else:
                lookback.setdefault((q, ri), []).append(idx[(p, a)])
    def digraph(init, rel):
        N = [0] * len(init); F = list(init); stack = []
        INF = 1 << 60
        import sys
        sys.setrecursionlimit(100000)
        def trav(x):
            stack.append(x); d = len(stack); N[x] = d
            for y in rel[x]:
                if N[y] == 0: trav(y)
                if N[y] < N[x]: N[x] = N[y]
                F[x] |= F[y]
            if N[x] == d:
                while True:
                    y = stack.pop(); N[y] = INF; F[y] = F[x]
                    if y == x: break
        for x in range(len(init)):
            if N[x] == 0: trav(x)
        return F
    Read = digraph(DR, reads)
    Follow = digraph(Read, includes)
    action = []; goto = []; conflicts = [0, 0]
    for q in range(len(slist)):
        act = {}; g = {}
        for s, t in trans[q].items():
            if s in nts: g[s] = t
            else: act[s] = ('s', t)
        if (0, 1) in slist[q]: act['$end'] = ('a',)
        reds = sorted({ri for ri, d in slist[q] if d == len(rules[ri][1])} |
                      {ri for a in closure_nts(slist[q]) for ri in byl[a] if not rules[ri][1]})
        for ri in reds:
            if ri == 0: continue
            la = 0
            for n in lookback.get((q, ri), []): la |= Follow[n]
            n = 0
            while la:
                if la & 1:
                    t = terms[n]
                    if t in act:
                        conflicts[0 if act[t][0] == 's' else 1] += 1
                    else: act[t] = ('r', ri)
                la >>= 1; n += 1
        action.append(act); goto.append(g)
    T = Tables()
    T.rules = rules; T.action = action; T.goto = goto; T.conflicts = conflicts; T.terms = terms; T.nts = nts
    T.kernels = [sorted(k) for k in slist]
    T.nullable = nullable
    return T

_cache = {}
def tables(full=False):
    if full in _cache: return _cache[full]
    src = open(os.path.join(REF, 'rpc2x.y'), 'rb').read() + open(os.path.abspath(__file__), 'rb').read()
    h = hashlib.sha256(src).hexdigest()[:16]
    cdir = os.environ.get('VERIF_SCRATCH')
    f = cdir and os.path.join(cdir, 'lalr-%s-%d.pkl' % (h, full))
    if f and os.path.exists(f):
        T = pickle.load(open(f, 'rb'))
    else:
        T = build(full)
        if f: pickle.dump(T, open(f + '.tmp%d' % os.getpid(), 'wb')); os.replace(f + '.tmp%d' % os.getpid(), f)
    _cache[full] = T
    return T

if __name__ == '__main__':
    import time
    for full in (False, True):
        t = time.time(); T = build(full)
        print(full, len(T.rules), len(T.action), T.conflicts, sum(len(a) for a in T.action), time.time() - t)
