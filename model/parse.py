"""Reference parser: token list -> derivation tree, and the printed forms of it."""
from . import grammar, text as T

class SyntaxErr(Exception):
    """idx: position in the token list of the first token with no continuation (len(list): end of text)"""
    def __init__(s, idx, toks, state=None, stack=None, forced=False): s.idx, s.toks, s.state, s.stack, s.forced = idx, toks, state, stack, forced

class Nt:
    __slots__ = ('name', 'kids', 'rule')
    def __init__(s, name, kids, rule=None): s.name, s.kids, s.rule = name, kids, rule

ELID = {'BEhO': "be'o", 'BOI': 'boi', 'CU': 'cu', 'DOhU': "do'u", 'FEhU': "fe'u", 'FOI': 'foi', 'FUhO': "fu'o", 'GEhU': "ge'u", 'KEI': 'kei', 'KEhE': "ke'e",
        'KU': 'ku', 'KUhE': "ku'e", 'KUhO': "ku'o", 'LIhU': "li'u", 'LOhO': "lo'o", 'LUhU': "lu'u", 'MEhU': "me'u", 'NUhU': "nu'u", 'SEhU': "se'u",
        'TEhU': "te'u", 'TOI': 'toi', 'TUhU': "tu'u", 'VAU': 'vau', 'VEhO': "ve'o"}

def symbol(t): return t.sel if t.t in ('CMAVO', 'MARKER') else t.t if t.t != 'BROKEN' else 'GARBAGE'

def drive(toks, full=False):
    """-> derivation: nested (rule index, [children]) with Tok leaves; raises SyntaxErr"""
    G = grammar.tables(full); act = G.action; goto = G.goto; rules = G.rules
    stack = [0]; vals = []; i = 0; n = len(toks)
    syms = []
    for t in toks:
        if t.t == 'CMAVO' and t.sel == 'FAhO': break
        syms.append(symbol(t))
    n = len(syms); syms += ['PRIVATE_EOF_MARK', '$end']
    if not hasattr(G, 'errst'): G.errst = {q for q, d in enumerate(act) if any(a[0] == 'r' and rules[a[1]][3] for a in d.values())}
    while True:
        a = act[stack[-1]].get(syms[i])
        if a is None: raise SyntaxErr(min(i, n), toks, stack[-1], stack)
        if a[0] == 's':
            stack.append(a[1]); vals.append(toks[i] if i < n else None); i += 1
            if a[1] in G.errst: raise SyntaxErr(i - 1, toks, a[1], stack, True)
        elif a[0] == 'r':
            l, r, el, err = rules[a[1]]; k = len(r)
            if err: raise SyntaxErr(min(i, n), toks, stack[-1], stack, True)
            kids = vals[len(vals) - k:] if k else []
            if k: del stack[-k:]; del vals[-k:]
            vals.append((a[1], kids)); stack.append(goto[stack[-1]][l])
        else: return vals[0]

def tree(d, full=False, elided=False):
    """derivation -> tree of Nt/Tok as the program shows it (markers dropped; elided terminators when asked for)"""
    G = grammar.tables(full)
    def mk(d):
        ri, kids = d
        l, r, el, err = G.rules[ri]; out = []
        for j in range(len(kids) + 1):
            for p, w in el:
                if p == j and elided:
                    t = T.Tok('CMAVO', ELID[w], w, w); t.elided = True; out.append(t)
            if j < len(kids):
                c = kids[j]
                if isinstance(c, tuple): out.append(mk(c))
                elif c is not None and c.t != 'MARKER': out.append(c)
        return Nt(l.upper(), out, ri)
    t = mk(d)
    return t.kids[0] if t.name == 'ALL' else t      # the program's tree starts below 'all'

def augment(n):
    """wrap words with ba'e or indicators; n: Nt"""
    def go(c):
        if isinstance(c, Nt): return Nt(c.name, [go(k) for k in c.kids], c.rule)
        if c.bahe or c.ui: return Nt('AUGMENTED', list(c.bahe) + [c] + [Nt('AUGMENTED', list(u.bahe) + [u]) if u.bahe else u for u in c.ui])
        return c
    return Nt(n.name, [go(k) for k in n.kids], n.rule)

def compress(n):
    def go(c):
        while isinstance(c, Nt) and len(c.kids) == 1: c = c.kids[0]
        return Nt(c.name, [go(k) for k in c.kids]) if isinstance(c, Nt) else c
    return Nt(n.name, [go(k) for k in n.kids])

def suffix(t):
    o = []
    if t.nai: o.append(('nai', 'NAI'))
    if t.cai:
        o.append((t.cai[0], 'CAI'))
        if len(t.cai) > 1: o.append(('nai', 'NAI'))
    return o

def leaf_lines(t):
    if t.t == 'CMAVO':
        if t.elided: return ['CMAVO : %s [%s]' % (t.w.upper(), t.ssm)]
        return ['CMAVO : %s [%s]' % (t.w, t.ssm)] + ['CMAVO : %s [%s]' % x for x in suffix(t)]
    f = {'ZOI': 'ZOI : ', 'ZO': 'ZO  : ', 'LOhU': 'LOhU  : ', 'ZEI': 'ZEI : ', 'BU': 'BU : ', 'BRIVLA': 'BRIVLA : ', 'CMENE': 'CMENE : '}[t.t]
    return [f + t.w]

def show(n):
    out = []
    def go(c, d):
        ind = '| ' * (d - 1) + '+-' if d else ''
        if isinstance(c, Nt):
            for k in c.kids: go(k, d + 1)
            out.append(ind + c.name)
        else: out.extend(ind + l for l in leaf_lines(c))
    go(n, 0)
    return '\n'.join(out) + '\n'

def bracket(n, pei_nai=True):
    """the bare bracketed form, as a list of items (brackets and words).
    pei_nai=False: without the nai of an indicator suffix 'pei nai', which jbofihe leaves out (known finding of C02)"""
    OPEN, CLOSE = '([{<', ')]}>'; out = []
    def suf(c):
        x = [a for a, _ in suffix(c)]
        return x[:-1] if not pei_nai and x[-2:] == ['pei', 'nai'] else x
    def op(d): out.append('([{<'[d % 4] + (str(d // 4) if d % 4 == 0 else ''))
    def cl(d): out.append(')]}>'[d % 4] + (str(d // 4) if d % 4 == 0 else ''))
    def go(c, d):
        if isinstance(c, Nt):
            op(d)
            for k in c.kids: go(k, d + 1)
            cl(d); return
        if c.t == 'CMAVO':
            out.append(c.w.upper() if c.elided else c.w); out.extend(suf(c))
        elif c.t == 'ZOI': out.extend([c.form, c.term] + c.w.split() + [c.term])
        elif c.t == 'ZO': out.extend(['zo', c.w])
        elif c.t == 'ZEI': op(d + 1); out.extend(c.w.split()); cl(d + 1)
        elif c.t == 'LOhU': op(d + 1); out.extend(["lo'u"] + c.w.split() + ["le'u"]); cl(d + 1)
        elif c.t == 'BU': out.extend(c.w.split() + ['bu'])
        else: out.append(c.w)
    go(n, 0)
    return out

def bracket_text(n):
    import re
    return ''.join(x for x in bracket(n))

def analyse(s, full=False):
    """-> (status class, payload): ('ok', derivation, toks) | ('bad', rc, msgs) | ('syntax', SyntaxErr)"""
    try: toks = T.tokens(s)
    except T.Bad as b: return ('bad', b.rc, b.msgs)
    try: return ('ok', drive(toks, full), toks)
    except SyntaxErr as e: return ('syntax', e, toks)
