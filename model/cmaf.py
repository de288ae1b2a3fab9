"""Reference of cmafihe: words of a text, their classes and glosses."""
import re
C = '[bcdfgjklmnprstvxz]'; CNR = '[bcdfgjklmnpstvxz]'; V = '[aeiou]'; LT = "[bcdfgjklmnprstvxzaeiouy']"
VVY = '(?:%s%s?|y)' % (V, V); CCC = "(?:%s%s(?:'%s)*)" % (C, VVY, VVY); VCC = "(?:%s(?:'%s)*)" % (VVY, VVY)
CMT = r'(?:%s|\.%s)*' % (CCC, VCC)
BM = "(?:%s%s'?%sr%s%s+%s|%s%s'?%snr%s+%s|%s%s%sy%s%s+%s)" % (C, V, V, CNR, LT, V, C, V, V, LT, V, C, V, C, C, LT, V)
RULES = [('BRIVLA', BM), ('CMAVO', r'(?:%s%s|\.?%s%s)' % (CCC, CMT, VCC, CMT)), ('BRIVLA', '%s%s+%s' % (C, LT, V)), ('CMENE', r'\.?(?:%s,?)*%s\.?' % (LT, C)), ('FALL', LT + '+')]
RULES = [(k, re.compile(r)) for k, r in RULES]
def lex(s):
    """[(kind, text)]: BRIVLA CMAVO CMENE NEWLINE PAREN FALL"""
    out = []; i = 0; n = len(s); depth = 0
    while i < n:
        c = s[i]
        if depth:
            if c in '[(': depth += 1; out.append(('PAREN', c)); i += 1
            elif c in '])': depth -= 1; out.append(('PAREN', c)); i += 1
            else:
                j = i
                while j < n and s[j] not in '[]()': j += 1
                out.append(('PAREN', s[i:j])); i = j
            continue
        if c in ' \t': i += 1; continue
        if c in '([': depth = 1; out.append(('PAREN', c)); i += 1; continue
        m = re.match(r'(\r?\n)+', s[i:])
        if m:
            if len(re.findall('\n', m.group())) > 1: out.append(('NEWLINE', ''))
            i += m.end(); continue
        j = i
        while j < n and re.match("[bcdfgjklmnprstvxzaeiouy'.,]", s[j]): j += 1
        best = None
        for e in range(j, i, -1):
            for k, r in RULES:
                if r.fullmatch(s, i, e): best = (k, e); break
            if best: break
        m = re.match('[a-zA-Z]+', s[i:])
        if m and i + m.end() > (best[1] if best else 0): best = ('FALL', i + m.end())
        if not best: best = ('FALL', i + 1)
        out.append((best[0], s[i:best[1]])); i = best[1]
    return out
def fragments(w, look):
    out = []; p = 0
    if w[:1] == '.': p = 1
    while p < len(w):
        e = len(w); hit = None
        while e > p:
            t = look(w[p:e])
            if t is not None: hit = t; break
            e -= 1
            while e > p and w[e] in "aeiou'": e -= 1
        if hit is not None:
            out.append(hit); p = e; continue
        out.append('?'); p += 1
        while p < len(w) and w[p] in "aeiou'": p += 1
        if p < len(w) and w[p] == '.': p += 1
    # an empty gloss adds no blank as long as nothing has been written
    s = ''
    for o in out: s = s + ' ' + o if s else o
    return s
CONV = {'sel': 2, 'ter': 3, 'vel': 4, 'xel': 5}; ORD = {2: '2nd', 3: '3rd', 4: '4th', 5: '5th'}
def parts(w):
    """the components of a lujvo by position only: [(rafsi text, is last)]"""
    out = []; first = True
    while 1:
        if len(w) <= 5: out.append(w); return out
        y = w.find('y')
        if y == 3: out.append(w[:3]); w = w[4:]
        elif y == 4: out.append(w[:4]); w = w[5:]
        else:
            k = 4 if w[2] == "'" else 3
            vv = w[1] in 'aeiou' and w[k - 1] in 'aeiou'
            h = vv and first and (w[k] == 'r' or w[k:k + 2] == 'nr')
            out.append(w[:k]); w = w[k + 1:] if h else w[k:]
        first = False
def lujvo(m, w):
    conv = 0; out = []
    ps = parts(w)
    for i, p in enumerate(ps):
        last = i == len(ps) - 1
        if not last and p in CONV: conv = CONV[p]; continue
        key = p if len(p) == 5 else '%' + p
        if conv:
            t = m.get(key + str(conv))
            if t is None: t = ORD[conv] + ' conv-' + m.get(key, '??')
            elif t[1:2] == ';': t = t[2:]
            conv = 0
        else: t = m.get(key)
        out.append('?' if t is None else t)
    s = ''
    for o in out: s = s + '-' + o if s else o
    return s
def hyphen(w):
    """position of the hyphen of a stage 3 fu'ivla, or 0"""
    cons = 'bcdfgjklmnprstvxz'; nr = cons.replace('r', '')
    for i in range(1, len(w) - 2):
        a, b, c = w[i - 1], w[i], w[i + 1]
        if a in nr and b == 'r' and c in nr: return i
        if a in cons and c in cons and ((a + b + c) in ('nlr', 'rln') or b == 'n'): return i
    return 0
def unknown(m, w):
    """gloss of a brivla without an entry"""
    h = hyphen(w)
    if h: return lujvo(m, w[:h]) + '-[' + w[h + 1:] + ']'
    return lujvo(m, w)
def items(m, s):
    """what cmafihe shows: [(word, class, gloss)] with None for a line break and a string for bracketed text"""
    out = []
    for k, w in lex(s):
        if k == 'NEWLINE': out.append(None)
        elif k == 'PAREN': out.append(w)
        elif k == 'BRIVLA': out.append((w, 'BRIVLA', m[w] if w in m else unknown(m, w)))
        elif k == 'CMENE': out.append((w, 'CMENE', ''))
        elif k == 'CMAVO':
            x = w[1:] if w[0] == '.' else w
            if x in m: out.append((w, m.get('+' + x, ''), m[x]))
            else: out.append((w, fragments(w, lambda f: m.get('+' + f)), fragments(w, m.get)))
    return out
