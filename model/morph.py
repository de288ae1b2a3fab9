"""Reference morphology: classify a chunk of letters and find the words in it."""
import os
from .nfa import NFA
REF = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'ref')

CONS = set('bcdfgjklmnprstvxz'); VOW = set('aeiou')
VOICED = set('bdgvjz'); UNVOICED = set('ptkfcsx'); SIB = set('cjsz')
INITIAL = set('pl pr fl fr bl br vl vr cp cf ct ck cm cn cl cr jb jv jd jg jm sp sf st sk sm sn sl sr '
              'zb zv zd zg zm tc tr ts kl kr dj dr dz gl gr ml mr xl xr'.split())
BADPAIR = {'cx', 'kx', 'xc', 'xk', 'mz'}
SYL = set('lmnr')

def permissible(a, b):
    if a == b: return False
    if (a in VOICED and b in UNVOICED) or (a in UNVOICED and b in VOICED): return False
    if a in SIB and b in SIB: return False
    return (a + b) not in BADPAIR

def cons_token(L, S, g):
    """token for consonant g after saved consonant S (None: none) preceded by class L ('', 'n','r','C')."""
    if S is None: return 'R' if g == 'r' else 'N' if g == 'n' else 'C'
    if (L, S, g) in (('r', 'l', 'n'), ('n', 'l', 'r')): return 'HS'
    if L in ('C', 'n') and S == 'r' and g != 'r': return 'HS' if g in SYL else 'H'
    if L == 'r' and S == 'n' and g != 'n': return 'HS' if g in SYL else 'H'
    if (L, S, g) == ('C', 'n', 'r'): return 'HS'
    if (L, S, g) == ('', 'n', 'r'): return 'NR'
    p = S + g
    if S == g or (S in VOICED and g in UNVOICED) or (S in UNVOICED and g in VOICED) or (S in SIB and g in SIB): return 'CN'
    if L == 'n' and p in ('dj', 'dz', 'tc', 'ts'): return 'BT'
    if p in BADPAIR: return 'CN'
    if p in INITIAL: return 'CSI' if g in SYL else 'CI'
    return 'CS' if g in SYL else 'CP'

def vowel_token(prev2, prev1, c):
    """prev codes: 'C' (consonant, apostrophe or other), 'y', or a vowel"""
    if c == 'y':
        if prev1 in 'iu': return 'VY'
        if prev1 == 'C': return 'Y'
        if prev1 == 'y' and prev2 in 'Cy': return 'YY'
        return 'UNK'
    if prev1 + c in ('ai', 'au', 'ei', 'oi'): return 'VV'
    if prev1 in 'iu': return 'VX'
    if prev1 in VOW: return 'VO'
    if prev1 == 'C': return 'V'
    return 'UNK'

_m = {}
def nfa(name):
    if name not in _m: _m[name] = NFA(open(os.path.join(REF, name)).read())
    return _m[name]

TYPES = {
 'R_CMAVOS': ('cmavo(s)', 0), 'R_CMAVOS_END_CY': ('cmavo(s)', 0), 'R_GISMU_0': ('gismu', 0), 'R_GISMU_1': ('gismu', 1),
 'R_LUJVO_0': ('lujvo', 0), 'R_LUJVO_1': ('lujvo', 1),
 'R_CULTURAL_LUJVO_0': ('lujvo (with cultural rafsi)', 0), 'R_CULTURAL_LUJVO_1': ('lujvo (with cultural rafsi)', 1),
 'R_STAGE3_0': ("fu'ivla (stage-3)", 0), 'R_STAGE3_1': ("fu'ivla (stage-3)", 1),
 'R_STAGE3_1_CVC': ("fu'ivla (stage-3 short rafsi)", 1),
 'R_X_STAGE3_0': ("fu'ivla (multi-stage-3)", 0), 'R_X_STAGE3_1': ("fu'ivla (multi-stage-3)", 1),
 'R_X_STAGE3_0_CVC': ("fu'ivla (multi-stage-3, final short rafsi)", 0),
 'R_X_STAGE3_1_CVC': ("fu'ivla (multi-stage-3, final short rafsi)", 1),
 'R_STAGE4_0': ("fu'ivla (stage-4)", 0), 'R_STAGE4_1': ("fu'ivla (stage-4)", 1),
 'R_CMENE': ('cmene', 0),
 'R_BAD_TOSMABRU': ('Bad lujvo (y hyphen not required)', 1),
 'R_CULTURAL_BAD_TOSMABRU': ('Bad lujvo (y hyphen not required, with cultural rafsi)', 1),
 'R_BAD_SLINKUI': ("Bad fu'ivla (fails slinku'i test)", 0)}

class Scan: pass

def tokens_of(s):
    """yields (position, char, token, set, inhibit, y_to_cons)"""
    L = ''; S = None; p2 = p1 = 'C'; lasty = False; out = []
    for p, ch in enumerate(s):
        if ch == ',': continue
        c = ch.lower() if ch.isascii() else ch
        st = inh = ytc = False
        if c in VOW or c == 'y':
            tok = vowel_token(p2, p1, c)
            if c != 'y': L = ''; S = None
            code = c; y = (c == 'y')
        elif c == "'":
            tok = 'APOS'; L = ''; S = None; code = 'C'; y = False
        elif c in CONS:
            tok = cons_token(L, S, c)
            if S is None: st = True
            else: inh = True
            ytc = lasty
            L = '' if S is None else S if S in 'nr' else 'C'
            S = c; code = 'C'; y = False
        else:
            tok = 'UNK'; L = ''; S = None; code = 'C'; y = False
        p2, p1 = p1, code; lasty = y
        out.append((p, ch, tok, st, inh, ytc))
    return out

def bad_cmene(s):
    """-> (bad, can_split, ladoi, tail)"""
    M = nfa('bctables.in'); st = M.init; ladoi = None; res = None
    for p, ch in enumerate(s):
        if ch == ',': continue
        c = ch.lower()
        t = c.upper() if c in 'aeiouydl' else 'APOS' if c == "'" else 'OCONS'
        st = M.step(st, t)
        if st < 0: return (None, 0, None, None)
        res = M.result_of(st)
        if res in ('BC_CMENE_BAD_SPLIT', 'BC_CMENE_BAD_NOSPLIT'):
            return (1, res == 'BC_CMENE_BAD_SPLIT', ladoi, p)
        if M.attr_of(st) == 'ATTR_SEEN_LD': ladoi = p
    if res == 'BC_CMENE_OK': return (0, 0, None, None)
    return (None, 0, None, None)

def scan(s):
    M = nfa('morf_nfa.in'); st = M.init
    r = Scan(); r.s = s
    starts = []; cstarts = []; inhibited = False; first = True; h3 = h4 = None; q1 = q2 = None
    r.upper = any('A' <= c <= 'Z' for c in s)
    for p, ch, tok, sset, inh, ytc in tokens_of(s):
        inhibited |= inh
        if (sset and not inhibited) or first: starts.append(p)
        if ytc: cstarts.append(p)
        a = M.attr_of(st)
        if a in ('AT_S3_3', 'AT_XS3_3'): h3 = q2
        elif a in ('AT_S3_4', 'AT_XS3_4'): h4 = q2
        q2, q1 = q1, p; first = False
        st = M.step(st, tok)
        if st < 0: break
    ev = M.result_of(st) if st >= 0 else 'R_UNKNOWN'
    r.ev = ev; r.cmene = None; r.hyph = None
    if ev == 'R_UNKNOWN':
        r.type = None; r.starts = starts; return r
    r.type, dec = TYPES[ev]
    if ev == 'R_CMAVOS_END_CY': starts = starts + cstarts
    if dec: starts = starts[:-1]
    if ev == 'R_CMENE':
        starts = starts[:1]; r.cmene = bad_cmene(s)
    if 'stage-3' in r.type: r.hyph = h3 if 'short' in r.type else h4
    r.starts = starts
    return r

def vlatai_line(s, el=None):
    r = scan(s)
    if r.type is None: return '%-25s : UNMATCHED : %s' % (s, s)
    t = r.type; split = False
    if r.ev == 'R_CMENE':
        bad, sp, ladoi, tail = r.cmene
        if bad: t = 'bad cmene (breaks up)' if sp else "bad cmene (doesn't break up)"
        split = bool(bad and sp)
    elif r.upper: t += ' (contains invalid uppercase)'
    o = []
    for i, c in enumerate(s):
        if i in r.starts: o.append(' ')
        if r.hyph is not None and i == r.hyph: o.append('/' + c + '/'); continue
        if split and ((i == r.cmene[2] and i != 0) or i == r.cmene[3]): o.append('+')
        o.append(c)
    return '%-25s : %s : %s' % (s, t, ''.join(o)) + (' [%s]' % el(s[r.starts[-1]:]) if el and r.type == 'lujvo' else '')

def kind(s, cultural=False):
    """The word kind jbofihe sees: BOGUS, UPPER, GISMU, LUJVO, FUIVLA3, FUIVLA4, CMENE, CMAVOS; plus word start offsets"""
    r = scan(s)
    t = r.type
    if t is None or t.startswith('Bad'): return 'BOGUS', r
    if t == 'cmene': return 'CMENE', r
    if r.upper: return 'UPPER', r
    if t.startswith('lujvo (') and not cultural: return 'BOGUS', r
    if t.startswith('lujvo'): return 'LUJVO', r
    if t == 'gismu': return 'GISMU', r
    if t == 'cmavo(s)': return 'CMAVOS', r
    return ('FUIVLA4' if 'stage-4' in t else 'FUIVLA3'), r
