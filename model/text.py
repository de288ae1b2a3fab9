"""Reference lexer: text -> words -> units (quotations, erasures, compounds, indicators) -> parser tokens with lookahead markers."""
import os, json
from . import morph
CM = json.load(open(os.path.join(morph.REF, 'cmavo.json')))
DIG = ['no', 'pa', 're', 'ci', 'vo', 'mu', 'xa', 'ze', 'bi', 'so']

class Bad(Exception):
    """the text gets no parse: status and the message expected"""
    def __init__(s, rc, msgs): s.rc, s.msgs = rc, msgs

class Tok:
    __slots__ = ('t', 'w', 'sel', 'ssm', 'line', 'col', 'next', 'prev', 'bahe', 'ui', 'nai', 'cai', 'form', 'term', 'defects', 'parts', 'elided', 'raw', 'eols', 'bt', 'ff')
    def __init__(s, t, w='', sel=None, ssm=None, line=0, col=0):
        s.t, s.w, s.sel, s.ssm, s.line, s.col = t, w, sel, ssm, line, col
        s.bahe = []; s.ui = []; s.nai = False; s.cai = None; s.form = s.term = None; s.defects = 0; s.parts = None; s.elided = False; s.raw = [w]; s.eols = 0; s.bt = None; s.ff = False
    def __repr__(s): return '%s:%s' % (s.sel if s.t in ('CMAVO', 'MARKER') else s.t, s.w)

# ---------- characters -> words
class Lexer:
    def __init__(s, cultural=False): s.cultural = cultural; s.toks = []; s.errs = []; s.zoi = None; s.znext = None; s.eol0 = 0
    def cmavo(s, w, line, col):
        if any(c not in "abcdefgijklmnoprstuvxyz'" for c in w):
            s.errs.append(('badcmavo', w, line, col)); return
        if w in CM: s.toks.append(Tok('CMAVO', w, CM[w][0], CM[w][1], line, col))
        else: s.errs.append(('badcmavo', w, line, col))
    def word(s, w, line, col):
        if s.zoi is not None:
            if w == s.zoi[1]:
                t = Tok('ZOI', ' '.join(s.zoi[4]), 'ZOI', None, s.zoi[2], s.zoi[3]); t.form, t.term = s.zoi[0], s.zoi[1]
                s.toks.append(t); s.zoi = None
            else: s.zoi[4].append(w)
            return
        if s.znext: s.zoi = (s.znext[0], w, s.znext[1], s.znext[2], []); s.znext = None; return
        if w in ('zoi', "la'o"): s.znext = (w, line, col); return
        k, r = morph.kind(w, s.cultural)
        if k == 'BOGUS': s.errs.append(('bogus', w, line, col)); return
        if k == 'UPPER': s.errs.append(('upper', w, line, col)); return
        if k == 'CMENE':
            bad, sp, ld, tail = r.cmene
            if bad:
                if ld: s.word(w[:ld], line, col)
                s.word(w[ld:tail], line, col + ld); s.word(w[tail:], line, col + tail); return
            s.toks.append(Tok('CMENE', w, 'CMENE', None, line, col)); return
        st = r.starts + [len(w)]
        n = len(r.starts); last = n if k == 'CMAVOS' else n - 1
        # leading commas belong to the first piece
        for i in range(last): s.cmavo(w[st[i]:st[i + 1]], line, col + st[i] - st[0])
        if k != 'CMAVOS':
            t = Tok('BRIVLA', w[st[n - 1]:], 'BRIVLA', None, line, col + st[n - 1] - st[0]); t.bt = k
            s.toks.append(t)
    def run(s, text):
        line = 1; col = 0; depth = 0; buf = ''; pos = None
        for c in text + '\0':
            end = c == '\0'
            col += 1
            if depth:
                if end: break
                if c == ')': depth -= 1
                elif c == '(': depth += 1
                elif c == '\n': line += 1; col = 0
                continue
            if c in '0123456789:' and not end:
                if buf: s.word(buf, *pos); buf = ''
                s.word("pi'e" if c == ':' else DIG[int(c)], line, col); continue
            if end or c in ' \t\n.(>':
                if buf: s.word(buf, *pos); buf = ''
                if c == '\n':
                    line += 1; col = 0
                    if s.toks: s.toks[-1].eols += 1
                    else: s.eol0 += 1
                if c == '(': depth = 1
                continue
            if not buf: pos = (line, col)
            buf += c
        if s.zoi is not None or s.znext: s.errs.append(('unclosed', (s.zoi or s.znext)[0], None, None))
        if s.errs: raise Bad(3, s.errs)
        return s.toks

# ---------- words -> units
def qstr(ts):
    o = []
    for t in ts:
        if t.t == 'ZOI': o.append('zoi+"%s"' % t.w)
        elif t.t == 'ZO': o.append('zo+' + t.w)
        elif t.t == 'ZEI': o.append(t.w)
        elif t.t == 'BROKEN': o.append('<Defective erasure>')
        elif t.t == 'LOhU': o.append("lo'u %s le'u" % t.w)
        else: o.append(t.w)
    return ' '.join(o)

def units(ts):
    """quotations, erasures, zei, ba'e, bu and indicators; returns the list of units"""
    out = []; i = 0                                              # zo
    while i < len(ts):
        t = ts[i]
        if t.t == 'CMAVO' and t.sel == 'ZO':
            if i + 1 >= len(ts): raise Bad(1, [('zoend',)])
            z = Tok('ZO', ts[i + 1].w, 'ZO', None, t.line, t.col); z.raw = [t.w, ts[i + 1].w]; z.eols = ts[i + 1].eols; out.append(z); i += 2
        else: out.append(t); i += 1
    ts = out; out = []; i = 0                                    # lo'u ... le'u
    while i < len(ts):
        t = ts[i]
        if t.t == 'CMAVO' and t.sel == 'LOhU':
            j = i + 1
            while j < len(ts) and not (ts[j].t == 'CMAVO' and ts[j].sel == 'LEhU'): j += 1
            if j >= len(ts): raise Bad(1, [('lohuend',)])
            z = Tok('LOhU', qstr(ts[i + 1:j]), 'LOhU', None, t.line, t.col); z.parts = ts[i + 1:j]; z.eols = ts[j].eols
            out.append(z); i = j + 1
        else: out.append(t); i += 1
    ts = out; out = []; i = 0                                    # si
    issel = lambda t, *s: t.t == 'CMAVO' and t.sel in s
    while i < len(ts):
        t = ts[i]
        if not issel(t, 'SI') or not out: out.append(t); i += 1; continue
        y = out[-1]; need = {'ZOI': 4, 'ZO': 2, 'LOhU': 3, 'BROKEN': y.defects}.get(y.t, 1); got = 0
        while got < need and i < len(ts) and issel(ts[i], 'SI'): got += 1; i += 1
        out.pop()
        if got < need:
            b = Tok('BROKEN', y.w, 'GARBAGE', None, y.line, y.col); b.defects = need - got; out.append(b)
    ts = out; out = []; i = 0                                    # sa
    while i < len(ts):
        t = ts[i]
        if issel(t, 'SA') and i + 1 < len(ts):
            n = ts[i + 1]; j = len(out) - 1
            while j >= 0 and not (out[j].t == n.t and (n.t != 'CMAVO' or out[j].sel == n.sel)): j -= 1
            out = out[:max(j, 0)]; i += 1
        else: out.append(t); i += 1
    ts = out; out = []; i = 0                                    # su
    while i < len(ts):
        t = ts[i]
        if issel(t, 'SU'):
            if i + 1 < len(ts) and issel(ts[i + 1], 'SU'): out = []; i += 2; continue
            j = len(out) - 1
            while j >= 0 and not issel(out[j], 'NIhO', 'LU', 'TUhE', 'TO'): j -= 1
            out = out[:max(j, 0)]; i += 1
        else: out.append(t); i += 1
    ts = out; out = []; i = 0; bad = []                          # zei
    while i < len(ts):
        t = ts[i]
        if issel(t, 'ZEI'):
            if i == 0: bad.append(('zeistart',)); out.append(t); i += 1; continue
            comps = [out[-1]]; j = i; fail = False
            while j < len(ts) and issel(ts[j], 'ZEI'):
                if j + 1 >= len(ts): fail = True; break
                comps.append(ts[j + 1]); j += 2
            if fail: bad.append(('zeiend',)); out.append(t); i += 1; continue
            z = Tok('ZEI', ' zei '.join(qstr([c]) for c in comps), 'ZEI', None, t.line, t.col); z.parts = comps; z.eols = t.eols
            out[-1] = z; i = j
        else: out.append(t); i += 1
    ts = out; out = []; pend = []                                # ba'e
    for k, t in enumerate(ts):
        if issel(t, 'BAhE') and k + 1 < len(ts) and not issel(ts[k + 1], 'FAhO'): pend.append(t)
        else: t.bahe = pend; pend = []; out.append(t)
    ts = out; out = []                                           # bu
    for t in ts:
        if issel(t, 'BU') and out:
            y = out.pop()
            w = {'ZO': 'zo' + y.w, 'BU': y.w + '.bu', 'LOhU': "lo'u-%s-le'u" % y.w, 'BROKEN': '<Defective erasure>'}.get(y.t, y.w)
            b = Tok('BU', w, 'BU', None, t.line, t.col); b.bahe = y.bahe + t.bahe; b.parts = [y]; b.eols = t.eols; out.append(b)
        else: out.append(t)
    ts = out; out = []; i = 0                                    # NAI / CAI suffixes of indicators
    IND = ('UI', 'CAI', 'Y', 'DAhO', 'FUhE', 'FUhO')
    while i < len(ts):
        t = ts[i]; i += 1; out.append(t)
        if issel(t, *IND):
            if i < len(ts) and issel(ts[i], 'NAI'): t.nai = True; i += 1
            if i < len(ts) and issel(ts[i], 'CAI'):
                t.cai = [ts[i].w]; i += 1
                if i < len(ts) and issel(ts[i], 'NAI'): t.cai.append('nai'); i += 1
    ts = out; out = []; initial = True                           # indicators
    for k, t in enumerate(ts):
        if issel(t, *IND) and not (initial and all(issel(u, *IND) for u in ts[:k])): out[-1].ui.append(t)
        else: out.append(t)
    if bad: raise Bad(3, bad)
    return out

# ---------- lookahead markers (what the grammar's PRIVATE_* tokens stand for)
STAG = {'BAI', 'BY', 'CAhA', 'CUhE', 'FAhA', 'FEhE', 'FOI', 'KI', 'LAU', 'MOhI', 'NAhE', 'NAI', 'PA', 'PU', 'ROI', 'SE', 'TAhE', 'TEI', 'VA', 'VEhA', 'VIhA', 'ZAhO', 'ZEhA', 'ZI'}
class Head: pass
def markers(ts):
    H = Tok('HEAD'); H.next = H.prev = H
    def after(y, x): x.prev = y; x.next = y.next; y.next.prev = x; y.next = x
    for t in ts: after(H.prev, t)
    def mk(name, at): m = Tok('MARKER', name, 'PRIVATE_' + name, None, at.line, at.col); return m
    def ins_after(y, n): after(y, mk(n, y))
    def ins_before(y, n): after(y.prev, mk(n, y))
    cm = lambda x, s: x.t == 'CMAVO' and x.sel == s
    mt = lambda x, s: x.t == 'MARKER' and x.w == s
    N = morph.nfa('stag_nfa.in')
    # tenses: longest match of the tense automaton
    x = H.next
    while x is not H:
        st = N.init; ok = None; y = x
        while y is not H:
            tok = y.sel if y.t == 'CMAVO' and y.sel in STAG else 'BU' if y.t == 'BU' else None
            st = N.step(st, tok) if tok else -1
            if st < 0: break
            if N.result_of(st) == 'SUCCESS': ok = y
            y = y.next
        if ok: ins_before(x, 'START_TENSE'); ins_after(ok, 'END_TENSE'); x = ok.next.next
        else: x = x.next
    def each():
        x = H.next
        while x is not H: yield x; x = x.next
    def back(x, name, sels, end=None, endsels=()):
        y = x.prev
        for s in sels:
            if cm(y, s): y = y.prev
        ins_after(y, name)
        if end:
            y = x.next
            for s in endsels:
                if cm(y, s): y = y.next
            ins_before(y, end)
    for x in each():
        if cm(x, 'JA'): back(x, 'START_JEK', ('SE', 'NA'), 'END_JEK', ('NAI',))
    for x in each():
        if cm(x, 'GIhA'): back(x, 'START_GIHEK', ('SE', 'NA'))
    for x in each():
        if cm(x, 'A'): back(x, 'START_EK', ('SE', 'NA'))
    for x in each():
        if cm(x, 'GUhA'): back(x, 'START_GUHEK', ('SE',))
    for x in each():
        if cm(x, 'JOI'): back(x, 'START_JOIK', ('SE',), 'END_JOIK', ('NAI',))
        elif cm(x, 'BIhI'): back(x, 'START_JOIK', ('SE', 'GAhO'), 'END_JOIK', ('NAI', 'GAhO'))
    for x in each():                                             # gek
        if cm(x, 'GA'): back(x, 'START_GEK', ('SE',))
        elif cm(x, 'GI'):
            z = x.prev
            if mt(z, 'END_TENSE'):
                while True:
                    while not mt(z, 'START_TENSE'): z = z.prev
                    y = z.prev; again = False
                    for nm in ('JOIK', 'JEK'):
                        if mt(y, 'END_' + nm):
                            while not mt(y, 'START_' + nm): y = y.prev
                            y = y.prev
                            again = y is not H and mt(y, 'END_TENSE'); break
                    if not again: ins_before(z, 'START_GEK'); break
                    z = y.prev
            elif mt(z, 'END_JOIK'):
                while z is not H and not mt(z, 'START_JOIK'): z = z.prev
                if z is not H: ins_before(z, 'START_GEK')
    def over(x, nm):
        if not mt(x, 'START_' + nm): return None
        while not mt(x, 'END_' + nm): x = x.next
        return x.next
    def over2(x, nm, sel):
        x = x.next
        if cm(x, 'NA'): x = x.next
        if cm(x, 'SE'): x = x.next
        x = x.next
        return x.next if cm(x, 'NAI') else x
    def look(x):
        while mt(x, 'START_TENSE'):
            while not mt(x, 'END_TENSE'): x = x.next
            x = x.next
            y = over(x, 'JEK') or over(x, 'JOIK')
            if y is None: break
            if not mt(y, 'START_TENSE'): return None, x
            x = y
        return ('BO' if cm(x, 'BO') else 'KE' if cm(x, 'KE') else None), x
    x = H.next
    while x is not H:
        if cm(x, 'I'):
            y = x.next; r, nx = look(over(y, 'JEK') or over(y, 'JOIK') or y)
            if r == 'BO': ins_before(x, 'I_BO')
            x = nx
        else: x = x.next
    for x in each():
        if cm(x, 'I') and not mt(x.prev, 'I_BO') and (mt(x.next, 'START_JEK') or mt(x.next, 'START_JOIK')): ins_before(x, 'I_JEKJOIK')
    for nm in ('JEK', 'EK', 'JOIK', 'GIHEK'):
        x = H.next
        while x is not H:
            if mt(x, 'START_' + nm):
                if nm in ('JEK', 'JOIK') and (cm(x.prev, 'I') or mt(x.prev, 'END_TENSE')): x = x.next; continue
                y = over(x, nm) if nm in ('JEK', 'JOIK') else over2(x, nm, None)
                r, nx = look(y)
                if r: ins_before(x, nm + '_' + r)
                x = nx
            else: x = x.next
    for sel in ('MAI', 'ROI', 'MOI'):
        for x in each():
            if cm(x, sel):
                y = x.prev
                while y is not H and y.t != 'MARKER' and (y.t == 'BU' or y.t == 'CMAVO' and y.sel in ('PA', 'BU', 'BY', 'LAU', 'TEI', 'FOI')): y = y.prev
                if y is not x.prev: ins_after(y, 'NUMBER_' + sel)
    for x in each():
        if cm(x, 'NAhE') and cm(x.next, 'BO'): ins_before(x, 'NAhE_BO')
    for x in each():
        if cm(x, 'NA') and cm(x.next, 'KU'): ins_before(x, 'NA_KU')
    return list(each())
def lex(text, cultural=False): return Lexer(cultural).run(text)
def tokens(text): return markers(units(lex(text)))
