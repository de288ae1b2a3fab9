"""C15: output formats. Oracle: the LaTeX output is parsed strictly into words, glosses, tags and brackets; every other format must be the rendering of exactly those."""
import re, os, random
from lib.harness import Family
from lib import gen as G, jbo
from lib.bridi import B as Bridi
from model import parse, text as T
PROGS = ['jbofihe', 'smujajgau']
RULE = ("A case is an accepted text (natural bridi, derivations of the whole grammar, quoted text with characters special to HTML and LaTeX; one or many lines), a width and perhaps -ie. The LaTeX output is "
        "parsed strictly into a sequence of words, glosses, tags and numbered brackets, and plain, HTML, block (two widths) and LaTeX block outputs must be the renderings of that sequence, with line breaks "
        "where the layout rules put them; the words and bracketed groups must be those of the bare form. Non-trivial: at least three words and one bracket pair; distinct by text and options.")
ASSUMPTIONS = ['glosses hold no slash, bracket, backslash or tilde (dictionary made for the check)', 'texts are ASCII']
# ---- dictionary: glosses with special characters
def dictionary():
    rng = random.Random(5); L = []
    def g(k): return rng.choice(['', '', '', '', 'the ', 'a < b ', 'x & y ', '100% ', 'n_', '#', 'p{q} ', 'c^d ', '> ', '"q" ']) + 'g%d' % k + rng.choice(['', '', '', '', '', rng.choice('<>&%#_^}{'), ' <', '<<'])
    n = 0
    for w in sorted(T.CM):
        if rng.random() < .75: n += 1; L.append('%s:%s' % (w, rng.choice(['$LEFTARROW', '$OPENQUOTE', '$CLOSEQUOTE']) if rng.random() < .03 else g(n)))
        if rng.random() < .2: n += 1; L.append('%s%s:%s' % (w, rng.choice(['@TERM', '@SELBRI', '@NOUN', '@JAI', '@CONNECT']), g(n)))
    for w in G.GISMU + sorted(G.brivla_pool()) + ['broda', 'brode', 'brodi', 'nu', 'ka', "du'u", 'ni']:
        if rng.random() < .7:
            for p in '12345': n += 1; L.append('%s%s:%s%s' % (w, p, rng.choice(['D;', 'S;', 'A;', 'P;', 'R;', 'I;', '']), g(n).replace('"', '')))
    for w in ('me', 'moi', 'mei', "si'e", "cu'o"):
        for p in '12': n += 1; L.append('%s%s:D;num %%d g%d' % (w, p, n))
    for a in ('e', 'a', 'je', 'ja', "gi'e", "gi'a"):
        for c in ('@AFTER', '@GE', '@GI'): n += 1; L.append(a.replace("gi'", '') + c + ':' + g(n))
    return '\n'.join(L) + '\n'
DICT = {}
def setup(ctx, tier):
    G.gram().pairs(); t = os.path.join(ctx.scratch, 'g.txt'); DICT['d'] = os.path.join(ctx.scratch, 'g.dat'); open(t, 'w').write(dictionary())
    if ctx.run('smujajgau', [DICT['d'], t]).rc: raise Exception('smujajgau')
# ---- generation
def lines(rng, ws):
    p = rng.choice([0, 0, .03, .15, .5])
    return ''.join(w + (rng.choice(['\n', '\n', '\n\n', ' \n', '\n\n\n']) if rng.random() < p else ' ') for w in ws).rstrip(' ') + '\n'
def opts(rng): return {'w': rng.choice([1, 10, 20, 30, 40, 60, 80, 100, 120, 200, 1000]), 'w2': rng.choice([25, 50, 75, 100, 300]), 'o': ['-ie'] if rng.random() < .3 else []}
def gen_bridi(rng, i):
    while 1:
        s = Bridi(rng).text(rng.choice([1, 2, 2, 3]))
        if len(s) < 600: return dict(opts(rng), s=lines(rng, s.split()))
def gen_gram(rng, i): return dict(opts(rng), s=lines(rng, G.words(rng, i, budget=rng.choice([10, 15, 25, 40, 60]), mut=0)))
QC = ['&', '<', '>', '{', '}', '%', '_', '#', '$', '\\', '^', '~', '"', '/', '[', ']', '<b>', '&lt;', '&amp;', '\\end{document}', '$x$', '100%', 'a<b', '``', "''", '<-', '~~', '%d', '%s', ':]', '|', '*', '=', '+', '-', '@']
def gen_quote(rng, i):
    ws = []
    for _ in range(rng.choice([1, 1, 2])):
        q = [''.join(rng.choice([rng.choice(QC), rng.choice(QC), 'ab', 'broda', 'A', '7']) for _ in range(rng.randint(1, 4))) for _ in range(rng.randint(0, 6))]
        d = rng.choice(['gy', 'by', 'glico', 'x']); q = [x for x in q if x.strip(".,'") and d not in re.split(r"[^a-z']", x.lower())]
        ws += rng.choice([['mi', 'cusku'], ['lo', 'broda', 'cu', 'du'], [], ["la'o", 'ly', 'Xy&z', 'ly', 'cusku']]) + [rng.choice(['zoi', "la'o"]), d] + q + [d] + rng.choice([[], ['do'], ['cu', 'broda'], ['.ui']]) + ['.i']
    return dict(opts(rng), s=lines(rng, ws[:-1]))
# ---- strict reading of the LaTeX output
BR = [(r'\(', r'\)', 'ROUND'), (r'\[', r'\]', 'SQUARE'), (r'\\\{', r'\\\}', 'BRACE'), (r'\$\\langle\$', r'\$\\rangle\$', 'ANGLE'), (r'\$\\lceil\$', r'\$\\rceil\$', 'CEIL'),
      (r'\$\\lfloor\$', r'\$\\rfloor\$', 'FLOOR'), (r'\{\\large\{\} \$\\triangleleft\$\}', r'\{\\large\{\} \$\\triangleright\$\}', 'TRI')]
CH = r'(?:\\[&{}%_#$]|\\[\^~]\{\}|\\textbackslash\{\}|\$[<>]\$|[^\\{}$&%#_^~<>])*'
TOK = re.compile('|'.join([r'(?P<%s%s>%s)\{\}\$\^\{\\textit\{\\scriptsize (?P<n%s%s>\d+)\}\}\$' % (k, b, p, k, b) for o, c, b in BR for k, p in (('o', o), ('c', c))]) +
                 r'|\\mbox\{\\textbf\{(?P<l>%s)\}\\/\}|\\textsl\{\\small\{\}(?P<e>%s)\}|\\textsl\{\\footnotesize\{\}(?P<t>%s|~:\] )\}|(?P<s>\{\\reflectbox\{\\zd\\char233\}\}|``|\'\')|\\vspace\{(?P<p>1\.[05]0)ex\}' % (CH, CH, CH))
def untex(s): return re.sub(r'\\textbackslash\{\}|\\([\^~])\{\}|\\(.)|\$([<>])\$', lambda m: m.group(1) or m.group(2) or m.group(3) or '\\', s)
def tex(s): return re.sub(r'[$&{}%_#]', r'\\\g<0>', s).replace('^', '\\^{}').replace('<', '\0').replace('>', '$>$').replace('\0', '$<$')
def textext(s): return ''.join({'\\': '\\textbackslash{}', '^': '\\^{}', '~': '\\~{}', '<': '$<$', '>': '$>$'}.get(c, '\\' + c if c in '&{}%_#$' else c) for c in s)
class Ill(Exception): pass
def read(out):
    m = re.search(r'\\begin\{document\}\n(.*)\\end\{document\}\n$', out, re.S)
    if not m: raise Ill('no document: %r' % out[-200:])
    s = m.group(1); i = 0; ev = []; tag = None; gap = True
    while 1:
        while i < len(s) and s[i].isspace(): i += 1; gap = True
        if i >= len(s): break
        m = TOK.match(s, i)
        if not m: raise Ill('ill-formed LaTeX at %r' % s[i:i + 80])
        k = next(a for a, b in m.groupdict().items() if b is not None); v = m.group(k)
        if k in 'les' and ev and ev[-1][0] in 'les' and not gap: raise Ill('no space before %r' % s[i:i + 80])
        i = m.end(); gap = False
        if k == 't':
            if tag is None: tag = []
            tag.append(untex(v))
            if v == '~:] ':
                tag[-1] = ':]'; ev.append(('t', tag)); tag = None
            continue
        if tag is not None: raise Ill('something inside tags: %r' % s[i - 40:i + 80])
        if k == 'l': ev.append(('l', untex(v)))
        elif k == 'e': ev.append(('e', untex(v)))
        elif k == 's': ev.append(('s', {'`': '``', "'": "''", '{': '<-'}[v[0]]))
        elif k == 'p': ev.append(('p', v))
        else: ev.append((k[0], k[1:], int(m.group('n' + k))))
    st = []
    for e in ev:
        if e[0] == 'o': st.append(e[1:])
        elif e[0] == 'c':
            if not st or st.pop() != e[1:]: raise Ill('bracket %s%d closed at the wrong place' % e[1:])
    if st: raise Ill('brackets not closed: %s' % st)
    ns = [e[2] for e in ev if e[0] == 'o']
    if sorted(ns) != sorted(set(ns)): raise Ill('a bracket number is used twice')
    for e in ev:
        if e[0] == 't':
            t = e[1]
            if t[0] != '[' or t[-1] != ':]' or len(t) < 3: raise Ill('odd tags %s' % t)
    return ev
# ---- renderings
def walk(out, ps, what):
    """out must be the pieces with blanks between them, with at least one between two words. -> separators before each piece, or raises"""
    i = 0; n = len(out); gaps = []
    for k, (p, w) in enumerate(ps):
        j = i
        while i < n and out[i].isspace(): i += 1
        gaps.append(out[j:i])
        if w and k and ps[k - 1][1] and not gaps[-1]: raise Ill('%s: no space before %r' % (what, out[i:i + 60]))
        for c in p:
            if c.isspace(): continue
            while i < n and out[i].isspace(): i += 1
            if i >= n or out[i] != c: raise Ill('%s output has %r where %r is due' % (what, out[max(0, i - 40):i + 60], p))
            i += 1
    if out[i:].strip(): raise Ill('%s output goes on with %r' % (what, out[i:i + 80]))
    return gaps + [out[i:]]
PB = {'ROUND': '()', 'SQUARE': '[]', 'BRACE': '{}', 'ANGLE': '<>', 'CEIL': '^^', 'FLOOR': '^^', 'TRI': ('<<', '>>')}
def plain(ev):
    return [(PB[e[1]][e[0] == 'c'], 0) if e[0] in 'oc' else (e[1], 1) if e[0] in 'ls' else ('/%s/' % e[1], 1) if e[0] == 'e' else (''.join(e[1]), 0) for e in ev if e[0] != 'p']
def esc(s): return s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')
HB = dict(PB, CEIL='()', FLOOR='()')
def html(ev):
    o = []
    for e in ev:
        if e[0] in 'oc': o.append((esc(HB[e[1]][e[0] == 'c']) + '<SUB><FONT SIZE="-3">%d</FONT></SUB>' % e[2], 0))
        elif e[0] == 'l': o.append(('<B>%s</B>' % esc(e[1]), 1))
        elif e[0] == 'e': o.append(('<I>%s</I>' % esc(e[1]), 1))
        elif e[0] == 's': o.append(('&lt;-' if e[1] == '<-' else '<FONT SIZE=+2>&quot;</FONT>', 1))
        elif e[0] == 't': o.append(('<U><FONT SIZE=-1>%s </FONT></U>' % esc(''.join(e[1])), 0))
        elif e[0] == 'p': o.append(('<P><P>', 0))
    return o
class Block:
    def __init__(b): b.loj = []; b.eng = []; b.tags = None; b.br = None
def blocks(ev, text):
    out = []; cur = Block()
    def flush():
        nonlocal cur
        if cur.loj or cur.eng or cur.tags or cur.br: out.append(cur)
        cur = Block()
    for e in ev:
        if e[0] in 'oc': flush(); cur.br = e
        elif e[0] == 'l':
            if cur.eng or cur.br: flush()
            cur.loj.append(e[1])
        elif e[0] in 'es':
            if cur.br and not text: flush()  # (the text form puts a gloss without words in the column of the bracket before it)
            cur.eng.append(e)
        elif e[0] == 't':
            flush(); cur.tags = e[1]
    flush(); return out
BB = {'ROUND': ('(((', ')))'), 'SQUARE': ('[[[', ']]]'), 'BRACE': ('{{{', '}}}'), 'ANGLE': ('<<<', '>>>'), 'TRI': (('<<',) * 3, ('>>',) * 3), 'CEIL': ((' /', '|', '|'), ('\\', ' |', ' |')), 'FLOOR': (('|', '|', ' \\'), (' |', ' |', '/'))}
def rows(b):
    eng = ''.join(x[1] + ' ' if x[0] == 'e' else {'<-': '<-'}.get(x[1], '"') for x in b.eng)
    if b.br:
        r = [x + ' ' for x in BB[b.br[1]][b.br[0] == 'c']] + ['%d ' % b.br[2]]; r[1] += eng; return r
    r = [''.join(x + ' ' for x in b.loj), eng]
    if b.tags:
        row = ''; jai = False
        for t in b.tags[1:-1]:
            if t == ', ': r.append(row); row = ''; jai = False
            elif t == 'jai+<tag>1: (': row += t; jai = True
            elif jai and re.fullmatch(r'#\d+\)', t): row += t
            else: row += t + ' '
        r.append(row)
    return r
def align(bs, seps, tb):
    o = []; i = 0
    for b in tb:
        n = 2 if b.br and b.eng else 1; o.append(seps[i]); i += n  # a gloss joined to a bracket is a block of its own in LaTeX
    return o
def layout(bs, seps, width):
    out = []; line = []; used = 0
    def flush():
        nonlocal line, used
        if used:
            n = max(len(r) for r in line); rs = [''] * n; x = 0
            for i in range(n):
                rs[i] = ''.join((r[i] if i < len(r) else '').ljust(max(map(len, r))) for r in line)
            out.append(''.join(r + '\n' for r in rs) + '\n')
        line = []; used = 0
    for b, sp in zip(bs, seps):
        for s in sp: flush(); out.append('\n' + ('-' * 60 + '\n' if s else ''))
        r = rows(b); w = max(map(len, r))
        if w + used > width: flush()
        line.append(r); used += w
    flush(); return ''.join(out)
LB = {'ROUND': '()', 'SQUARE': '[]', 'BRACE': ('\\{', '\\}'), 'ANGLE': ('$\\langle$', '$\\rangle$'), 'CEIL': ('$\\lceil$', '$\\rceil$'), 'FLOOR': ('$\\lfloor$', '$\\rfloor$'), 'TRI': ('\\TL{}', '\\TR{}')}
def latexblock(bs):
    o = []; kept = None
    for b in bs:
        # tags go with the next words
        if b.br: o.append((LB[b.br[1]][b.br[0] == 'c'] + '{}$^{\\IS{%d}}$' % b.br[2], 0)); continue
        if b.tags and not b.loj and not b.eng:
            if kept: raise Ill('two sets of tags before a word')
            kept = b.tags; o.append(None); continue
        tag = ''
        if kept and b.tags: raise Ill('two sets of tags before a word')
        tags = kept or b.tags or []; kept = None
        for t in tags:
            if t == '[' and not tag: tag = '['; continue
            if t in (', ', ':]'): tag += t; continue
            tag += ('\n' if len(tag) > 1 else '') + tex(t)
        eng = ''.join(' ' + tex(x[1]) if x[0] == 'e' else {'<-': '{\\reflectbox{\\zd\\char233}}'}.get(x[1], x[1]) for x in b.eng)
        o.append(('\\BT[t]{l}{\\bf %s}\\\\{\\it %s}\\\\[-3pt]{\\ISS{}%s}\\ET' % (''.join(' ' + textext(x) for x in b.loj), eng, tag.replace('\n', '}\\\\[-3pt]{\\ISS{}')), 0))
    return o
def gaps_latexblock(s, ps):
    """separators before each block: lists of whether more than one line end was pending"""
    i = 0; seps = []; last = ''
    for x in ps:
        if x is None: seps.append([]); continue
        p = x[0]
        if last.endswith('\\ET'):
            if s[i:i + 1] != '\n': raise Ill('LaTeX block: no line end after %r' % s[i - 40:i])
            i += 1
        g = re.compile(r'(?: *\n\n(?:\\vspace\{2ex\})?)* *').match(s, i).group(0); i += len(g)
        x = re.findall(r'\n\n(\\vspace\{2ex\})?', g)
        seps.append([bool(a) for a in x])
        if not s.startswith(p, i): raise Ill('LaTeX block output has %r where %r is due' % (s[i:i + 200], p))
        i += len(p); last = p
    if s[i:].strip(): raise Ill('LaTeX block output goes on with %r' % s[i:i + 80])
    return seps
def squash(s): return re.sub(r'[\s\[\](){}<>.0-9^]', '', s).replace('peinai', 'pei')
def bare(s):
    """bare form -> text without brackets, spans, ends of chunks"""
    t = ''; st = []; spans = set(); cut = {0}
    for m in re.finditer(r'\((\d+)|\)(\d+)|([\[{<])|([\]}>])|(\s+)|([^\[\](){}<>\s]+)', s):
        if m.group(1) is not None or m.group(3): st.append(len(t)); cut.add(len(t))
        elif m.group(2) is not None or m.group(4): spans.add((st.pop(), len(t))); cut.add(len(t))
        elif m.group(5): cut.add(len(t))
        else: t += m.group(6)
    if st: raise Ill('bare form: brackets not closed')
    return t, spans, cut
def test(ctx, c):
    s, o = c['s'], c['o']; e = {'JBOFIHE_DICTIONARY': DICT['d']}
    def run(*a): return ctx.run('jbofihe', o + list(a), s, env=e)
    L = run('-l')
    if L.rc: ctx.label('not accepted'); return
    try: return judge(ctx, c, run, L)
    except Ill as x: return str(x)
def judge(ctx, c, run, L):
    s, o = c['s'], c['o']; ev = read(L.out)
    kinds = [e[0] for e in ev]; ctx.label('%d words' % (kinds.count('l') // 10 * 10), '%d brackets' % (kinds.count('o') // 10 * 10), *sorted({'has ' + {'l': 'word', 'e': 'gloss', 't': 'tags', 'p': 'line end', 's': 'special', 'o': 'bracket', 'c': 'bracket'}[k] for k in kinds}))
    if kinds.count('l') >= 3 and 'o' in kinds: ctx.nontrivial((s, str(o), c['w']))
    R = {k: run(*a) for k, a in (('plain', ['-x']), ('html', ['-H']), ('lb', ['-l', '-b']), ('b', ['-x', '-b', '-w', str(c['w'])]), ('b2', ['-b', '-x', '-w', str(c['w2'])]), ('bare', []))}
    for k in R:
        if R[k].rc: return 'status %d for format %s' % (R[k].rc, k)
        if k != 'bare' and R[k].err != L.err: return 'different messages for format %s: %r, %r' % (k, R[k].err, L.err)
    pg = walk(R['plain'].out, plain(ev), 'plain'); m = re.search(r'<BODY>\n(.*)</BODY>\n(?:</HTML>\n)?$', R['html'].out, re.S)
    if not m: return 'no HTML body'
    walk(m.group(1), html(ev), 'HTML')
    # line ends of the plain form are where LaTeX has vertical space
    n = 0; pp = [x > 0 for x in range(0)]; at = set(); got = set()
    for x in ev:
        if x[0] == 'p': at.add(n)
        else: n += 1
    for i, g in enumerate(pg):
        if '\n\n' in g: got.add(i)
    if at != got: return 'plain output breaks lines before items %s, LaTeX before items %s' % (sorted(got), sorted(at))
    if len(at) > s.count('\n'): return 'more line breaks than the text has'
    bs = blocks(ev, False); m = re.search(r'\\begin\{document\}\n\\small\n(.*)\\end\{document\}\n$', R['lb'].out, re.S)
    if not m: return 'no LaTeX block document'
    seps = gaps_latexblock(m.group(1), latexblock(bs))
    if sum(map(len, seps)) > s.count('\n'): return 'LaTeX block output has more line breaks than the text'
    tb = blocks(ev, True); tseps = align(bs, seps, tb)
    for k, w in (('b', c['w']), ('b2', c['w2'])):
        x = layout(tb, tseps, w)
        if R[k].out != x:
            i = next((i for i, (p, q) in enumerate(zip(x, R[k].out)) if p != q), min(len(x), len(R[k].out)))
            return 'block output of width %d: %r where %r is due\n%s' % (w, R[k].out[max(0, i - 30):i + 60], x[max(0, i - 30):i + 60], R[k].out[:1500])
    gl = ''.join(x[1] for x in ev if x[0] == 'l')
    if squash(gl) != squash(R['bare'].out): return 'the bare form shows the words %r, the glossed form %r' % (squash(R['bare'].out), squash(gl))
    if not re.search(r'[\[\](){}<>]', s) and 'pei' not in s and not re.search(r'\d', s):
        t, spans, cut = bare(R['bare'].out); u = ''; st = []
        for x in ev:
            if x[0] == 'l': u += x[1].replace('.', '').replace(' ', '')
            elif x[0] == 'o': st.append(len(u))
            elif x[0] == 'c':
                a, b = st.pop(), len(u)
                if (a, b) not in spans and (a not in cut or b not in cut or any(a < p < b for q in spans for p in q)): return 'bracket %d holds %r, which is no group of the bare form' % (x[2], u[a:b])
def families(): return [Family('bridi', gen_bridi, test, 2500, 80000, jbo.shrink), Family('grammar', gen_gram, test, 2500, 80000, jbo.shrink), Family('quotes', gen_quote, test, 1500, 30000, jbo.shrink)]
