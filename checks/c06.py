"""C06: elided terminators. Metamorphic: what -ie shows is put into the text, what -se and -sev suggest is taken out of it; the tree, terminators aside, must stay."""
import re, random
from lib.harness import Family
from lib import gen as G, jbo
from lib.bridi import B as Bridi
from model import parse, text as T
PROGS = ['jbofihe']
RULE = ("a case is an accepted text (derivations of the whole grammar and natural bridi, with indicators) in a layout of one or many lines. restore: the terminators -ie shows are written into the text at their places; the new text must be "
        "accepted, with and without -re, with the same tree (terminators aside, every node and label compared), with nothing shown as elided any more, and -re must refuse the text as it was unless nothing was elided. suggest: a part of the elided terminators is written in; "
        "every suggestion of -se (omit one or several words, or reduce them to a pattern) is carried out at the printed position and must leave the tree as it was, each pattern must be minimal, no word with an indicator may be suggested, any other single terminator must be needed, and -sev must suggest the "
        "same. Non-trivial: at least one terminator is elided, or suggested; distinct by text and subset.")
ASSUMPTIONS = ["texts without erasure", "that nothing else could be omitted is not judged for words that a free modifier or indicator follows, nor for ke'e and me'u and words between letters and a number, for which jbofihe is cautious"]
ELID = set(parse.ELID) - {'FOI', 'FUhO'}
LEAF = re.compile(r'^([| ]*)\+-(\w+)(?: +: (.*))?$')
# (these mark that no cu was there)
DROP = {'NO_CU_SENTENCE'}
class Ill(Exception): pass
def tree(out):
    """-> (leaves [(kind, word, selma'o, elided)], skeleton)"""
    st = []; leaves = []
    for l in out.split('\n'):
        m = LEAF.match(l)
        if not m:
            if l.strip() and l != 'CHUNKS': raise Ill('odd line %r' % l)
            continue
        d = len(m.group(1)) // 2; n = m.group(2)
        if m.group(3) is not None:
            w = m.group(3); sel = None
            if n == 'CMAVO': w, sel = re.match(r'(\S+) \[(\w+)\]$', w).groups()
            el = n == 'CMAVO' and w != w.lower()
            leaves.append((n, w, sel, el)); node = (d, 'leaf', None if sel in ELID and n == 'CMAVO' else (n, w))
        else:
            node = None
        kids = []
        if node is None:
            while st and st[-1][0] == d + 1: kids.append(st.pop())
            kids = [k[2] for k in kids[::-1] if k[2] is not None]
            if not kids: v = None
            elif len(kids) == 1: v = ((n + ' ' + kids[0][0]).strip(), kids[0][1])
            else: v = ('' if n in DROP else n, kids)
            node = (d, n, v)
        else: node = (d, n, node[2])
        st.append(node)
    return leaves, [x[2] for x in st]

CAUTIOUS = {"ke'e", "me'u"}
TERM = {parse.ELID[x] for x in ELID}
FREE = {'SEI', 'SOI', 'COI', 'DOI', 'TO', 'XI', 'UI', 'CAI', 'Y', 'DAhO', 'FUhO', 'FUhE', 'NAI'}
def align(leaves, ws):
    """-> [(index of the source word it stands before, elided word)], or None when the leaves do not spell the words"""
    i = 0; o = []
    for k, w, sel, el in leaves:
        if el: o.append((i, w.lower())); continue
        if k == 'ZOI':
            if i + 2 > len(ws) or ws[i] not in ('zoi', "la'o"): return None
            d = ws[i + 1]; i += 2
            while i < len(ws) and ws[i] != d: i += 1
            i += 1; continue
        if k == 'ZO': i += 2; continue
        if k == 'LOhU':
            while i < len(ws) and ws[i] != "le'u": i += 1
            i += 1; continue
        for x in re.split(r'[\s.]+', w) + ['bu'] * (k == 'BU'):
            if not x: continue
            if i >= len(ws) or ws[i] != x: return None
            i += 1
    return o if i == len(ws) else None
def insert(ws, a, keep=lambda: True):
    R = []; j = 0
    for p, w in a:
        while j < p: R.append(ws[j]); j += 1
        if keep(): R.append(w)
    return R + ws[j:]
def show(s): return s if s is None else (s[0], [show(x) for x in s[1]]) if isinstance(s[1], list) else s
def run(ctx, o, ws):
    """-> (leaves, skeleton) or None if not accepted"""
    r = ctx.run('jbofihe', o + ['-tf'], ' '.join(ws) + '\n')
    if r.rc: return None
    return tree(r.out)
def diff(a, b):
    """first nodes that differ"""
    if isinstance(a, list) or (isinstance(a, tuple) and isinstance(a[1], list) and isinstance(b, tuple) and isinstance(b[1], list) and a[0] == b[0] and len(a[1]) == len(b[1])):
        x, y = (a, b) if isinstance(a, list) else (a[1], b[1])
        for p, q in zip(x, y):
            if p != q: return diff(p, q)
    return '%s / %s' % (str(a)[:300], str(b)[:300])
def start(ctx, c):
    ws = c['s'].split(); t = run(ctx, ['-ie'], ws)
    if not t: ctx.label('not accepted'); return None
    a = align(t[0], ws)
    if a is None: ctx.label('words not in order'); return None
    return ws, t, a
def test_restore(ctx, c):
    x = start(ctx, c)
    if not x: return
    ws, t, a = x; R = insert(ws, a); ctx.label('%d elided' % min(len(a), 10), *{w for p, w in a})
    if a: ctx.nontrivial(c['s'])
    for o in (['-ie'], ['-re']):
        b = run(ctx, o, R)
        if not b: return 'with the terminators shown by -ie written in, %s refuses the text: %s' % (o[0], ' '.join(R))
        if b[1] != t[1]: return 'with the terminators shown by -ie written in, the tree under %s is another: %s\n%s' % (o[0], ' '.join(R), diff(t[1], b[1]))
        if o[0] == '-ie' and any(l[3] for l in b[0]): return 'after writing in what -ie shows, it shows %s: %s' % (' '.join(l[1] for l in b[0] if l[3]), ' '.join(R))
    b = run(ctx, ['-re'], ws)
    if a and b: return '-re accepts the text although -ie shows %s as elided' % ' '.join(w for p, w in a)
SUG = re.compile(r"You could omit (the word|both the words|all the words) '(.*)'(?:\n \(from line (\d+) col (\d+) to line (\d+) col (\d+)\)| \(at line (\d+) col (\d+)\))\n|"
                 r"The words '(.*)'\n \(from line (\d+) col (\d+) to line (\d+) col (\d+)\)\ncould be safely reduced to any of these minimal patterns:\n((?:  Pattern \d+ : .*\n)+)")
def suggestions(out):
    o = []
    for m in SUG.finditer(out):
        g = m.groups()
        if g[0]:
            w = g[1].split(); n = {'the word': 1, 'both the words': 2}.get(g[0], 3)
            if min(len(w), 3) != n: raise Ill('%r for %d words' % (g[0], len(w)))
            o.append((w, (int(g[2] or g[6]), int(g[3] or g[7])), (int(g[4] or g[6]), int(g[5] or g[7])), [[]]))
        else: o.append((g[8].split(), (int(g[9]), int(g[10])), (int(g[11]), int(g[12])), [l.split(':', 1)[1].split() for l in g[13].strip('\n').split('\n')]))
    rest = SUG.sub('', out)
    if re.search('You could|could be safely|Pattern', rest): raise Ill('odd suggestion in %r' % rest[:300])
    return o
def free(ws, k): return k + 1 < len(ws) and (T.CM.get(ws[k + 1], ('',))[0] in FREE or ordinal(ws, k + 1))
def ordinal(ws, k):
    while k < len(ws) and (T.CM.get(ws[k], ('',))[0] in ('PA', 'BY', 'LAU', 'TEI', 'FOI') or (k + 1 < len(ws) and ws[k + 1] == 'bu') or ws[k] == 'bu'): k += 1
    return k < len(ws) and T.CM.get(ws[k], ('',))[0] == 'MAI'
def letnum(ws, i, j):
    """words between letters and a number, where jbofihe is cautious"""
    while i and T.CM.get(ws[i - 1], ('',))[0] in ('UI', 'CAI', 'NAI', 'Y', 'DAhO', 'FUhO'): i -= 1
    return i and (ws[i - 1] == 'bu' or T.CM.get(ws[i - 1], ('',))[0] in ('BY', 'FOI')) and T.CM.get((ws + [''])[j], ('',))[0] == 'PA'
def test_suggest(ctx, c):
    x = start(ctx, c)
    if not x: return
    rng = random.Random(c['k']); p = c.get('p', rng.choice([0, .3, .6, 1])); ws = insert(x[0], x[2], lambda: rng.random() < p)
    t0 = run(ctx, [], ws)
    if not t0: ctx.label('rejected when partly restored'); return
    s = ''; at = {}; line = col = 1
    for k, w in enumerate(ws):
        at[line, col] = k; s += w; col += len(w)
        if rng.random() < c['nl']: s += '\n'; line += 1; col = 1
        else: s += ' '; col += 1
    if 'p' in c:
        # the number of patterns can grow exponentially with that of the words
        b = ctx.run('sh', ['-c', 'timeout 2 "$0" -se | head -c 1000000 | wc -c; true', ctx.b.path('jbofihe')], s, path='/bin/sh')
        if int(b.out) >= 1000000 or int(b.out) == 0: ctx.label('too many patterns'); return
    r = ctx.run('jbofihe', ['-se'], s); v = ctx.run('jbofihe', ['-sev'], s); pl = ctx.run('jbofihe', [], s)
    if r.rc or v.rc: return 'not accepted with -se or -sev: %s' % s
    if not r.out.endswith(pl.out): return '-se changes the bracketed form of %s' % s
    sug = suggestions(r.out)
    if suggestions(v.out) != sug: return '-sev suggests other things than -se'
    most = 5 if 'p' in c else 40; said = {}; ctx.label('%d suggestions' % min(len(sug), 10))
    if sug: ctx.nontrivial((c['s'], c['k']))
    for w, a, b, pats in sug:
        k = at.get(a)
        if k is None or ws[k:k + len(w)] != w or at.get(b) != k + len(w) - 1: return '-se speaks of %s at %s to %s, which are other words: %r' % (w, a, b, s)
        if T.CM.get((ws + [''])[k + len(w)], ('',))[0] in ('UI', 'CAI', 'DAhO', 'FUhO', 'Y') and ws[k + len(w) + 1:k + len(w) + 2] not in (['bu'], ['zei']): return '-se suggests to omit %s, whose indicator %s would fall on another word: %r' % (' '.join(w), ws[k + len(w)], s)
        ctx.label(*(['omit ' + y for y in w] if pats == [[]] else ['pattern of %d' % len(w)]))
        if len({tuple(q) for q in pats}) != len(pats): ctx.label('same pattern twice')
        for q in pats if len(pats) <= most else rng.sample(pats, most):
            if not sub(q, w): return 'pattern %s is no part of %s' % (q, w)
            def variant(q): return run(ctx, [], ws[:k] + q + ws[k + len(w):])
            t = variant(q); what = "'%s' (line %d col %d) can be reduced to '%s'" % (' '.join(w), a[0], a[1], ' '.join(q))
            if not t: return '-se says that %s, but then the text is refused: %r' % (what, s)
            if t[1] != t0[1]: return '-se says that %s, but then the tree is another: %r\n%s' % (what, s, diff(t0[1], t[1]))
            for j in range(len(q)) if len(q) <= most else rng.sample(range(len(q)), most):
                if CAUTIOUS & set(w) or free(ws, k + len(w) - 1) or letnum(ws, k, k + len(w)): break
                t = variant(q[:j] + q[j + 1:])
                if t and t[1] == t0[1]: return "-se says that %s, but not all of these are needed: %r" % (what, s)
        for j in range(len(w)): said[k + j] = 1
    for k, w in enumerate(ws):
        if w in TERM - CAUTIOUS and k not in said and not (k and ws[k - 1] == w) and not (k + 1 < len(ws) and ws[k + 1] == w) and not free(ws, k) and not (k and ws[k - 1] in ('zo', "ba'e", 'zei')) and ws[k + 1:k + 2] not in (['zei'], ['bu']):
            if letnum(ws, k, k + 1): continue
            t = run(ctx, [], ws[:k] + ws[k + 1:])
            if t and t[1] == t0[1] and len(t[0]) == len(t0[0]) - 1: return '-se says nothing about %s (word %d), which could be omitted: %r' % (w, k + 1, s)
            ctx.label('needed')
def sub(q, w):
    i = 0
    for x in w:
        if i < len(q) and q[i] == x: i += 1
    return i == len(q)
def guard(f):
    def g(ctx, c):
        try: return f(ctx, c)
        except Ill as x: return str(x)
    return g
def text(rng, i):
    while 1:
        ws = G.words(rng, i, mut=0, dec=rng.choice([0, .02, .06]))
        if not {'si', 'sa', 'su', "fa'o"} & set(ws) and len(ws) < 150: return ' '.join(ws) + '\n'
DEEP = ["lo broda be @ be'o ku", 'lo nu do brode @ vau kei ku', "le broda poi brode @ vau ku'o ku", "la'e lo broda be @ be'o ku lu'u", "lu @ broda vau li'u", "loi me @ me'u ku", "lo broda ne @ ge'u ku", 'mi to @ toi', "li mo'e @ te'u lo'o",
        "lo se broda be do bei @ be'o ku", "mi noi ke broda @ vau ku'o"]
def gen_deep(rng, i):
    """terminators by the dozen, in several sentences"""
    o = []; ks = [rng.choice([3, 8, 15, 20, 34, 45]) for _ in range(rng.choice([2, 2, 3]))]
    for k in ks:
        late = k > 15 and rng.random() < .5 # something that only the outermost words guard against
        few = rng.sample([x for x in DEEP if not (late and ' be ' in x)], rng.choice([1, 1, 2, 3])); l = []; r = []; n = 0
        while n < k:
            a, b = rng.choice(few).split(' @ '); l.append(a); r.append(b); n += len(b.split())
        if late: l[:0] = ['lo broda be'] * 2; r[:0] = [rng.choice(['bei ti', "bei ti be'o ku"]), "be'o ku"]
        tail = rng.choice([''] + (['', 'ti', 'do', 'poi do broda', "goi ko'a", "gi'e broda", 'vau gi\'e brode', 'po\'u ti'] if n < 16 else []))
        o.append(' '.join([rng.choice(['mi nelci', 'mi', 'ti cu broda fi'])] + l + [rng.choice(['mi', "ko'a", 'lo broda'])] + r[::-1] + [tail]))
    return {'s': ' i '.join(o) + '\n', 'k': rng.randrange(10 ** 9), 'nl': 0, 'p': rng.choice([0, 1, .9])}
def gen_boi(rng, i):
    """numbers that end in boi or ve'o, as quantifiers and subscripts, before free modifiers and numbers"""
    R = rng.choice; num = lambda: R(['re', 'ci', 'by', 'pa re', "vei pa ve'o", 'xo'])
    def free(): return R(['xi ' + num(), 'to broda toi', 'doi do', 'sei mi cusku', 'ui', num() + ' mai', 'xi ' + num() + R([' boi', '']), 'xi ' + num() + ' boi'])
    def q(): return num() + R([' boi', ' boi', ' boi ui', '']) + (' ' + free() if rng.random() < .5 else '')
    def sumti(): return R([lambda: R(["ko'a", 'mi', 'lo broda']) + (' ' + free() if rng.random() < .6 else ''), lambda: q() + ' prenu', lambda: q() + ' lo ' + q() + ' prenu', lambda: 'li ' + q() + R(['', " lo'o"]), lambda: 'lo ' + q() + ' prenu',
                            lambda: 'li ' + q() + " su'i " + q(), lambda: 'ta poi ' + num() + ' moi', lambda: 'by boi ' + free() if rng.random() < .5 else 'by boi'])()
    def sent(): return ' '.join([sumti()] + [sumti() for _ in range(rng.choice([0, 0, 1]))] + [R(['cu', '']), R(['klama', 'broda', 'klama ' + free(), num() + ' moi', 'broda', num() + ' roi broda'])] + [sumti() for _ in range(rng.choice([0, 1, 2]))])
    for _ in range(200):
        s = ' i '.join(sent() for _ in range(R([1, 2, 2, 3]))); s = ' '.join(s.split())
        if parse.analyse(s + '\n')[0] == 'ok': break
    return {'s': s + '\n', 'k': rng.randrange(10 ** 9), 'nl': R([0, .3])}
def gen_restore(rng, i): return {'s': text(rng, i)}
def gen_suggest(rng, i): return {'s': text(rng, i), 'k': rng.randrange(10 ** 9), 'nl': rng.choice([0, .1, .5])}
def setup(ctx, tier): G.gram().pairs()
def families(): return [Family('restore', gen_restore, guard(test_restore), 6000, 150000, jbo.shrink), Family('boi', gen_boi, guard(test_suggest), 2500, 60000, jbo.shrink), Family('deep', gen_deep, guard(test_suggest), 400, 10000, jbo.shrink), Family('suggest', gen_suggest, guard(test_suggest), 4000, 100000, jbo.shrink)]
