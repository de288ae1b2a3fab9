"""C14: place tags. Reference: own place assignment (model/places.py) on the tree of the reference parser."""
import re, os
from lib.harness import Family
from lib import gen, jbo
from lib.bridi import B
from model import parse, places, grammar
PROGS = ['jbofihe', 'smujajgau']
RULE = ("bridi: random bridi built from conversions, jai, be/bei links, FA terms, tagged terms, tanru, co, bo, ke, connected selbri and bridi-tails, gek sentences, descriptions, relative clauses, "
        "abstractions, with random terminators left out; grammar: random derivations of the whole grammar. The tags before each term of the -x output (of an empty and of the standard dictionary) are "
        "compared with those of the reference. Texts the reference parser refuses or that use constructs jbofihe says it does not tag (termsets, cei, connected abstractors) are not judged. "
        "Non-trivial: at least two tagged terms; distinct by text.")
ASSUMPTIONS = ['the place rules as stated in model/places.py: FA terms take their place, other terms the next free place after the previous one (from x1 before, x2 after the selbri or in links)',
               'fewer than 15 terms on one selbri']
def gen_bridi(rng, i):
    while True:
        s = B(rng).text(rng.choice([1, 2, 2, 3, 3, 4]))
        if len(s) < 700: break
    return {'s': s + '\n'}
def gen_gram(rng, i): return {'s': ' '.join(gen.words(rng, i, budget=rng.choice([10, 15, 25, 40, 60]), dec=0, mut=0)) + '\n'}
LAB = r"(?:[a-z',]+\d+(?:\.\.)? \([^()]*\)|#\d+-[a-z']*\d+ \([^()]*\)|jai\+<tag>1: \([^#]*#\d+\))"
TAGS = re.compile(r'\[(%s(?:, %s)*):\]' % (LAB, LAB))
ONE = re.compile(LAB)
GLOSS = re.compile(r'/[^/]*/')
def read(out):
    """plain -x output (dictionary without entries) -> words, [(words before, [label text])]"""
    out = GLOSS.sub(' ', out.replace('\n', ' ')); words = []; tags = []; at = 0
    def w(x): words.extend(a for a in (y for y in re.sub(r'[\[\](){}<>^.]', ' ', x).split()) if a)
    for m in TAGS.finditer(out):
        w(out[at:m.start()]); at = m.end()
        tags.append((len(words), [x.group(0) for x in ONE.finditer(m.group(1))]))
    w(out[at:]); return words, tags
def split(l):
    """label text -> (kind, word, number or None, pos)"""
    m = re.match(r"([a-z',]+)(\d+)(\.\.)? \(", l)
    if m: return ('me' if m.group(3) else 'word', m.group(1), None, int(m.group(2)))
    m = re.match(r"#(\d+)-([a-z']*)(\d+) \(", l)
    if m: return ('moi' if m.group(2) else 'num', m.group(2), m.group(1), int(m.group(3)))
    m = re.match(r"jai\+<tag>1: \(.*#(\d+)\)$", l)
    return ('jai', '', m.group(1), 1)
K = {'brivla': 'word', 'goha': 'word', 'nu': 'word', 'me': 'me', 'moi': 'moi', 'num': 'num', 'jai': 'jai'}
DICT = {}
def setup(ctx, tier):
    grammar.tables(False); gen.gram().pairs()
    d = os.path.join(ctx.scratch, 'empty.dat'); t = os.path.join(ctx.scratch, 'empty.txt'); open(t, 'w').write('zzzzzz:z\n')
    p = ctx.run('smujajgau', [d, t]); DICT['empty'] = d
    if p.rc or not os.path.exists(d): raise Exception('smujajgau: %r' % p)
def compare(exp, tags):
    num = {}; back = {}
    for k in range(max(len(exp), len(tags))):
        e = exp[k] if k < len(exp) else None; t = tags[k] if k < len(tags) else None
        if e is None: return 'tag %s before word %d, which fills no place' % (t[1], t[0] + 1)
        if t is None or t[0] > e[0]: return 'no tag before word %d, which fills %s' % (e[0] + 1, show(e[1]))
        if t[0] < e[0]: return 'tag %s before word %d, which fills no place' % (t[1], t[0] + 1)
        want = sorted((K[a], w, p, i) for a, w, i, p in e[1]); got = sorted([(a, w, p, n) for a, w, n, p in map(split, t[1])], key=lambda x: (x[0], x[1], x[2], x[3] or ''))
        if [x[:3] for x in want] != [x[:3] for x in got]: return 'word %d is tagged %s instead of %s' % (e[0] + 1, t[1], show(e[1]))
        # numbers stand for constructs: one number for one construct. (Where several could be paired, only the sets are compared.)
        from itertools import groupby
        for key, g in groupby(want, lambda x: x[:3]):
            g = list(g); h = [x[3] for x in got if x[:3] == key]
            if key[0] in ('moi', 'num', 'jai') and len(g) == 1:
                if num.setdefault(g[0][3], h[0]) != h[0]: return 'the same construct is called #%s and #%s' % (num[g[0][3]], h[0])
                if back.setdefault(h[0], g[0][3]) != g[0][3]: return 'different constructs are both called #%s' % h[0]
def show(ls): return '[' + ', '.join('%s%d' % (w or k, p) for k, w, i, p in ls) + ']'
def test(ctx, c):
    s = c['s']; r = parse.analyse(s)
    if r[0] != 'ok': ctx.label('refused'); return None
    top = parse.tree(r[1])
    if any(t.ui or t.bahe or t.nai or t.cai for t in r[2]): ctx.label('not judged: indicators'); return None
    try: exp = places.expected(top)
    except places.Unspecified as e: ctx.label('not judged: %s' % e); return None
    n = sum(len(l) for _, l in exp)
    ctx.label('%d tagged terms' % min(len(exp), 8), '%d tags' % min(n, 12))
    for _, l in exp:
        for x in l: ctx.label('tag of ' + x[0])
        if len(l) > 1: ctx.label('shared term')
    if len(exp) >= 2: ctx.nontrivial(s)
    p = ctx.run('jbofihe', ['-x'], s, env={'JBOFIHE_DICTIONARY': DICT['empty']})
    if p.rc: return 'status %d for an accepted text: %s' % (p.rc, p.err[:300])
    words, tags = read(p.out)
    m = compare(exp, tags)
    if m: return m + '\n' + p.out[:2000]
    ref = [w for t in r[2] if t.t != 'MARKER' for w in places.shown(t)]
    if words != ref: return 'the words shown are %s instead of %s' % (words, ref)
def families(): return [Family('bridi', gen_bridi, test, 9000, 300000, jbo.shrink), Family('grammar', gen_gram, test, 3000, 80000, jbo.shrink)]
