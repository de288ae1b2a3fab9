"""C13: glosses. Reference: own glosser (model/gloss.py) on the tree of the reference parser and the map the dictionary source defines."""
import os, re, random, functools
from lib.harness import Family
from lib import gen as G, jbo
from lib.bridi import B as Bridi, KOHA
from model import parse, text as T, gloss, dictm, places, morph, lujvo as L
from checks.c15 import read, Ill
PROGS = ['jbofihe', 'smujajgau']
RULE = ("a case is an accepted text (natural bridi and random derivations of the whole grammar, with indicators and zei compounds, over a small vocabulary; every kind of connective, and of tense and modal, at every place where one can stand) and a random dictionary, in which each word has no entry, a bare one, place entries "
        "of all classes, explicit forms, redirections, pattern entries, context forms of tenses, connectives and indicators. The sequence of words, glosses and tags of the output must be the one the reference glosser "
        "gives. Non-trivial: at least three glosses come from the dictionary; distinct by text and dictionary.")
ASSUMPTIONS = ['the class, redirection and pattern rules as stated in model/dictm.py and model/gloss.py', 'not judged: conversions after a bare jai, cei, connected abstractors, the gloss of se']
GI = [w for w in G.GISMU if len(w) == 5]
@functools.lru_cache(None)
def vocab(k):
    """the words dictionary k is about"""
    r = random.Random('voc%d' % k); g = r.sample(GI, 14) + ['broda', 'brode', 'klama']
    lj = []
    while len(lj) < 10:
        ws = [r.choice(g + [w for w in ('se', 'te', 'xe', 'nu', "na'e", 'me') if w in L.RAFSI]) for _ in range(r.choice([2, 2, 2, 3, 3, 4]))]
        if ws[-1] in ('se', 'te', 'xe', 'me'): continue
        ch = L.choices(ws, True, False)
        if not all(ch): continue
        w = L.join([r.choice(c) for c in ch])[0]
        if L.is_lujvo(w) and dictm.canon(w) == '+'.join(ws): lj.append(w)
    fu = r.sample(G.FUIVLA, 2)
    while len(fu) < 6:
        x = r.choice(g); w = r.choice([x[:4], x[:3]] if len(x) == 5 else [x]) + r.choice('rnl') + r.choice(['kokte', 'bongu', 'spageti', 'mante', 'gado', "pu'a", 'tlano', 'akso'])
        if morph.kind(w)[0] == 'FUIVLA3' and len(morph.kind(w)[1].starts) == 1: fu.append(w)
    return g, lj, fu
SUFF = ['', '', 'e', 'y', 's', 'ch', 'ay', 'oe', 'z']
CLS = ['D;', 'D;', 'S;', 'A;', 'P;', 'R;', 'I;', 'E;', '']
def dictionary(k):
    r = random.Random('dict%d' % k); g, lj, fu = vocab(k); o = []; n = [0]
    def gl(pl=False):
        n[0] += 1; w = 'g%d%s' % (n[0], r.choice(SUFF))
        if pl:
            x = r.random()
            if x < .15: w += '*' + r.choice([' up', ' with it', ' in', '* of b'.replace('* ', ' '), ' x%dch*' % n[0], ' at'])
            elif x < .25: w = 'to ' + w
            elif x < .3: w += ' thing'
        return w
    def entry(w, x=None):
        x = r.random() if x is None else x
        if x < .12: return
        if x < .22: o.append('%s:%s' % (w, gl())); return
        if r.random() < .3: o.append('%s:%s' % (w, gl()))
        for p in '12345':
            y = r.random()
            if y < .15: continue
            if y < .22: o.append('%s%s:@%s%s' % (w, p, r.choice(g[:5]), r.choice('12345')))
            elif y < .9: o.append('%s%s:%s%s' % (w, p, r.choice(CLS), gl(True)))
            for c in 'nvqta':
                if r.random() < .12: o.append('%s%s%s:%s%s' % (w, p, c, r.choice(['', '', '', '', 'D;', 'A;']), gl(True)))
    for i, w in enumerate(g): entry(w, .5 if i < 5 else None)
    for i in range(5):  # redirections end at these
        for p in '12345': o.append('%s%s:%s%s' % (g[i], p, r.choice(CLS), gl(True)))
    for w in lj:
        if r.random() < .3: entry(w)
    for w in fu:
        if r.random() < .5: entry(w)
    for w in ['nu', 'ka', "du'u", 'ni', "si'o"]: entry(w)
    for w in ['me', 'moi', 'mei', "si'e", "cu'o", "va'e"]:
        if r.random() < .8:
            for p in '123':
                if r.random() < .8: o.append('%s%s:%s%%d %s' % (w, p, r.choice(['D;', 'P;', 'S;', '']), gl()))
        if r.random() < .3: o.append('%s1t:%%d %s' % (w, gl()))
    for w in r.sample(g + ['nu', "na'e", 'me'], 8):
        for fm in r.choice([['+%s'], ['%s+'], ['+%s', '%s+']]):
            k5 = '*%d' % r.randint(0, 5) + fm % w
            for p in '12345':
                y = r.random()
                if y < .3: continue
                v = '@%s' % r.choice('12345') if y < .5 else '%s%s %%%s%s' % (r.choice(CLS), gl(True), r.choice('123'), r.choice('nvqt')) if y < .9 else '-'
                o.append('%s%s%s:%s' % (k5, p, r.choice(['', '', '', '', 'n', 'v', 'q', 't']), v))
    for w in r.sample(g, 3):
        k5 = '*%d+%s+%s' % (r.randint(0, 5), w, r.choice(g)); o.append('%s1:%sboth %s' % (k5, r.choice(CLS), gl()))
    have = r.choice([.3, .7, .95])
    for w in sorted(T.CM):
        if T.CM[w][0] == 'SE' or w in ('nu', 'ka'): continue
        if r.random() < have: o.append('%s:%s' % (w, gl()))
        s = T.CM[w][0]
        if s in ('PU', 'VA', 'FAhA', 'ZAhO'):
            for c in ('@TERM', '@NOUN', '@SELBRI', '@LINK', '@CONNECT', '@JAI'):
                if r.random() < .3: o.append('%s%s:%s' % (w, c, gl()))
        if s == 'PU':
            for x in ('nai', 'zi', 'za', 'naizu'):
                if r.random() < .5: o.append('%s%s:%s' % (w, x, gl()))
                if r.random() < .3: o.append('%s%s@%s:%s' % (w, x, r.choice(['TERM', 'SELBRI']), gl()))
        if s in ('UI', 'CAI', 'FUhE', 'DAhO'):
            if r.random() < have: o.append('%snai:%s' % (w, gl()))
        if s == 'BAI':
            for x in ('se', 'te', 've', 'xe'):
                if r.random() < .4: o.append('%s%s:%s' % (x, w, gl()))
            if r.random() < .3: o.append('%s@JAI:%s' % (w, gl()))
            if r.random() < .3: o.append('se%s@JAI:%s' % (w, gl()))
        if s in ("TAhE", "ROI", 'ZEhA', 'VEhA', 'MOhI', 'FEhE', 'CAhA'):
            if r.random() < .3: o.append('%s@SELBRI:%s' % (w, gl()))
    for f in [''.join(x) for x in __import__('itertools').product('TF', repeat=4)] + ['QQQQ']:
        for s in ('@AFTER', '@GE', '@GI'):
            if r.random() < .85: o.append('%s%s:%s' % (f, s, gl()))
    for w in ("paroi", "reroi", "ta'enai", "paroinai", 'pamoi', 'remei', "so'imoi", "ze'apu", "ze'aba", "mo'iri'u", "ve'aze'o", "vi'u", "cize'moi", "fe'eroroi", "fe'ereroi", "fe'edi'i", "fe'eco'a", "ve'e", "di'i", "roroi", "na'o", "co'ami", 'papi\'emoi'):
        for c in ('', '', '@SELBRI', '@TERM'):
            if r.random() < .4: o.append('%s%s:%s' % (w, c, gl()))
    for c in ('jai_v', 'jai_n', 'jai_a'):
        if r.random() < .6: o.append('%s:%s' % (c, gl()))
    for w in ('a', 'e', 'broda', 'y', 'by', g[0]):
        if r.random() < .5: o.append('%s.bu:%s' % (w, gl()))
    return [x for x in o if len(x.split(':')[0]) < 100]
CACHE = {}
def dict_for(ctx, k):
    if k not in CACHE:
        t = ctx.tmp('dict%d.txt' % k); d = ctx.tmp('dict%d.dat' % k); ls = dictionary(k); m = {}
        open(t, 'w').write('\n'.join(ls) + '\n')
        for l in ls: dictm.apply(m, l)
        p = ctx.run('smujajgau', [d, t])
        if p.rc: raise Exception('smujajgau: %r' % p)
        CACHE[k] = (d, m)
    return CACHE[k]
def setup(ctx, tier): G.gram().pairs()
ND = 150
def swap(rng, ws, k):
    """put words of the dictionary's vocabulary into a text"""
    g, lj, fu = vocab(k); bv = set(G.brivla_pool()) | {'broda', 'brode', 'brodi', 'klama', 'dunda', 'cusku'} | set(G.GISMU); o = []
    for w in ws:
        if w in bv:
            x = rng.random()
            w = rng.choice(g) if x < .6 else rng.choice(lj) if x < .8 else rng.choice(fu) if x < .9 else w
            o.append(w)
            y = rng.random()
            if y < .05: o += ['zei', rng.choice([rng.choice(g), rng.choice(lj), 'mi', 'djan', 'se'])]
            elif y < .07: o += ['zei', rng.choice(g), 'zei', rng.choice(g)]
            elif y < .12: o += rng.choice([['.ui'], ['.ui', 'nai'], ['sai'], ['.a\'u', 'cai'], ["pe'i", "ru'e"], ["da'o"], ["fu'e", 'sai'], ['cai', 'nai'], ['.ui', 'cu\'i', 'nai']])
            elif y < .14: o.insert(len(o) - 1, "ba'e")
        else:
            o.append(w)
            if rng.random() < .01: o += rng.choice([['.ui'], ['.ui', 'nai'], ['sai'], ['.y.'], ["fu'o"]])
    return o
def gen_bridi(rng, i):
    k = rng.randrange(ND)
    while 1:
        s = Bridi(rng).text(rng.choice([1, 2, 2, 3]))
        if len(s) > 600: continue
        s = ' '.join(swap(rng, s.split(), k)) + '\n'
        if parse.analyse(s)[0] == 'ok' or rng.random() < .02: return {'s': s, 'd': k}
def gen_gram(rng, i):
    k = rng.randrange(ND)
    while 1:
        s = ' '.join(swap(rng, G.words(rng, i, budget=rng.choice([10, 15, 25, 40, 60]), dec=.03, mut=0), k)) + '\n'
        if parse.analyse(s)[0] == 'ok' or rng.random() < .02: return {'s': s, 'd': k}
def esc(x): return re.escape(jbo.squash(x))
def glossed(n, m):
    """the bracketed form with glosses (-g), as a pattern without blanks; None: cannot be told"""
    g = gloss.Glosser(m); out = []; cnt = [0]
    def look(w):
        t = m.get(w); return m.get(w.replace(',', '')) if t is None else t
    def put(t, star=False):
        if t is not None: out.append('/%s%s/' % (esc(t), re.escape('*') if star else '')); cnt[0] += 1
    def unk(w):
        try: t = g.unknown(w, 1, 'n', 0)
        except gloss.Wild: out.append('/[^/]*/'); return
        k = gloss.canon(w)
        if not (k and len(gloss.bind(k)) < 2): put(t) # a single converted word is left alone
    def op(d): out.append(esc('([{<'[d % 4] + (str(d // 4) if d % 4 == 0 else '')))
    def cl(d): out.append(esc(')]}>'[d % 4] + (str(d // 4) if d % 4 == 0 else '')))
    def go(c, d, conv):
        if isinstance(c, parse.Nt):
            op(d); p = None
            for k in c.kids:
                go(k, d + 1, p.w if p is not None and not isinstance(p, parse.Nt) and p.t == 'CMAVO' and p.sel == 'SE' and p.w in places.SE else None); p = k
            cl(d); return
        if c.t == 'CMAVO':
            x = [a for a, _ in parse.suffix(c)]; out.append(esc(c.w.upper() if c.elided else c.w))
            if x[-2:] == ['pei', 'nai']: out.append(esc(''.join(x[:-1])) + '(nai)?')
            else: out.append(esc(''.join(x)))
            if c.sel == 'BAI': put(look((conv or '') + c.w), True)
            else: put(look(c.w))
        elif c.t == 'ZOI': out.append(esc(c.form + c.term + c.w + c.term))
        elif c.t == 'ZO': out.append(esc('zo' + c.w))
        elif c.t == 'ZEI': op(d + 1); out.append(esc(c.w)); cl(d + 1)
        elif c.t == 'LOhU': op(d + 1); out.append(esc("lo'u" + c.w + "le'u")); cl(d + 1)
        elif c.t == 'BU': out.append(esc(c.w + 'bu'))
        elif c.t == 'BRIVLA':
            out.append(esc(c.w)); p = places.SE[conv] if conv else 0
            if p and look('%s%d' % (c.w, p)) is not None:
                try: put(g.adv(c.w, p, 'n'), True)
                except gloss.Wild: out.append('/[^/]*/')
            else:
                t = look(c.w)
                if t is not None: put(t)
                else: unk(c.w)
        else: out.append(esc(c.w))
    go(n, 0, None)
    return ''.join(out), cnt[0]
def test_g(ctx, c):
    s = c['s']; r = parse.analyse(s)
    if r[0] != 'ok': ctx.label('refused'); return None
    d, m = dict_for(ctx, c['d']); k = parse.compress(parse.augment(parse.tree(r[1]))); e, n = glossed(k, m)
    p = ctx.run('jbofihe', ['-g'], s, env={'JBOFIHE_DICTIONARY': d})
    if p.rc: return 'status %d for an accepted text: %s' % (p.rc, p.err[:300])
    if n >= 3: ctx.nontrivial((s, c['d'], 'g'))
    ctx.label('%d glosses' % min(n, 30))
    o = jbo.squash(jbo.nowarn(p.out))
    if not re.match(e + r'\Z', o):
        a = 0
        while a < len(e) and re.match(e[:a + 1], o) if ok(e[:a + 1]) else True: a += 1
        return 'the bracketed form with glosses is %s instead of %s (from %s)' % (o[:2000], e.replace('\\', '')[:2000], e[max(a - 40, 0):a + 40])
def ok(x):
    try: re.compile(x); return True
    except re.error: return False
TW = {}
PLACES_T = ["{m} {b} gi'e {t} ke {b} ke'e", "{m} {b} gi'e {t} bo {b} {m}", "{t} ke ge {m} {b} gi {m} {b} ke'e", "{m} {b} .i {t} bo {m} {b}", "{m} {b} .i je {t} bo {m} {b}", "{m} {b} .i {t} tu'e {m} {b} tu'u", ".i {t} tu'e {m} {b}", "{m} .e {t} bo {m} {b}",
            "{m} .e {t} ke {m} ke'e {b}", "{m} joi {t} ke {m} ke'e {b}", "{m} {b} je {t} bo {b}", "{m} {b} joi {t} ke {b} ke'e", "{m} {b} joi {t} bo {b}", "{t} {m} {b}", "{m} {t} ku {b}", "{t} gi {m} {b} gi {m} {b}", "{m} {t} gi {b} gi {b}", "{t} gi {m} gi {m} {b}",
            "{m} {t} {b} {m}", "{t} {b}", "lo {t} {b} cu {b}", "lo {m} {t} {b} cu {b}", "{m} jai {t} {b} fai {m}", "lo jai {t} {b} cu {b}", "le nu {m} {t} {b} cu {b}", "{m} {t} ke ge {b} gi {b} ke'e", "nu'i {t} {m} {m} nu'u {b}", "{t} nu'i ge {m} {m} gi {m} {m} {b}", "{m} na {t} {b}",
            "{t} na {b}", "{m} poi {t} {b} cu {b}", "{m} pe {t} {m} cu {b}", "{m} ne {t} {m} cu {b}", "{m} {b} {t} {m} {t} {m}", "{m} {t}", "{m} {b} be {t} {m} bei {t} {m}", "{m} {t} {b} {t} ku", "{m} sei {t} {b} se'u {b}", "{m} {t} ke {b} {b} ke'e",
            "li ni'e {t} {b} te'u du {m}", "li pa na'u {t} {b} te'u re du {m}", "{m} fi'o {t} {b} fe'u {m} {b}", "{m} {b} gi'e {t} bo {b} gi'e {t} bo {b}", "doi {m} {t} {b}", "{m} cu {t} {b} co {b}", "lo {t} {b} ku {b} {t} ku", "ti'o {t} {b}", "{m} {b} gi'a nai {t} ke {b}", "na'i {t} {b}", "{m} pe {t} nu'i ge {m} {m} gi {m} {m} cu {b}", "{m} ne {t} nu'i {m} {m} nu'u cu {b}", "{m} pe {t} ku cu {b}", "re {t} {b} cu {b}", "{m} {b} re {t} {b}", "{m} poi {t} ke ge {b} gi {b} ke'e cu {b}", "lo nu {m} {t} ke ge {b} gi {b} ke'e kei cu {b}", "{m} {b} fi'o {t} {b} fe'u re {t} {b}", "le du'u {t} ge {b} gi {b} kei cu {b}"]
def tense(rng):
    """a simple or compound tense or modal"""
    if not TW:
        for w, x in sorted(T.CM.items()): TW.setdefault(x[0], []).append(w)
    w = lambda s: rng.choice(TW[s]); o = lambda s, p=.4: [w(s)] if rng.random() < p else []
    def one():
        k = rng.random()
        if k < .25: return [w('PU')] + (['nai'] if rng.random() < .3 else []) + o('ZI')
        if k < .4: return rng.choice([[w('BAI')], [w('SE'), w('BAI')], [w('BAI'), 'nai'], [w('SE'), w('BAI'), 'nai'], ["na'e", w('BAI')], [w('BAI')] + o('KI')])
        if k < .5: return [w('FAhA')] + (['nai'] if rng.random() < .2 else []) + o('VA')
        if k < .58: return [w('VA')]
        if k < .64: return ["mo'i", w('FAhA')] + o('VA', .3)
        if k < .72: return [w('ZAhO')] + (['nai'] if rng.random() < .2 else [])
        if k < .8: return [rng.choice(['pa', 're', "so'i", 'ro']), 'roi'] if rng.random() < .5 else [w('TAhE')] + (['nai'] if rng.random() < .3 else [])
        if k < .86: return o('ZEhA', 1) + o('PU')
        if k < .9: return [w('VEhA')] + o('FAhA')
        if k < .93: return ["fe'e"] + rng.choice([[w('ZAhO')], ['ro', 'roi'], ['ro', 'roi'], ['re', 'roi'], [w('TAhE')]])
        if k < .96: return [w('CAhA')]
        return [rng.choice(['ki', "cu'e"])]
    t = one()
    if rng.random() < .3: t = t + one()
    if rng.random() < .15: t = t + rng.choice([['je'], ['joi'], ['na', 'ja', 'nai'], ['se', 'ju']]) + one()
    return ' '.join(t)
def gen_tense(rng, i):
    """every kind of tense and modal at every place where one can stand"""
    k = rng.randrange(ND); g, lj, fu = vocab(k)
    for _ in range(200):
        s = re.sub(r'\{(.)\}', lambda x: tense(rng) if x.group(1) == 't' else rng.choice(g + lj) if x.group(1) == 'b' else rng.choice(['mi', 'do', 'ta', "ko'a", 'lo ' + rng.choice(g) + ' ku']), PLACES_T[i % len(PLACES_T)] if _ < 30 else rng.choice(PLACES_T)) + '\n'
        if parse.analyse(s)[0] == 'ok': return {'s': s, 'd': k}
    return gen_bridi(rng, i)
def gen_logic(rng, i):
    """every kind of connective with na, se and nai, at every place where one can stand"""
    k = rng.randrange(ND); R = rng.choice; g, lj, fu = vocab(k); b = lambda: R(g + lj); m = lambda: R(['mi', 'do', 'ta', "ko'a"])
    opt = lambda w, p=.5: w + ' ' if rng.random() < p else ''
    nai = lambda: ' nai' if rng.random() < .5 else ''
    def aft(w): return opt('na') + opt('se') + R(w) + nai()
    A = lambda: aft(['a', 'e', 'o', 'u', 'u', 'ji']); J = lambda: aft(['ja', 'je', 'jo', 'ju', 'ju', "je'i"]); H = lambda: aft(["gi'a", "gi'e", "gi'o", "gi'u", "gi'u", "gi'i"])
    GA = lambda: opt('se') + R(['ga', 'ge', 'go', 'gu', 'gu', "ge'i"]) + nai(); GU = lambda: opt('se') + R(["gu'a", "gu'e", "gu'o", "gu'u", "gu'u", "gu'i"]) + nai(); gi = lambda: 'gi' + nai()
    JOI = lambda: opt('se') + R(['joi', 'ce', "ce'o", "jo'u", "fa'u", "pi'u"]) + nai()
    def s1():
        return R([lambda: '%s %s %s cu %s' % (m(), A(), m(), b()), lambda: '%s %s ke %s %s %s ke\'e cu %s' % (m(), A(), m(), A(), m(), b()), lambda: '%s %s bo %s cu %s' % (m(), A(), m(), b()),
                  lambda: '%s %s %s %s' % (m(), b(), J(), b()), lambda: '%s %s %s bo %s' % (m(), b(), J(), b()), lambda: '%s %s %s %s %s' % (m(), b(), H(), b(), m()), lambda: '%s %s %s bo %s' % (m(), b(), H(), b()), lambda: '%s %s %s ke %s %s %s' % (m(), b(), H(), b(), H(), b()),
                  lambda: '%s %s %s %s cu %s' % (GA(), m(), gi(), m(), b()), lambda: '%s %s %s %s %s %s %s' % (GA(), m(), b(), gi(), m(), b(), m()), lambda: '%s %s %s %s %s' % (m(), GU(), b(), gi(), b()), lambda: '%s %s %s %s %s' % (m(), GA(), b(), gi(), b()),
                  lambda: '%s %s i %s %s %s' % (m(), b(), J(), m(), b()), lambda: '%s %s i %s bo %s %s' % (m(), b(), J(), m(), b()), lambda: '%s %s %s cu %s' % (m(), JOI(), m(), b()), lambda: '%s %s %s %s' % (m(), b(), JOI(), b()),
                  lambda: '%s pu %s ba %s' % (m(), J(), b()), lambda: '%s %s poi %s %s %s %s' % (m(), b(), m(), b(), H(), b()), lambda: 'lo %s %s %s cu %s' % (b(), J(), b(), b()), lambda: 'lo %s %s %s %s cu %s' % (GU(), b(), gi(), b(), b()),
                  lambda: '%s %s %s %s cu %s' % (opt('se') + R(["joi gi", "ce gi"]), m(), gi(), m(), b()), lambda: '%s poi %s zi\'e noi %s cu %s' % (m(), b(), b(), b()), lambda: '%s %s %s mi %s %s do' % (m(), b(), GA(), gi(), 'ta')])()
    for _ in range(100):
        s = ' i '.join(s1() for _ in range(R([1, 1, 2]))) + '\n'
        if parse.analyse(s)[0] == 'ok': break
    return {'s': s, 'd': k}
def norm(w): return w.replace('.', '').replace(' ', '')
def test(ctx, c):
    s = c['s']; r = parse.analyse(s)
    if r[0] != 'ok': ctx.label('refused'); return None
    d, m = dict_for(ctx, c['d']); top = parse.tree(r[1])
    t = gloss.Text(top, m)
    p = ctx.run('jbofihe', ['-l'], s, env={'JBOFIHE_DICTIONARY': d})
    if p.rc: return 'status %d for an accepted text: %s' % (p.rc, p.err[:300])
    try: ev = read(p.out)
    except Ill as x: return str(x)
    ng = sum(x[0] == 'e' and isinstance(x[1], str) and bool(re.search(r'g\d', x[1])) for x in t.ev)
    ctx.label('%d glosses' % min(ng, 30), 'tags judged' if t.judged else 'tags not judged')
    for x in t.ev:
        if x[0] == '?': ctx.label('gloss not judged')
        elif x[0] == 'e' and isinstance(x[1], str): ctx.label(kind(x[1]))
    if ng >= 3: ctx.nontrivial((s, c['d']))
    return judge(t, m, ev)
def kind(g):
    return ('no gloss' if g == '???' else 'unknown or bare' if g.endswith('??') else 'connected' if g in ('[type-of]', '[is, does]', '[of]', '(of)', '[NAME]') else 'indicator' if g[0] == '{' else
            'noun' if g.endswith('(s)') or 'thing(s)' in g else 'verb' if g.startswith('being') or '-ing' in g else 'qualifier' if g.endswith('-ish') else 'other gloss')
def judge(t, m, ev):
    got = [e for e in ev if e[0] in 'let' and not (e[0] == 'e' and not e[1].strip())]
    exp = [e for e in t.ev if not (e[0] == 'e' and isinstance(e[1], str) and not e[1].strip())]
    if not t.judged: got = [e for e in got if e[0] != 't']; exp = [e for e in exp if e[0] != 't']
    else: exp = [e for e in exp if e[0] != 't' or id(e[1]) in t.labels]
    i = 0; last = 'the start'
    for n, e in enumerate(exp):
        g = got[i] if i < len(got) else ('end',)
        if e[0] == 'l':
            if g[0] != 'l' or norm(g[1]) != norm(e[1]): return 'after %s: %s instead of the word %r' % (last, say(g), e[1])
            last = repr(e[1]); i += 1
        elif e[0] == 'e':
            x = e[1]
            if g[0] != 'e' or not (x == g[1] if isinstance(x, str) else x.match(g[1])): return 'after %s: %s instead of the gloss %r' % (last, say(g), x if isinstance(x, str) else x.pattern)
            i += 1
        elif e[0] == '?':
            a = i
            while a < len(got) and got[a][0] == 'e': a += 1
            b = n + 1
            while b < len(exp) and exp[b][0] in 'e?': b += 1
            if a - i > sum(x[0] == 'e' for x in exp[n + 1:b]): i += 1
        else:
            if g[0] != 't': return 'after %s: %s instead of tags' % (last, say(g))
            x = tags(t, e[1]); y = re.sub(r'#\d+', '#', ''.join(g[1]).replace(' ', ''))
            z = sorted(re.split(r',(?=[#a-z])', y[1:-2]))
            if x is not None and not same(sorted(x), z): return 'after %s: tags %s instead of %s' % (last, z, x)
            i += 1
    if i < len(got): return 'at the end: %s is too many' % say(got[i])
def same(x, y):
    if len(x) != len(y): return False
    y = list(y)
    for a in x:
        f = re.compile(re.escape(a).replace('NUM', r'\d+') + r'\Z'); b = next((b for b in y if f.match(b)), None)
        if b is None: return False
        y.remove(b)
    return True
def say(g): return 'the end' if g[0] == 'end' else {'l': 'the word %r', 'e': 'the gloss %r', 't': 'the tags %r'}[g[0]] % (g[1],)
def tags(t, n):
    o = []
    for k, w, key, p in t.labels[id(n)]:
        try:
            g = lambda x: t.g.adv(x, p, 't')
            if k in ('brivla', 'nu'): o.append('%s%d(%s)' % (w, p, g(w) or '?'))
            elif k == 'goha': o.append('%s%d()' % (w, p))
            elif k == 'me': o.append('me%d..(%s)' % (p, (g('me') or '').replace('%d', 'NUM')))
            elif k == 'moi': o.append('#-%s%d(%s)' % (w, p, (g(w) or '').replace('%d', 'NUM')))
            elif k == 'num':
                z = t.leaf.get(key)
                if z is not None and z.t == 'ZEI':
                    ps = z.w.split(' zei ')
                    if any(' ' in x for x in ps): return None
                    o.append('#-%d(%s)' % (p, g('+'.join(ps)) or '?'))
                else: o.append('#-%d()' % p)
            else: return None
        except gloss.Wild: return None
    return [x.replace(' ', '') for x in o]
def families(): return [Family('bridi', gen_bridi, test, 8000, 300000, jbo.shrink), Family('logic', gen_logic, test, 4000, 100000, jbo.shrink), Family('tense', gen_tense, test, 5000, 120000, jbo.shrink), Family('grammar', gen_gram, test, 6000, 200000, jbo.shrink), Family('brackets', lambda rng, i: (gen_bridi if i % 2 else gen_gram)(rng, i), test_g, 4000, 100000, jbo.shrink)]
