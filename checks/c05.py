"""C05: quotations, zei, bu, ba'e, indicators. Oracle: reference preprocessing (units with attachments) against -k, -t and the bracketed form."""
from lib.harness import Family
from lib import gen, jbo
from model import parse, text as T
from checks import c04
PROGS = ['jbofihe']
RULE = ("soup: random sequences of words with zo, lo'u..le'u, zoi, la'o, zei chains, bu, ba'e, indicators with nai/cai suffixes in any order and nesting; text: grammatical derivations whose words are replaced by such units "
        "and decorated with ba'e and indicators. Checked: both -k lists against the reference (every unit once, with the words as written), tree and bracketed form with attachments, and that removing all "
        "indicators and ba'e changes nothing else in the parse. Non-trivial: at least two special constructs; distinct by text.")
ASSUMPTIONS = ["no digits inside zoi or la'o quotations; 'zo zoi' and zoi within another chunk are not generated", "ba'e directly before the nai or cai suffix of an indicator is not generated"]
SAFE = ('ZOI', 'ZO', 'LOhU', 'LEhU', 'SI', 'SA', 'SU', 'ZEI', 'BAhE', 'BU', 'FAhO')
def ind(rng):
    o = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        o.append(rng.choice(gen.CM_IND))
        if rng.random() < .35: o.append('nai')
        if rng.random() < .35: o.append(rng.choice(gen.CMW['CAI']))
        if rng.random() < .15: o.append('nai')
    return o
def zei(rng): return [x for w in gen.any_words(rng, rng.choice([2, 2, 3, 4]), SAFE) for x in ('zei', w)][1:]
def special(rng):
    k = rng.random()
    if k < .3: return c04.quote(rng)
    if k < .5: return zei(rng)
    if k < .65: return gen.any_words(rng, 1, SAFE) + ['bu'] * rng.choice([1, 1, 1, 2])
    if k < .8: return ["ba'e"] * rng.choice([1, 1, 2]) + gen.any_words(rng, 1, SAFE)
    return ind(rng)
def g_soup(rng):
    o = []
    for _ in range(rng.randint(1, 10)):
        k = rng.random()
        if k < .55: o += special(rng)
        elif k < .65: o.append(rng.choice(['zei', 'bu', "ba'e", 'nai', 'cai', 'ui', 'pei']))
        else: o += gen.any_words(rng, 1, ('ZOI', 'ZO', 'LOhU', 'LEhU', 'SI', 'SA', 'SU'))
    return {'s': ' '.join(o) + '\n'}
def bahe_suffix(ws):
    return any(ws[i] in gen.CMW['BAhE'] and ws[i + 1] in ['nai'] + gen.CMW['CAI'] for i in range(len(ws) - 1))
def g_text(rng, i):
    g = gen.gram(); u = gen.realise(rng, g.derive(rng, rng.choice([3, 6, 10, 20]), g.targets[i % len(g.targets)] if rng.random() < .4 else None, .7))
    o = []
    for w in u:
        if rng.random() < .15: o += ["ba'e"] * rng.choice([1, 1, 2])
        if len(w) == 1 and rng.random() < .2:
            s = T.CM.get(w[0], ('BRIVLA',))[0]
            if s == 'KOhA': w = rng.choice([c04.quote(rng), gen.any_words(rng, 1, SAFE) + ['bu']])
            elif s == 'BRIVLA' and w[0] in gen.GISMU: w = zei(rng)
        o += w
        if rng.random() < .2: o += ind(rng)
    return {'s': gen.layout(rng, o)}
def test(ctx, c):
    s = c['s']
    if bahe_suffix(s.replace('.', ' ').split()) or c04.zozoi(s): return None
    r = parse.analyse(s)
    p = ctx.run('jbofihe', ['-k', '-t'], s)
    if r[0] == 'bad':
        ctx.label('bad')
        if p.rc != r[1]: return 'status %d instead of %d for %r' % (p.rc, r[1], r[2])
        return None
    k = jbo.kparse(p.out)
    if not k or k[1] is None: return 'no unit lists: status %d %s' % (p.rc, p.err[:500])
    ws = T.lex(s); n = sum(t.t == 'ZOI' or t.sel in ('ZO', 'LOhU', 'ZEI', 'BU', 'BAhE') or t.sel in gen.IND for t in ws)
    if n >= 2: ctx.nontrivial(s)
    if k[0] != jbo.klist(ws): return 'words are\n%r\n instead of\n%r' % (k[0], jbo.klist(ws))
    if k[1] != jbo.klist(r[2]): return 'units are\n%r\n instead of\n%r' % (k[1], jbo.klist(r[2]))
    ctx.label(r[0], *{t.t for t in r[2]})
    if (r[0] == 'ok') != (p.rc == 0): return 'status %d, the reference says %s' % (p.rc, r[0])
    if r[0] != 'ok': return None
    tr = parse.augment(parse.tree(r[1])); t = parse.compress(tr)
    if jbo.nowarn(k[2]) != parse.show(t): return 'tree\n%s\n instead of\n%s' % (k[2][:2500], parse.show(t)[:2500])
    q = ctx.run('jbofihe', [], s)
    if jbo.squash(jbo.nowarn(q.out)) not in [''.join(x) for x in (parse.bracket(t), parse.bracket(t, False))]: return 'bracketed form\n%s\n instead of\n%s' % (q.out[:2000], ' '.join(parse.bracket(t)))
    # the same text without the indicators and ba'e
    us = [u for u in r[2] if u.t != 'MARKER']
    if not any(u.ui or u.bahe for u in us): return None
    plain = []
    for u in us:
        if u.t == 'CMAVO' and u.sel in gen.IND + ('FAhO',): return None
        w = write(u)
        if w is None: return None
        plain += w
    q = ctx.run('jbofihe', ['-tf'], ' '.join(plain) + '\n'); d = parse.tree(r[1])
    ctx.label('stripped')
    if q.rc or jbo.nowarn(q.out) != parse.show(d): return 'indicators change the grammar: without them %r parses as\n%s %s\n with them as\n%s' % (' '.join(plain), q.out[:1500], q.err[:500], parse.show(d)[:1500])
def write(u):
    if u.t in ('CMAVO', 'BRIVLA', 'CMENE'): return [u.w]
    if u.t == 'ZO': return ['zo', u.w]
    if u.t == 'ZOI': return [u.form, u.term, u.w, u.term]
    if u.t == 'ZEI':
        if any(x.t not in ('CMAVO', 'BRIVLA', 'CMENE') for x in u.parts): return None
        return ' zei '.join(x.w for x in u.parts).split()
    if u.t == 'LOhU':
        if any(x.t not in ('CMAVO', 'BRIVLA', 'CMENE') for x in u.parts): return None
        return ["lo'u"] + [x.w for x in u.parts] + ["le'u"]
    if u.t == 'BU':
        w = write(u.parts[0]); return w and w + ['bu']
def families(): return [Family('soup', g_soup, test, 7000, 120000, jbo.shrink), Family('text', g_text, test, 6000, 100000, jbo.shrink)]
