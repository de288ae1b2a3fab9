"""C04: erasure. Oracles: reference history of the words (units after preprocessing) and the parse of the text with the erased words left out."""
from lib.harness import Family
from lib import gen, jbo
from model import parse, text as T
from checks import c03
PROGS = ['jbofihe']
RULE = ("histories of words interleaved with si, sa and su (also in runs), over grammatical derivations and over random words, with zo, lo'u..le'u and zoi quotations among them. The unit list after preprocessing must be the "
        "reference's, and where the remaining units can be written down again, the parse must equal that of the remaining text alone. Non-trivial: at least one eraser acts; distinct by text.")
ASSUMPTIONS = ["no digits inside zoi or la'o quotations; 'zo zoi' and zoi within another chunk are not generated"]
NOZ = ('ZOI', 'ZO', 'LOhU', 'LEhU')
def quote(rng):
    k = rng.random()
    if k < .4: return ['zo'] + gen.any_words(rng, 1, ('ZOI',))
    if k < .7: return ["lo'u"] + gen.any_words(rng, rng.randint(0, 3), ('ZOI', 'ZO', 'LEhU')) + ["le'u"]
    d = rng.choice(['gy', 'xy', 'foo']); return [rng.choice(['zoi', "la'o"]), d] + [rng.choice(['a', 'b', 'si', 'su', 'klama', d + 'a', d[:-1], d.upper(), 'x' + d, d + "'", d + d]) for _ in range(rng.randint(0, 3))] + [d]
def eraser(rng):
    k = rng.random()
    if k < .6: return ['si'] * rng.choice([1, 1, 2, 2, 3, 4, 5])
    if k < .85: return ['sa']
    return ['su'] * rng.choice([1, 1, 1, 2])
def g_soup(rng):
    o = []
    for _ in range(rng.randint(2, 14)):
        k = rng.random()
        if k < .15: o += quote(rng)
        elif k < .45: o += eraser(rng)
        elif k < .55: o.append(rng.choice(["ni'o", 'lu', "tu'e", 'to', 'i']))
        elif k < .6: o.append(rng.choice(['zei', 'bu', "ba'e", 'ui', 'nai', 'zo']))
        else: o += gen.any_words(rng, rng.choice([1, 1, 2, 3]), NOZ)
    return {'s': ' '.join(o) + '\n'}
def g_text(rng, i):
    """a grammatical text with false starts that are erased again"""
    g = gen.gram(); u = gen.realise(rng, g.derive(rng, rng.choice([3, 6, 10, 20]), g.targets[i % len(g.targets)] if rng.random() < .5 else None, .7))
    o = []
    for w in u:
        if rng.random() < .25:
            k = rng.random()
            if k < .5:
                n = rng.choice([1, 1, 2, 3]); o += gen.any_words(rng, n, NOZ + ('SI', 'SA', 'SU')) + ['si'] * n
            elif k < .75:
                q = quote(rng); n = {'zo': 2, "lo'u": 3}.get(q[0], 4); o += q + ['si'] * n
            elif k < .9: o += [w[0]] + gen.any_words(rng, rng.randint(0, 2), NOZ + ('SI', 'SA', 'SU')) + ['sa']
            else: o += ["ni'o"] + gen.any_words(rng, rng.randint(0, 3), NOZ + ('SI', 'SA', 'SU', 'NIhO', 'LU', 'TUhE', 'TO')) + ['su']
        o += w
    return {'s': gen.layout(rng, o)}
def rest(us):
    """the remaining words written down, or None"""
    o = []
    for t in us:
        if t.t == 'CMAVO':
            if t.sel in ('SI', 'SA', 'SU', 'ZEI', 'BU', 'BAhE'): return None
            o.append(t.w)
        elif t.t in ('BRIVLA', 'CMENE'): o.append(t.w)
        elif t.t == 'ZO': o += ['zo', t.w]
        elif t.t == 'ZOI': o += [t.form, t.term, t.w, t.term]
        elif t.t == 'LOhU':
            if any(p.t not in ('CMAVO', 'BRIVLA', 'CMENE') for p in t.parts): return None
            o += ["lo'u", t.w, "le'u"]
        else: return None
    return ' '.join(x for x in o if x) + '\n'
def zozoi(s):
    w = s.replace('.', ' ').split()
    return any(a == 'zo' and b in ('zoi', "la'o") for a, b in zip(w, w[1:]))
def test(ctx, c):
    s = c['s']
    if zozoi(s): return None
    try: ws = T.lex(s); us = T.units(ws)
    except T.Bad as b:
        ctx.label('bad')
        p = ctx.run('jbofihe', [], s)
        if p.rc != b.rc: return 'status %d instead of %d for %r' % (p.rc, b.rc, b.msgs)
        return None
    es = [w.w for w in ws if w.t == 'CMAVO' and w.sel in ('SI', 'SA', 'SU')]
    ctx.label(*set(es))
    if es: ctx.nontrivial(s)
    p = ctx.run('jbofihe', ['-k', '-t'], s); k = jbo.kparse(p.out)
    if not k or k[1] is None: return 'no unit list: status %d %s' % (p.rc, p.err[:500])
    if k[1] != jbo.klist(us): return 'remaining units are\n%r\n instead of\n%r' % (k[1], jbo.klist(us))
    r = rest(us)
    if r is not None and not any(t.ui or t.bahe or t.nai or t.cai for t in us):
        ctx.label('rewritten'); q = ctx.run('jbofihe', ['-k', '-t'], r)
        kq = jbo.kparse(q.out)
        if q.rc != p.rc or not kq or kq[1] != k[1] or jbo.nowarn(kq[2]) != jbo.nowarn(k[2]):
            return 'parse differs from that of the remaining text %r (status %d, %d):\n%s\n%s' % (r, p.rc, q.rc, k[2][:1500], q.out[-1500:])
        if p.rc == 0: ctx.label('accepted')
        elif jbo.report(jbo.noplace(p.err)) != jbo.report(jbo.noplace(q.err)): return 'error report differs from that of the remaining text %r: %s / %s' % (r, p.err[:500], q.err[:500])
    r = parse.analyse(s)
    if (r[0] == 'ok') != (p.rc == 0): return 'status %d, the reference says %s' % (p.rc, r[0])
    if r[0] == 'ok':
        t = parse.show(parse.compress(parse.augment(parse.tree(r[1]))))
        if jbo.nowarn(k[2]) != t: return 'tree\n%s\n instead of\n%s' % (k[2][:2000], t[:2000])
def families(): return [Family('soup', g_soup, test, 7000, 120000, jbo.shrink), Family('text', g_text, test, 6000, 100000, jbo.shrink)]
