"""C09: positions and words of error reports. Reference: own lexer positions and own LALR(1) parser (immediate error detection)."""
import re
from lib.harness import Family
from lib import gen, jbo, words
from model import parse, morph
from checks import c01, c03
PROGS = ['jbofihe']
RULE = ("states: a shortest word string into every LALR state + one word; mutants: derivations with words deleted, inserted or exchanged; rules: derivations through every rule cut off or broken at a random place; "
        "badwords: grammatical texts with generated ill-formed words, unknown cmavo, misplaced capitals and unclosed quotations put in. All with varied layout (newlines, tabs, dots, comments, digits), "
        "so that line and column differ. Non-trivial: the text is rejected at a token other than the first; distinct by text.")
ASSUMPTIONS = c01.ASSUMPTIONS + ["a missing selbri before GIhA may be located at the GIhA phrase or at the word before it"]
setup = c01.setup
def lay(rng, ws):
    o = []
    seps = [' ', ' ', '\n', '  ', '\t', ' . ', '.', ' (c) ', '\n\n', '. ', ' (a\nb) ', '(x (y) z)', ' \n\t', '\n ']
    sp = lambda: c03.comment(rng) if rng.random() < .12 else rng.choice(seps)
    if rng.random() < .4: o.append(sp())
    for w in ws: o += [w, sp()]
    return ''.join(o) + '\n'
def digits(rng, ws):
    """some number words as digits"""
    D = {w: str(i) for i, w in enumerate(('no', 'pa', 're', 'ci', 'vo', 'mu', 'xa', 'ze', 'bi', 'so'))}; D["pi'e"] = ':'
    if any(w in ('zoi', "la'o", 'zo') for w in ws): return ws
    return [D[w] if w in D and rng.random() < .5 else w for w in ws]
def g_states(rng, i):
    ts = c01.acc()[i % len(c01.acc())] + [rng.choice(c01.TERMS)]
    return {'s': lay(rng, digits(rng, gen.flat(gen.realise(rng, ts))))}
def g_mut(rng, i): return {'s': lay(rng, digits(rng, gen.words(rng, i, mut=1)))}
def g_cut(rng, i):
    g = gen.gram(); u = gen.realise(rng, g.derive(rng, rng.choice([6, 10, 15, 25]), g.targets[i % len(g.targets)], rng.choice([.1, .5, .9])))
    k = rng.randrange(len(u) + 1); u = u[:k] + ([[rng.choice(gen.ALLCM)]] + u[k:] if rng.random() < .6 else [])
    return {'s': lay(rng, digits(rng, gen.flat(u)))}
def bad(rng):
    k = rng.random()
    if k < .3: return words.raw_word(rng)
    if k < .5: return ''.join(rng.choice('aeiou') for _ in range(rng.choice([2, 3]))) + "'" + rng.choice('aeiou')
    if k < .6: return rng.choice(gen.ALLCM) + rng.choice(gen.ALLCM)
    if k < .75: w = rng.choice(gen.ALLCM + gen.GISMU); i = rng.randrange(len(w)); return w[:i] + w[i].upper() + w[i + 1:]
    if k < .85: return rng.choice(gen.GISMU) + rng.choice(['q', 'h', 'w', '-', '?', '!', '*'])
    if k < .95: w = rng.choice(gen.GISMU); i = rng.randrange(len(w)); return w[:i] + rng.choice('bcdfgkaeiou') + w[i + 1:]
    return rng.choice(['zoi', 'zo', "lo'u", 'zei', 'Xq,', "k'", 'aaa', 'bcdf'])
def g_bad(rng, i):
    ws = gen.words(rng, i, budget=rng.choice([3, 6, 10]), mut=.2)
    for _ in range(rng.choice([1, 1, 2, 3])): ws.insert(rng.randrange(len(ws) + 1), bad(rng))
    return {'s': lay(rng, digits(rng, ws))}
def test(ctx, c):
    s = c['s']; r = parse.analyse(s)
    if r[0] == 'ok': return None
    p = ctx.run('jbofihe', [], s)
    if r[0] == 'syntax':
        e = r[1]; ctx.label('forced' if e.forced else 'end of text' if e.idx >= len(e.toks) else 'marker' if e.toks[e.idx].t == 'MARKER' else 'word')
        if e.idx: ctx.nontrivial(s)
        if e.forced:
            k = e.idx; ok = set()
            while k >= 0 and e.toks[k].t == 'MARKER': k -= 1
            if k >= 0: ok.add((e.toks[k].line, e.toks[k].col))
            k = e.idx
            while k < len(e.toks):
                ok.add((e.toks[k].line, e.toks[k].col))
                if e.toks[k].t != 'MARKER' and e.toks[k].sel == 'GIhA': break
                k += 1
            m = re.search(r'Missing selbri before GIhA at line (\d+) column (\d+)', p.err)
            if not m or (int(m.group(1)), int(m.group(2))) not in ok: return 'missing selbri before GIhA at %s reported as: %s' % (sorted(ok), p.err[:500])
            return None
        x = jbo.expected_report(e); y = jbo.report(p.err)
        if x != y: return 'the first word without continuation is %r after %r; reported is %r after %r' % (x[0] or 'end of text', x[1], (y or ['nothing'])[0] or 'end of text', (y or [0, 0])[1])
        return None
    ctx.label('bad ' + r[2][0][0]); ctx.nontrivial(s)
    return badreport(p, r)
def badreport(p, r):
    """every bad word is reported, in order, with its place"""
    got = re.findall(r'(?m)^(.*)\bat line (\d+),? col(?:umn)? (\d+)', p.err)
    want = [m for m in r[2] if m[0] in ('bogus', 'upper', 'badcmavo') and m[2] is not None]
    g = [(int(a), int(b)) for _, a, b in got]; w = [(m[2], m[3]) for m in want]
    if g != w: return 'bad words %r reported as: %s' % (want, p.err[:800])
    for m, (t, _, _) in zip(want, got):
        if m[1] not in t: return 'bad word %r is not named in %r' % (m[1], t)
def families():
    m = len(c01.acc())
    return [Family('states', g_states, test, m * 6, m * 80, jbo.shrink), Family('mutants', g_mut, test, 5000, 80000, jbo.shrink), Family('cut', g_cut, test, 5000, 80000, jbo.shrink),
            Family('badwords', g_bad, test, 5000, 80000, jbo.shrink)]
