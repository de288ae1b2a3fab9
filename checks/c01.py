"""C01: accepted language. Reference: own LALR(1) parser over the frozen grammar, own preprocessing of the words."""
from lib.harness import Family
from lib import gen, jbo
from model import parse, grammar, text as T
PROGS = ['jbofihe']
RULE = ("pairs: for every (rule, position, expanding rule) of the reference grammar a random derivation through it, by preference one whose reference parse uses it; random: derivations of random size with indicators, ba'e and erasures; "
        "mutants: those with 1-3 words deleted, inserted, exchanged or doubled; states: a shortest word string into every LALR state followed by one more word; "
        "re: the same for the grammar without elision, derivations with all, or all but a few, elidable terminators written out, parsed with -re. Each is run in two output formats. "
        "Non-trivial: the text has at least 3 tokens and reaches the parser (no bad words); distinct by text.")
ASSUMPTIONS = ['the frozen productions (ref/rpc2x.y) with yacc conflict resolution, the frozen cmavo list and the marker placement described in the grammar state the language',
               'parser nesting stays below 10000 symbols']
CORE = [[], ['-t'], ['-x'], ['-H'], ['-l'], ['-x', '-b'], ['-tf']]
def opts(rng): return [rng.choice(CORE), rng.choice(jbo.OUTOPTS)]
def setup(ctx, tier): grammar.tables(False); grammar.tables(True); gen.gram().pairs(); [(gen.gram(x).pairs(), gen.gram(x).ids(), gen.contexts(gen.gram(x))) for x in (False, True)]; acc(); acc(True)
_acc = {}
def acc(full=False):
    if full not in _acc: _acc[full] = [ts for q, ts in gen.gram().access(full) if gen.ok_terms(ts)]
    return _acc[full]
def g_pairs(rng, i):
    g = gen.gram(); p = g.pairs()
    if rng.random() < .8: u = gen.sure(rng, p[i % len(p)])[0]
    else: u = gen.realise(rng, g.derive(rng, rng.choice([3, 6, 10, 15]), elide=rng.choice([.1, .5, .9]), pair=p[i % len(p)]))
    return {'s': gen.layout(rng, gen.flat(u)), 'o': opts(rng)}
def g_random(rng, i): return {'s': gen.layout(rng, gen.words(rng, i, mut=0)), 'o': opts(rng)}
def g_mut(rng, i): return {'s': gen.layout(rng, gen.words(rng, i, mut=1)), 'o': opts(rng)}
TERMS = sorted(gen.CMW) + ['BRIVLA', 'CMENE', 'ZOI', 'ZO', 'LOhU', 'ZEI', 'BU']
def g_states(rng, i):
    ts = acc()[i % len(acc())] + [rng.choice(TERMS)]
    return {'s': gen.layout(rng, gen.flat(gen.realise(rng, ts))), 'o': opts(rng)}
def g_re(rng, i):
    g = gen.gram()
    if rng.random() < .15: u = gen.realise(rng, acc(True)[i % len(acc(True))] + [rng.choice(TERMS)])
    elif rng.random() < .75: F = gen.gram(True); u = gen.sure(rng, F.pairs()[i % len(F.pairs())], full=True)[0]
    else: u = gen.realise(rng, g.derive(rng, rng.choice([3, 6, 10, 15, 25]), g.targets[i % len(g.targets)] if rng.random() < .6 else None, rng.choice([1e-6, 1e-6, 1e-6, .05]), 'all'))
    if rng.random() < .2: u = gen.mutate(rng, u)
    if rng.random() < .2:
        i = [k for k, w in enumerate(u) if T.CM.get(w[0], ('',))[0] in parse.ELID]
        if i: del u[rng.choice(i)]
    return {'s': gen.layout(rng, gen.flat(u)), 'o': [['-re'] + o for o in opts(rng)]}
TALK = {'-k', '-m', '-se', '-sev'}      # options that print something else on standard output too
def test(ctx, c):
    s = c['s']; full = bool(c['o']) and '-re' in c['o'][0]
    r = parse.analyse(s, full)
    ctx.label({'ok': 'accepted', 'bad': 'bad word', 'syntax': 'rejected'}[r[0]])
    if r[0] != 'bad' and len(r[2]) >= 3: ctx.nontrivial((s, full))
    for o in c['o'] or [[]]:
        p = ctx.run('jbofihe', o, s); how = 'jbofihe %s: ' % ' '.join(o)
        if r[0] == 'ok':
            if p.rc != 0: return how + 'grammatical text refused (status %d): %s' % (p.rc, p.err[:600])
            if not jbo.nowarn(p.out).strip() and r[2] and r[2][0].sel != 'FAhO': return how + 'grammatical text gives no analysis'
        elif r[0] == 'syntax':
            if p.rc not in (1, 2): return how + 'text outside the grammar (at token %d %r) gets status %d: %s' % (r[1].idx, r[2][r[1].idx:r[1].idx + 1], p.rc, p.out[:600])
            if not TALK & set(o) and jbo.nowarn(p.out).strip(): return how + 'an analysis is printed for a text outside the grammar: ' + p.out[:600]
        else:
            if p.rc != r[1]: return how + 'text with a bad word or construct %r gets status %d instead of %d' % (r[2][:2], p.rc, r[1])
            if not TALK & set(o) and jbo.nowarn(p.out).strip(): return how + 'an analysis is printed for a text with bad words: ' + p.out[:600]
def families():
    n = len(gen.gram().pairs()); m = len(acc())
    return [Family('pairs', g_pairs, test, n * 2, n * 30, jbo.shrink), Family('random', g_random, test, 3000, 60000, jbo.shrink), Family('mutants', g_mut, test, 4000, 80000, jbo.shrink),
            Family('states', g_states, test, m * 3, m * 60, jbo.shrink), Family('re', g_re, test, 9000, 200000, jbo.shrink)]
