"""C02: printed trees. Reference: derivation tree of the own parser, drawn by the own printer."""
from lib.harness import Family
from lib import gen, jbo
from model import parse
from checks import c01
PROGS = ['jbofihe']
RULE = ("the texts of C01 (every rule pair, random, decorated with indicators, ba'e, quotations, erasures); -tf, -t and the bracketed form are compared with the reference tree, "
        "line by line (bracketed: blanks removed). Non-trivial: accepted text of at least 3 tokens; distinct by text.")
ASSUMPTIONS = c01.ASSUMPTIONS
setup = c01.setup
def test(ctx, c):
    s = c['s']; r = parse.analyse(s)
    if r[0] != 'ok': return None
    ctx.label('accepted')
    if len(r[2]) >= 3: ctx.nontrivial(s)
    t = parse.augment(parse.tree(r[1])); k = parse.compress(t)
    p = ctx.run('jbofihe', ['-tf'], s)
    if p.rc or jbo.nowarn(p.out) != parse.show(t): return '-tf shows\n%s\n instead of\n%s' % (p.out[:3000], parse.show(t)[:3000])
    p = ctx.run('jbofihe', ['-t'], s)
    if p.rc or jbo.nowarn(p.out) != parse.show(k): return '-t shows\n%s\n instead of\n%s' % (p.out[:3000], parse.show(k)[:3000])
    p = ctx.run('jbofihe', [], s); o = jbo.squash(jbo.nowarn(p.out))
    if p.rc or o not in [''.join(x) for x in (parse.bracket(k), parse.bracket(k, False))]: return 'the bracketed form is\n%s\n instead of\n%s' % (p.out[:3000], ' '.join(parse.bracket(k))[:3000])
def families():
    n = len(gen.gram().pairs())
    strip = lambda f: lambda rng, i: {'s': f(rng, i)['s']}
    return [Family('pairs', strip(c01.g_pairs), test, n, n * 20, jbo.shrink), Family('random', strip(c01.g_random), test, 4000, 80000, jbo.shrink),
            Family('decorated', lambda rng, i: {'s': gen.layout(rng, gen.words(rng, i, dec=.3, mut=.1))}, test, 3000, 50000, jbo.shrink)]
