"""C23: the ways to configure and compile the programs. Differential: the same sources built otherwise (compiler, optimisation, --nommap, --embed) must behave the same."""
import os, random, re
from lib.harness import Family, Timeout
from lib import gen as G, jbo
from checks import c13, c16, c17, c19
PROGS = ['jbofihe', 'cmafihe', 'jvocuhadju', 'smujajgau', 'vlatai']
BUILDS = ('plain', 'alt', 'embed')
DFASYN_ASAN = True
RULE = ("jbofihe: a text (grammatical, damaged, word soup) with random options goes through three builds: gcc -O1 with the dictionary mapped; clang -O3 configured with --nommap; gcc -O2 with --embed (and no dictionary file); stdout, stderr and status must be the same. "
        "words: each entry of the shipped dictionary, in every grammatical role, glossed by the three builds. dictionary: random dictionary and text, the first two builds. tools: vlatai, cmafihe, jvocuhadju, smujajgau (file compared byte by byte), dfasyn (generated files) in the builds. "
        "Non-trivial: a run printed at least 20 characters; distinct by case.")
ASSUMPTIONS = ['the compilers installed here; 64-bit Linux', 'the dictionary built into the program is compared with the file made from the same shipped sources']
def cmp(a, b, what):
    for n in ('rc', 'out', 'err'):
        x, y = getattr(a, n), getattr(b, n)
        if x != y:
            if n == 'rc': return 'status %d, but %d %s' % (x, y, what)
            k = next((i for i in range(min(len(x), len(y))) if x[i] != y[i]), min(len(x), len(y)))
            return 'different %s %s: %r and %r' % (n, what, x[max(0, k - 60):k + 100], y[max(0, k - 60):k + 100])
def three(ctx, p, o, s):
    a = ctx.run(p, o, s)
    if len(a.out + a.err) > 20: ctx.nontrivial((p, str(o), s))
    return cmp(a, ctx.run(p, o, s, kind='alt'), 'built with clang -O3 and --nommap') or cmp(a, ctx.run(p, o, s, kind='embed', env={'JBOFIHE_DICTIONARY': '/nonexistent'}), 'built with --embed')
def test(ctx, c):
    o = c19.flat(c['o']); ctx.label(*[x[0] for x in c['o']])
    return three(ctx, 'jbofihe', o, c['s'])
def gen_words(rng, i):
    o = rng.choice(['-x', '-x', '-g', '-l', 'cmafihe'])
    if o == 'cmafihe' or rng.random() < .35: return {'o': o, 's': ' '.join(rng.choice(G.ALLCM + G.GISMU) for _ in range(25)) if o == 'cmafihe' else ' '.join(G.words(rng, i, mut=0)) + '\n'}
    w = [G.GISMU[(i * 4 + j) % len(G.GISMU)] for j in range(4)]; s = rng.choice(['', 'se ', 'te ', 've ', 'xe ', 'se te '])
    return {'o': o, 's': 'lo %s%s cu %s%s lo %s%s %s be mi .i %s%s fa do fe re fi ci fo vo fu mu .i le nu %s kei cu %s\n' % (s, w[0], s, w[1], s, w[2], w[3], s, w[3], w[0], w[1])}
def test_words(ctx, c):
    ctx.label(c['o'])
    return three(ctx, 'cmafihe', [], c['s']) if c['o'] == 'cmafihe' else three(ctx, 'jbofihe', [c['o']], c['s'])
def gen_dict(rng, i): return c13.gen_bridi(rng, i) if i % 2 else c13.gen_gram(rng, i)
def test_dict(ctx, c):
    d, _ = c13.dict_for(ctx, c['d']); s = c['s']
    for o in (['-x'], ['-g']):
        a = ctx.run('jbofihe', o, s, env={'JBOFIHE_DICTIONARY': d}); b = ctx.run('jbofihe', o, s, kind='alt', env={'JBOFIHE_DICTIONARY': d})
        if len(a.out) > 20: ctx.nontrivial(c)
        m = cmp(a, b, 'built with clang -O3 and --nommap')
        if m: return m
def gen_tools(rng, i): return c19.gen_tools(rng, i)
def test_tools(ctx, c):
    p, w, o = c['p'], c['w'], c['o']; ctx.label(p)
    if p == 'vlatai':
        w = [x for x in w if x and x[0] != '-']
        return three(ctx, p, o, ''.join(x + '\n' for x in w))
    if p == 'cmafihe': return three(ctx, p, o, ' '.join(w) + '\n')
    if p == 'jvocuhadju': return three(ctx, p, o + w, '')
    if p == 'smujajgau':
        fs = []; r = []
        for j, ls in enumerate(w):
            f = ctx.tmp('src%d' % j); open(f, 'wb').write(''.join(l + '\n' for l in ls).encode('latin1')); fs.append(f)
        for k in ('plain', 'alt', 'embed'):
            d = ctx.tmp('c23m.dat')
            if os.path.exists(d): os.remove(d)
            a = ctx.run(p, [d] + fs, kind=k); r.append((a.rc, a.out, a.err, open(d, 'rb').read() if os.path.exists(d) else None))
        if w and any(w): ctx.nontrivial(str(w))
        if r[0] != r[1] or r[0] != r[2]: return 'smujajgau built otherwise gives another result'
        return
    f = ctx.tmp('a.in'); open(f, 'w').write('\n'.join(w['t']) + '\n'); rs = []
    for k in ('gen', 'alt', 'embed'):
        out = [ctx.tmp('df.c'), ctx.tmp('df.h'), ctx.tmp('df.r')]
        for x in out:
            if os.path.exists(x): os.remove(x)
        try: r = ctx.run('dfasyn', o + ['-o', out[0], '-ho', out[1], '-r', out[2], f], path=os.path.join(ctx.b.dirs[k], 'dfasyn', 'dfasyn'), timeout=5)
        except Timeout: ctx.label('dfasyn: not judged: exponential automaton'); return
        rs.append((r.rc, r.out, r.err, [open(x, 'rb').read() if os.path.exists(x) else None for x in out]))
    if rs[0][3][0]: ctx.nontrivial(str(w))
    if rs[0] != rs[1] or rs[0] != rs[2]: return 'dfasyn built otherwise gives different results for one description'
def setup(ctx, tier): G.gram().pairs()
def families(): return [Family('jbofihe', c19.gen, test, 6000, 150000, jbo.shrink), Family('words', gen_words, test_words, 3000, 60000, jbo.shrink), Family('dictionary', gen_dict, test_dict, 2000, 50000), Family('tools', gen_tools, test_tools, 3000, 50000, c19.shrink_tools)]
