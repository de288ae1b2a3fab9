"""C08: words of the parser = words of the morphology; bad words are refused. Oracles: vlatai (differential) and the reference morphology."""
import re
from lib.harness import Family
from lib import gen, jbo, words
from model import morph, text as T
from checks import c09
PROGS = ['jbofihe', 'vlatai']
RULE = ("chunks: batches of generated chunks (shape-built words, joined cmavo and brivla, names with embedded la/lai/la'i/doi, commas, capitals); those the reference finds sound go into one text whose -k list must be the "
        "reference's words and the pieces vlatai reports; the others must each be named with status 3 and no output. bad: grammatical texts with a bad chunk or an unclosed quotation put in. "
        "Non-trivial: batch with at least 5 sound and 5 bad chunks, or text with a bad chunk; distinct by text.")
ASSUMPTIONS = ['the frozen automaton sources (ref/) and cmavo list state the morphology']
SPEC = ('zoi', "la'o")
def chunk(rng):
    k = rng.random()
    if k < .3: return words.raw_word(rng)
    if k < .6: return ''.join(rng.choice(gen.ALLCM) for _ in range(rng.choice([1, 2, 2, 3, 4]))) + (gen.brivla(rng) if rng.random() < .5 else '')
    if k < .75: return rng.choice(gen.NAMES) if rng.random() < .3 else ''.join(rng.choice(['la', 'doi', 'lai', "la'i", 'djan', 'mer', 'is', 'a', 'o', 'ni', 'ks', 'bre', 'Ton', 'y', "i'a"]) for _ in range(rng.randint(1, 5))) + rng.choice('nsrkxbt')
    if k < .85: return gen.brivla(rng)
    return c09.bad(rng)
def lexone(w, cr=False):
    """-> (tokens, errors) of one chunk by the reference"""
    L = T.Lexer(cr); L.word(w, 1, 1)
    return L
def g_chunks(rng):
    return {'w': [chunk(rng) for _ in range(60)], 'cr': rng.random() < .2}
def usable(w): return w and w.isascii() and not re.search(r'[\s.(>0-9:\0]', w) and not any(x in w for x in SPEC)
def test_chunks(ctx, c):
    cr = c['cr']; good = []; bad = []; toks = []; errs = []; opt = ['-cr'] if cr else []
    for w in c['w']:
        if not usable(w): continue
        L = lexone(w, cr)
        if L.znext or L.zoi: continue
        if L.errs: bad.append(w); errs.append((w, L.errs))
        else: good.append(w); toks.append((w, L.toks))
    ctx.label('cultural' if cr else 'plain')
    if len(good) >= 5 and len(bad) >= 5: ctx.nontrivial(c['w'])
    if good:
        p = ctx.run('jbofihe', ['-k'] + opt, '\n'.join(good) + '\n')
        k = jbo.kparse(p.out)
        if not k: return 'sound words %r refused: status %d %s' % (good, p.rc, p.err[:800])
        want = [x for w, t in toks for x in jbo.klist(t)]
        if k[0] != want:
            d = [(a, b) for a, b in zip(k[0] + [None], want + [None]) if a != b][:3]
            return 'found words differ from the morphology (found, expected): %r' % d
        if not cr:
            v = ctx.run('vlatai', [], '\n'.join(good) + '\n').out.split('\n'); got = []
            i = 0
            for (w, t), l in zip(toks, v):
                f = l.split(' : '); mine = k[0][i:i + len(t)]; i += len(t)
                if len(f) != 3: return 'vlatai on %r says %r' % (w, l)
                if f[1] == 'cmavo(s)': e = [('CMV', x) for x in f[2].split()]
                elif f[1] == 'cmene': e = [('CMN', f[2].strip())]
                elif f[1].startswith('bad cmene'): continue
                else: ps = f[2].replace('/', '').split(); e = [('CMV', x) for x in ps[:-1]] + [('BRV', ps[-1])]
                if e != mine and not any(',' in x for _, x in e): return 'chunk %r: jbofihe finds %r, vlatai %r' % (w, mine, l)
    if bad:
        p = ctx.run('jbofihe', ['-k'] + opt, ' '.join(bad) + '\n')
        if p.rc != 3 or p.out.strip(): return 'text of bad words %r gets status %d and output %r' % (bad, p.rc, p.out[:300])
        named = re.findall(r"(?m)^(?:Bad cmavo \[(.*?)\]|Unrecognizable word '(.*?)' at|Invalid uppercase letters in word '(.*?)' at)", p.err)
        named = [''.join(x) for x in named]; want = [m[1] for w, e in errs for m in e]
        if named != want: return 'bad words named %r, expected %r' % (named, want)
def shrink_chunks(c):
    n = len(c['w']); k = max(n // 2, 1)
    while k >= 1 and n:
        for i in range(0, n, k): yield dict(c, w=c['w'][:i] + c['w'][i + k:])
        k //= 2
    for i, w in enumerate(c['w']):
        for j in range(len(w)): yield dict(c, w=c['w'][:i] + [w[:j] + w[j + 1:]] + c['w'][i + 1:])
def g_bad(rng, i):
    ws = gen.words(rng, i, budget=rng.choice([3, 6, 10]), mut=.1)
    ws.insert(rng.randrange(len(ws) + 1), c09.bad(rng))
    return {'s': c09.lay(rng, ws), 'o': rng.choice(jbo.OUTOPTS)}
def test_bad(ctx, c):
    if '-cr' in c['o']: c = dict(c, o=[])
    try: toks = T.tokens(c['s'])
    except T.Bad as b:
        ctx.nontrivial(c['s']); ctx.label(b.msgs[0][0])
        p = ctx.run('jbofihe', c['o'], c['s'])
        if p.rc != b.rc: return 'bad %r gets status %d instead of %d (%s)' % (b.msgs[:3], p.rc, b.rc, p.err[:300])
        if b.msgs[0][0] in ('bogus', 'upper', 'badcmavo', 'unclosed') and p.out.strip(): return 'bad %r, yet there is output %r' % (b.msgs[:3], p.out[:500])
        for m in b.msgs:
            if m[0] in ('bogus', 'upper', 'badcmavo') and m[1] not in p.err: return 'bad word %r is not named in: %s' % (m[1], p.err[:500])
        if not p.err.strip(): return 'bad %r is refused without a message' % (b.msgs[:3],)
def families():
    return [Family('chunks', g_chunks, test_chunks, 1500, 40000, shrink_chunks), Family('bad', g_bad, test_bad, 6000, 80000, jbo.shrink)]
