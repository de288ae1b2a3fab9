"""C03: layout independence. Metamorphic: same words, different separators / comments / digits / joining; plus the expected word list."""
from lib.harness import Family
from lib import gen, jbo
from model import morph, text as T, parse
PROGS = ['jbofihe']
RULE = ("a word list (grammatical derivation, mutant of one, or any words) is written plainly and in a random layout: separators are mixtures of blanks, tabs, newlines, dots and nested comments holding words, "
        "digits and erasers; number words become digits or ':'; cmavo are run together, or joined to the following brivla, where the morphology takes them apart again. The -k word list must be the generated one and "
        "status, tree, bracketed form and error report must be those of the plain text. Non-trivial: the layout differs in at least two ways; distinct by text.")
ASSUMPTIONS = ["texts inside zoi and la'o quotations are words separated by blanks, without digits"]
DIG = {w: str(i) for i, w in enumerate(T.DIG)}; DIG["pi'e"] = ':'
def comment(rng, d=0):
    o = '('
    for _ in range(rng.randint(0, 4)):
        k = rng.random()
        if k < .2 and d < 4: o += comment(rng, d + 1)
        else: o += rng.choice(['mi', 'si', 'su', "fa'o", '5', 'zoi', '\n', ' ', '.', '<', 'zo', "lo'u", 'klama', '"', 'xyz,', ':', 'KU', '>', '\t'])
    return o + ')'
def sep(rng, ways):
    o = ''
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        k = rng.random()
        if k < .45: o += ' '
        elif k < .6: o += '\n'; ways.add('newline')
        elif k < .7: o += '\t'; ways.add('tab')
        elif k < .85: o += '.'; ways.add('dot')
        else: o += comment(rng); ways.add('comment')
    return o
def units_of(ws):
    """marks the words inside zoi quotations (raw: no digits, no joining) and after zo/zoi"""
    raw = set(); i = 0
    while i < len(ws):
        if ws[i] in ('zoi', "la'o"):
            j = i + 2
            while j < len(ws) and (i + 1 >= len(ws) or ws[j] != ws[i + 1]): j += 1
            raw.update(range(i, j + 1)); i = j + 1
        else: i += 1
    return raw
def render(rng, ws):
    raw = units_of(ws); ways = set(); o = ''
    if rng.random() < .3: o += sep(rng, ways)
    i = 0; pj = rng.choice([0, .2, .6])
    while i < len(ws):
        w = ws[i]
        if i in raw:
            o += w; i += 1; s = sep(rng, ways)
            if '(' in s: s = ' '
            o += s; continue
        if w in DIG and rng.random() < .5: o += DIG[w]; ways.add('digit'); i += 1; o += sep(rng, ways) if rng.random() < .5 else ''; continue
        j = i + 1; buf = w
        while j < len(ws) and j not in raw and rng.random() < pj:
            t = buf + ws[j]
            if not splits(t, ws[i:j + 1]): break
            buf = t; j += 1; ways.add('joined')
        o += buf; i = j
        if i < len(ws) and i not in raw and ws[i] in DIG and rng.random() < .3: o += DIG[ws[i]] + sep(rng, ways); i += 1; ways.add('digit')
        elif i < len(ws): o += sep(rng, ways)
    o += rng.choice(['', '\n', ' ', '\n\n', '.', ' (end)\n', ' (unclosed ', '\t'])
    return o, ways
def splits(t, parts):
    k, r = morph.kind(t)
    if k in ('BOGUS', 'UPPER', 'CMENE') or any(',' in p for p in parts): return False
    st = r.starts + [len(t)]
    return [t[a:b] for a, b in zip(st, st[1:])] == list(parts)
def gen1(rng, i):
    k = rng.random()
    if k < .8: ws = gen.words(rng, i, mut=.3)
    else: ws = gen.any_words(rng, rng.randint(1, 15))
    t, ways = render(rng, ws)
    return {'w': ws, 's': t, 'ways': sorted(ways)}
def test(ctx, c):
    ws = c['w']; plain = ' '.join(ws) + '\n'; s = c['s']
    ctx.label(*c['ways'])
    if len(c['ways']) >= 2: ctx.nontrivial(s)
    a = ctx.run('jbofihe', ['-t', '-k'], plain); b = ctx.run('jbofihe', ['-t', '-k'], s)
    if a.rc != b.rc: return 'status %d written plainly, %d as %r: %s' % (a.rc, b.rc, s, b.err[:500])
    if jbo.nowarn(a.out) != jbo.nowarn(b.out): return 'plain: %s\n as %r: %s' % (a.out[:2000], s, b.out[:2000])
    if jbo.noplace(a.err) != jbo.noplace(b.err): return 'plain: %s\n as %r: %s' % (a.err[:1000], s, b.err[:1000])
    k = jbo.kparse(b.out)
    if b.rc != 3 and k:
        raw = units_of(ws); want = [w for i, w in enumerate(ws) if i not in raw]; got = [w for t, w in k[0] if t != 'ZOI']
        if want != got: return 'the words are %r, found are %r' % (want, got)
    if b.rc == 0:
        ctx.label('accepted')
        a = ctx.run('jbofihe', [], plain); b = ctx.run('jbofihe', [], s)
        if jbo.squash(jbo.nowarn(a.out)) != jbo.squash(jbo.nowarn(b.out)): return 'bracketed: plain %s\n as %r: %s' % (a.out[:2000], s, b.out[:2000])
def shrink(c):
    import random
    for k in range(len(c['w'])):
        ws = c['w'][:k] + c['w'][k + 1:]
        for sd in range(3):
            s, ways = render(random.Random(sd), ws); yield {'w': ws, 's': s, 'ways': sorted(ways)}
# commas inside brivla and names
def g_comma(rng, i):
    ws = [w for w in gen.words(rng, i, mut=0, dec=0)]
    raw = units_of(ws); out = []; n = 0
    for j, w in enumerate(ws):
        if j not in raw and ws[j - 1:j] != ['zo'] and len(w) > 2 and w not in T.CM and ',' not in w and rng.random() < .6:
            k = rng.randrange(1, len(w)); w = w[:k] + ',' + w[k:]; n += 1
        out.append(w)
    return {'s': ' '.join(out), 'n': n}
def t_comma(ctx, c):
    if not c['n']: return None
    a = ctx.run('jbofihe', ['-t'], c['s'].replace(',', '')); b = ctx.run('jbofihe', ['-t'], c['s'])
    ctx.nontrivial(c['s'])
    if a.rc != b.rc or jbo.nowarn(a.out) != jbo.nowarn(b.out).replace(',', ''): return 'syllable commas change the parse of %r: %s %s' % (c['s'], b.out[:1000], b.err[:500])
def families(): return [Family('layout', gen1, test, 9000, 150000, shrink), Family('commas', g_comma, t_comma, 1500, 20000)]
