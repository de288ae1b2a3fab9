"""C16: cmafihe. Reference: own scanner, gloss rules and block layout over a generated dictionary."""
import os, re
from lib.harness import Family
from lib import words as WD
from model import cmaf, text as T, lujvo as L
PROGS = ['cmafihe', 'smujajgau']
RULE = ("A case is a dictionary and a text of words of every kind, compounds, unknown words, bracketed text, line breaks and stray characters; text, block (random widths) "
        "and LaTeX output are compared item by item with the reference. Non-trivial: at least three words were shown; distinctness is by the text.")
ASSUMPTIONS = ['texts are ASCII']
CMAVO = sorted({w for w in T.CMAVO}) if hasattr(T, 'CMAVO') else None
if not CMAVO:
    import json
    from model.morph import REF
    _d = json.load(open(os.path.join(REF, 'cmavo.json'))); CMAVO = sorted(_d if isinstance(_d, dict) else {x[0] for x in _d})
CMAVO = [c for c in CMAVO if re.fullmatch(r"[a-z']+", c)]
W = sorted(L.RAFSI); G5 = [w for w in W if len(w) == 5]
def gloss(rng, i):
    return rng.choice(['g%d' % i, 'g%d' % i, 'g%d of' % i, 'the g%d' % i, '', ' ', 'long gloss %d ' % i + 'x' * rng.randint(1, 60), 'g%d, h' % i])
def luj(rng):
    n = rng.choice([2, 2, 3, 4])
    while 1:
        ws = [rng.choice(['se', 'te', 've', 'xe']) if rng.random() < .25 and i < n - 1 else rng.choice(G5) for i in range(n)]
        ch = L.choices(ws, rng.random() < .5, True)
        if all(ch): return L.join([rng.choice(c) for c in ch])[0], ws
def word(rng, cm):
    k = rng.random()
    if k < .25: return rng.choice(cm)
    if k < .4: return ''.join(('.' if w[0] in 'aeiou' and rng.random() < .8 and i else '') + w for i, w in enumerate(rng.choice(cm) for _ in range(rng.randint(2, 4))))
    if k < .45: return '.' + rng.choice([c for c in CMAVO if c[0] in 'aeiou'])
    if k < .6: return rng.choice(G5)
    if k < .75: return luj(rng)[0]
    if k < .82: return rng.choice(G5)[:rng.choice([3, 4])] + rng.choice(['r', 'n', 'l']) + WD.fill(rng, rng.choice(['CVCV', 'CVCVCV', 'VCV', 'CCVCV']))
    if k < .9: return rng.choice(['', '.']) + WD.fill(rng, rng.choice(['CVC', 'VCVC', 'CVCCVC', 'CVVC'])) + rng.choice(['', '.'])
    if k < .95: return WD.raw_word(rng)
    return rng.choice(['DJAN', '?', '.', ',', '5', 'klama.', 'xyz', 'Mi', '--', "'", ')', ']'])
def gen(rng):
    cm = [rng.choice(CMAVO) for _ in range(rng.randint(1, 12))]
    toks = []
    for _ in range(rng.randint(0, 25)):
        k = rng.random()
        if k < .05: toks.append(rng.choice(['(x y)', '[mi klama]', '(a (b [c]) d)', '( )', '(two\nlines)', '[]', '(mi', 'a)']))
        else: toks.append(word(rng, cm))
    s = ''
    for t in toks: s += t + rng.choice([' ', ' ', ' ', ' ', '  ', '\t', '\n', '\n', '\n\n', '\n\n\n', '\r\n', ' \n ', '\r\n\r\n', ''])
    return {'s': s, 'seed': rng.randrange(1 << 30), 'w': rng.choice([0, 1, 5, 10, 20, 30, 40, 60, 80, 80, 100, 200, 600, 1000]), 'cm': cm}
def dictionary(c):
    """entries for some of the words and parts of the text"""
    import random
    rng = random.Random(c['seed']); m = {}; n = 0
    def put(k, v): m[k] = v
    for w in c['cm']:
        if rng.random() < .8: n += 1; put(w, gloss(rng, n))
        if rng.random() < .8: put('+' + w, rng.choice(['KOhA', 'UI', 'LE', 'X1', 'BAI*']))
    for k, w in cmaf.lex(c['s']):
        if k == 'CMAVO':
            if rng.random() < .2: n += 1; put(w.lstrip('.'), gloss(rng, n)); put('+' + w.lstrip('.'), 'COMP')
            i = rng.randrange(len(w)); j = rng.randint(i + 1, len(w))
            if rng.random() < .3 and w[i] != '.': n += 1; put(w[i:j], gloss(rng, n))
        elif k == 'BRIVLA':
            if rng.random() < .3: n += 1; put(w, gloss(rng, n))
            for p in cmaf.parts(w):
                if not p: continue
                key = p if len(p) == 5 else '%' + p
                if rng.random() < .6: n += 1; put(key, gloss(rng, n))
                if rng.random() < .3: n += 1; put(key + rng.choice('2345'), rng.choice(['S;', 'D;', '']) + gloss(rng, n))
    m = {k: v for k, v in m.items() if k and k[0] not in '#!; ' and ':' not in k + v}
    return m
def block(its, width):
    out = []; rows = ['', '', '']; used = 0
    def flush():
        nonlocal rows, used
        if used: out.append('\n'.join(rows) + '\n\n')
        rows = ['', '', '']; used = 0
    def put(*a):
        nonlocal used
        ml = max(map(len, a))
        if ml + used + 1 > width: flush()
        for i in range(3): rows[i] += a[i].ljust(ml + 1)
        used += ml + 1
    for x in its:
        if x is None: flush(); out.append('\n')
        elif isinstance(x, str): put('(', '(', '('); put(x, '', ''); put(')', ')', ')')
        else: put(*x)
    flush(); out.append('\n')
    return ''.join(out)
def test(ctx, c):
    m = dictionary(c); d = ctx.tmp('c.dat'); f = ctx.tmp('c.txt')
    open(f, 'w').write(''.join('%s:%s\n' % kv for kv in m.items()))
    if os.path.exists(d): os.remove(d)
    if ctx.run('smujajgau', [d, f]).rc: return 'smujajgau failed'
    e = {'JBOFIHE_DICTIONARY': d}; its = cmaf.items(m, c['s'])
    o = ctx.run('cmafihe', [], c['s'], env=e)
    exp = ''.join('\n' if x is None else '(%s) ' % x if isinstance(x, str) else '%s <%s> [%s] ' % x for x in its) + '\n'
    words = [x for x in its if isinstance(x, tuple)]
    if len(words) >= 3: ctx.nontrivial(c['s'])
    for k, w in cmaf.lex(c['s']): ctx.label(k)
    if o.rc: return 'exit status %d' % o.rc
    if o.out != exp:
        for x in words:
            if '%s <%s> [%s] ' % x not in o.out: return 'should show %r: %r' % ('%s <%s> [%s]' % x, o.out)
        return 'text output %r, expected %r' % (o.out, exp)
    fall = [w for k, w in cmaf.lex(c['s']) if k == 'FALL']
    if re.findall(r'This fell through \[(.*?)\]\n', o.err, re.S) != fall and ']' not in ''.join(fall): return 'not reported on standard error: %r, %r' % (fall, o.err)
    b = ctx.run('cmafihe', ['-b', '-w', str(c['w'])], c['s'], env=e)
    if b.rc or b.out != block(its, c['w']): return 'block output of width %d: %r, expected %r' % (c['w'], b.out, block(its, c['w']))
    if '\n' not in ''.join(x for x in its if isinstance(x, str)):
        for l in b.out.split('\n'):
            if len(l) > c['w'] and len(l.rstrip()) > c['w'] and not any(isinstance(x, tuple) and max(map(len, x)) + 1 >= len(l) or isinstance(x, str) and len(x) + 1 >= len(l) for x in its):
                return 'line longer than %d: %r' % (c['w'], l)
    if c['w'] == 80:
        b2 = ctx.run('cmafihe', ['-b'], c['s'], env=e)
        if b2.out != b.out: return 'the default width is not 80'
    l = ctx.run('cmafihe', ['-l'], c['s'], env=e)
    got = re.findall(r'\\textbf\{\\footnotesize (.*?)\}\\\\\n\\textrm\{\\footnotesize (.*?)\}\\\\\n\\textit\{\\footnotesize (.*?)\}\n', l.out)
    if got != words: return 'LaTeX output shows %r, expected %r' % (got, words)
    f2 = ctx.tmp('in.txt'); open(f2, 'wb').write(c['s'].encode())
    if ctx.run('cmafihe', [f2], env=e).out != o.out: return 'reading from a file gives other output'
def shrink(c):
    s = c['s']; ws = re.findall(r'\S+\s*', s); n = len(ws); k = max(n // 2, 1)
    while k >= 1 and n:
        for i in range(0, n, k): yield dict(c, s=''.join(ws[:i] + ws[i + k:]))
        k //= 2
    for i in range(len(c['cm'])): yield dict(c, cm=c['cm'][:i] + c['cm'][i + 1:])
def families(): return [Family('text', gen, test, 2500, 60000, shrink)]
