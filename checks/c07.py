"""C07: word classification. Reference: own simulation of the baselined morphology automaton."""
from lib.harness import Family
from lib import words
from model import morph
PROGS = ['vlatai']
RULE = ("cover: batches of words = (access word of a reachable state of the reference front-end/morphology/cmene automata product) + every next letter "
        "+ a distinguishing tail; random: batches of shape-built words with commas, capitals and embedded la/doi; odd: words with a character that is no letter (h, q, w, digits, punctuation, bytes above 127); single: one word given as argument. "
        "A case is non-trivial when its words fall into at least three different reference classes (single: class is not UNMATCHED); "
        "distinctness is by the words themselves.")
ASSUMPTIONS = ['the frozen copy of the automaton sources (ref/morf_nfa.in, ref/bctables.in) and of the permissible-pair rules states the morphology',
               'words contain no NUL or line end']
SUFF = ['', '', 'a', 'da', 'n', "'a", 'ma', 'mla', 'la', 'ya', 'y', 'rna', "'an", 'bri', 'klama', 'ai', 'ndo', 'ylei', 's', 'nra', 'i', 'u']

def setup(ctx, tier): words.cover()
def gen_cover(rng, i):
    cv = words.cover(); n = 40; lo = (i * n) % len(cv)
    ws = []
    for j in range(lo, lo + n):
        w = cv[j % len(cv)]
        for c in words.CHARS: ws.append(w + c + rng.choice(SUFF))
    return ws
def gen_random(rng): return [words.raw_word(rng) for _ in range(300)]
ODD = 'hqwHQW0159-_.!?;:()[]{}"%&/\\+*=<>@~^|$`' + '\xe9\xfc\x80\xff\xa0\x01\x7f\t '
def gen_odd(rng):
    """words of every shape with a character that is no letter of the language"""
    o = []
    for _ in range(300):
        w = words.raw_word(rng); k = rng.randint(0, len(w)); o.append(w[:k] + rng.choice(ODD) + w[k + rng.randint(0, 1):])
    return o
def kinds(ws, ctx):
    ks = set()
    for w in ws:
        k = morph.scan(w).ev; ks.add(k)
    ctx.label(*ks); return ks
def test_batch(ctx, ws):
    ws = [w for w in ws if w and w[0] != '#' and not w[-1].isspace()]
    if not ws: return None
    o = ctx.run('vlatai', [], ('\n'.join(ws) + '\n').encode('latin1'))
    lines = o.out.split('\n')
    if o.rc != 0: return 'vlatai exit status %d' % o.rc
    if len(lines) != len(ws) + 1 or lines[-1]: return '%d words gave %d lines' % (len(ws), len(lines) - 1)
    if len(kinds(ws, ctx)) >= (3 if not any(set(w) & set(ODD) for w in ws) else 1): ctx.nontrivial(ws)
    for w, l in zip(ws, lines):
        e = morph.vlatai_line(w)
        if l != e: return 'word %r: vlatai says %r, the morphology says %r' % (w, l, e)
        pcs = l.split(' : ')[2]
        if not set(w) & set(' /+') and pcs.replace(' ', '').replace('/', '').replace('+', '') != w: return 'word %r: pieces %r do not make up the word' % (w, pcs)
def test_single(ctx, w):
    if not w or w[0] in '-#': return None
    a = ctx.run('vlatai', [w]); e = morph.vlatai_line(w) + '\n'
    if 'UNMATCHED' not in e: ctx.nontrivial(w)
    if a.out != e or a.rc: return 'argument %r: vlatai says %r (status %d), the morphology says %r' % (w, a.out, a.rc, e)
    plain = w.replace(',', ''); v = w
    i = len(w) // 2
    if plain and ',' not in w:
        v = w[:i] + ',' + w[i:]; b = ctx.run('vlatai', [v]).out
        if b.split(' : ')[1:2] != a.out.split(' : ')[1:2] or b.split(' : ')[2].replace(',', '') != a.out.split(' : ')[2]:
            return 'a comma changes the class: %r -> %r, %r -> %r' % (w, a.out, v, b)
def families():
    n = (len(words.cover()) + 39) // 40
    return [Family('cover', gen_cover, test_batch, n, n * 8), Family('random', gen_random, test_batch, 600, 20000),
            Family('odd', gen_odd, test_batch, 80, 3000), Family('single', lambda rng: words.raw_word(rng), test_single, 4000, 60000)]
