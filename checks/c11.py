"""C11: lujvo decomposition, round trip through jvocuhadju, and dictionary lookup by compound."""
import os, re
from lib.harness import Family
from lib import words as WD
from model import lujvo as L, morph
PROGS = ['jvocuhadju', 'vlatai', 'smujajgau', 'jbofihe']
RULE = ("split: batches of lujvo built from random rafsi (known and unknown), with leading cmavo and commas; every spelling of one compound must give the same "
        "components; roundtrip: all forms jvocuhadju prints for a word list; dict: an entry stored under one spelling is looked up under others. "
        "Non-trivial: at least one lujvo of two or more components was split; distinctness is by the words.")
ASSUMPTIONS = ["the frozen rafsi table ref/reduced_gismu; the rafsi 'brod' may stand for any of its five words"]
W = sorted(L.RAFSI); G5 = [w for w in W if len(w) == 5]
def rand_rafsi(rng, last, known=.8):
    if rng.random() < known:
        w = rng.choice(W); c = [r for r in L.RAFSI[w] if not last or r[-1] in 'aeiou']
        if len(w) == 5: c.append(w if last else w[:4])
        if c: return rng.choice(c)
    sh = rng.choice(['CVV', "CV'V", 'CCV', 'CVCCV', 'CCVCV'] if last else ['CVV', "CV'V", 'CCV', 'CVC', 'CVC', 'CVCC', 'CCVC'])
    r = WD.fill(rng, sh)
    if sh.startswith('CC'): r = rng.choice(WD.INITS) + r[2:]
    if sh[:3] == 'CVV': r = r[0] + rng.choice(['ai', 'au', 'ei', 'oi']) + r[3:]
    return r
def commas(rng, w):
    for _ in range(rng.choice([0, 0, 0, 1, 2])):
        i = rng.randint(1, len(w) - 1); w = w[:i] + ',' + w[i:]
    return w
def gen_split(rng):
    o = []
    while len(o) < 100:
        n = rng.choice([2, 2, 2, 3, 3, 4, 5, 8]); w = L.join([rand_rafsi(rng, i == n - 1) for i in range(n)])[0]
        if not L.is_lujvo(w): continue
        if rng.random() < .2: w = rng.choice(['le', 'lo', 'mi', 'cu', 'se', "ko'a", 'lesu\'u', 'i']) + w
        o.append(commas(rng, w))
    return o
def gen_spellings(rng):
    """words of one compound"""
    while 1:
        ws = [rng.choice(W) for _ in range(rng.choice([2, 2, 3, 4]))]
        ch = L.choices(ws, True, True)
        if all(ch): break
    return {'words': ws, 'pick': [[rng.randrange(99) for _ in ws] for _ in range(12)]}
def gen_list(rng):
    n = rng.choice([2, 2, 3, 3, 4]); return [rng.choice(W) for _ in range(n - 1)] + [rng.choice(G5)] + (['-l'] if rng.random() < .6 else [])
def line_parts(l):
    m = re.match(r'(\S+) +: (.*?) : (.*?)(?: \[(.*)\])?$', l)
    return m.groups() if m else None
def test_split(ctx, ws):
    if not ws: return None
    o = ctx.run('vlatai', ['-el'], '\n'.join(ws) + '\n'); lines = o.out.split('\n')[:-1]
    if o.rc or len(lines) != len(ws): return 'vlatai -el: status %d, %d lines for %d words' % (o.rc, len(lines), len(ws))
    some = False
    for w, l in zip(ws, lines):
        r = morph.scan(w); p = line_parts(l)
        if not p: return 'unexpected line %r' % l
        if r.type != 'lujvo' or r.upper:
            if p[3] is not None and r.type != 'lujvo': return '%r is not a lujvo but is split: %r' % (w, l)
            continue
        body = w[r.starts[-1]:].replace(',', ''); comp = L.components(body); some = True
        got = (p[3] or '').split('+')
        if len(got) != len(comp) or any((g not in c) if c else g != '?' for g, c in zip(got, comp)): return '%r is made of %r, vlatai -el says %r' % (w, comp, p[3])
        ctx.label('%d parts' % len(comp))
    if some: ctx.nontrivial(ws)
def test_spell(ctx, c):
    ch = L.choices(c['words'], True, True)
    if len(c['words']) < 2 or not all(ch): return None
    forms = sorted({L.join([x[k % len(x)] for x, k in zip(ch, p)])[0] for p in c['pick'] if len(p) == len(ch)})
    forms = [f for f in forms if L.is_lujvo(f)]
    if not forms: return None
    o = ctx.run('vlatai', ['-el'], '\n'.join(forms) + '\n'); ctx.nontrivial(forms)
    for f, l in zip(forms, o.out.split('\n')):
        p = line_parts(l); got = p[3].split('+') if p and p[3] else None
        w5 = [w[:4] if w.startswith('brod') else w for w in c['words']]
        if got is None or [g[:4] if g.startswith('brod') else g for g in got] != w5: return '%r is a spelling of %r, vlatai -el says %r' % (f, c['words'], l)
def test_round(ctx, args):
    ws = [a for a in args if a[0] != '-']
    o = ctx.run('jvocuhadju', ['-a', '-R', '-S', '-A', '-q'] + args)
    if o.rc: ctx.label('refused'); return None
    forms = o.out.split('\n')[:-1]
    if not forms: return 'no forms for %r' % ws
    forms = forms[:60] + forms[60::7]
    v = ctx.run('vlatai', ['-el'], '\n'.join(forms) + '\n').out.split('\n'); ctx.nontrivial(args)
    for f, l in zip(forms, v):
        p = line_parts(l)
        if not p or p[3] != '+'.join(ws): return '%r was made from %r, vlatai says %r' % (f, ws, l)
def gen_dict(rng):
    while 1:
        ws = [rng.choice(G5) for _ in range(rng.choice([2, 2, 3]))]
        if any(w.startswith('brod') for w in ws) or ws[-1] in TAIL: continue
        ch = L.choices(ws, True, False)
        pick = lambda: [rng.randrange(99) for _ in ws]
        return {'words': ws, 'stored': pick(), 'asked': [pick() for _ in range(3)], 'tail': rng.choice(TAIL), 'noise': [rng.choice(G5) for _ in range(rng.randint(0, 6))], 'comma': rng.random() < .3}
TAIL = ['gasnu', 'zmadu']
def test_dict(ctx, c):
    ws = c['words']; ch = L.choices(ws, True, False)
    if len(ws) < 2: return None
    mk = lambda p: L.join([x[k % len(x)] for x, k in zip(ch, p)])[0]
    st = mk(c['stored'])
    if not L.is_lujvo(st): return None
    src = ['%s1:D;wug' % st, '%s2:D;qqq' % st, '*2+%s1:I;frob* %%1v' % c['tail'], '*2+%s2:@1' % c['tail'], '*2+%s3:@2' % c['tail']] + ['%s1:S;noise' % n for n in c['noise']]
    d = ctx.tmp('d.dat'); s = ctx.tmp('d.txt')
    open(s, 'w').write('\n'.join(src) + '\n')
    if os.path.exists(d): os.remove(d)
    ctx.run('smujajgau', [d, s])
    e = {'JBOFIHE_DICTIONARY': d}
    def look(t, want):
        o = ctx.run('jbofihe', ['-x'], t + '\n', env=e)
        for w in want:
            if w not in o.out: return 'entry stored for %r: text %r should show %r: %r' % (st, t, w, o.out)
    m = look('mi %s do' % st, ['/being wug(s)/', '1 (wug(s)):]', '2 (qqq(s)):]'])
    m = m or look('mi %s do' % ' zei '.join(ws), ['/being wug(s)/', '1 (wug(s)):]', '2 (qqq(s)):]'])
    ctx.nontrivial([ws, c['stored']])
    if m: return m
    tc = L.choices(ws + [c['tail']], True, False)
    for p in c['asked']:
        if len(p) != len(ws): continue
        w = L.join([x[k % len(x)] for x, k in zip(tc, p + [p[0]])])[0]
        if not L.is_lujvo(w): continue
        if c['comma']: w = w[:3] + ',' + w[3:]
        m = look('mi %s do ti' % w, ['/frob-ing being wug(s)/', '2 (wug(s)):]', '3 (qqq(s)):]'])
        if m: return m
def families():
    return [Family('split', gen_split, test_split, 400, 8000), Family('spellings', gen_spellings, test_spell, 2500, 40000),
            Family('roundtrip', gen_list, test_round, 1000, 20000), Family('dict', gen_dict, test_dict, 800, 15000)]
