"""C10: lujvo making. Reference: own rafsi table, joining rules checked by the reference morphology, and scoring formula."""
import re, itertools
from lib.harness import Family
from model import lujvo as L, morph
PROGS = ['jvocuhadju', 'vlatai']
RULE = ("A case is a word list and options; each printed form, score, mark, order, hidden count and the completeness of the list are compared with the reference. "
        "Non-trivial: at least two components were accepted and a form was printed; distinctness is by words and options.")
ASSUMPTIONS = ['the frozen rafsi table ref/reduced_gismu and the scoring formula of the reference grammar',
               'above 65536 combinations only validity and scores are judged (the program says that it stops there)']
W = sorted(L.RAFSI); FL = ['-a', '-l', '-b', '-S', '-A', '-R', '-q']
def sp(rng, w):
    if rng.random() < .3: w = w.replace("'", 'h')
    if rng.random() < .1: w = w.upper()
    return w
def flags(rng):
    f = [x for x in FL if rng.random() < (.7 if x == '-a' else .5 if x == '-l' else .25)]; rng.shuffle(f); return f
def mix(rng, ws, fl):
    """options may stand anywhere among the words"""
    a = list(ws)
    for f in fl: a.insert(rng.randint(0, len(a)), f)
    return a
def gen_random(rng):
    n = rng.choice([2, 2, 2, 3, 3, 4, 5]); return mix(rng, [sp(rng, rng.choice(W)) for _ in range(n)], flags(rng))
def gen_each(rng, i):
    """every word of the table at the start, in the middle and at the end, with all forms shown"""
    w = W[i // 3 % len(W)]; k = i % 3
    ws = [w, rng.choice(W)] if k == 0 else [rng.choice(W), w, rng.choice(W)] if k == 1 else [rng.choice(W), w]
    return mix(rng, ws, ['-a', '-l'] + (['-b'] if 'brod' in w else []))
BY = {}
for _w in W:
    for _r in L.RAFSI[_w] + ((_w[:4], _w) if len(_w) == 5 else ()): BY.setdefault(L.shape(_r), []).append((_r, _w))
CVC = BY['CVC']
def gen_tosmabru(rng):
    """CVC first, every join an initial pair: forms that would break up without a y"""
    ws = []; r, w = rng.choice(CVC); ws.append(w)
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
        c = [x for x in CVC if r[-1] + x[0][0] in morph.INITIAL]
        if not c: break
        r, w = rng.choice(c); ws.append(w)
    pool = BY[rng.choice(['CVCCV', 'CVCCV', 'CVC', 'CVV', 'CVCC', 'CCV', "CV'V", 'CCVC', 'CCVCV'])]
    c = [x for x in pool if r[-1] + x[0][0] in morph.INITIAL] or pool
    c2 = [x for x in c if x[0][2:4] in morph.INITIAL]
    ws.append(rng.choice(c2 if c2 and rng.random() < .7 else c)[1])
    if rng.random() < .3: ws.append(rng.choice(W))
    return mix(rng, ws, ['-a'] + (['-l'] if rng.random() < .8 else []))
PAIRS = sorted({(a[-1], b[0]) for a, _ in CVC for sh in BY for b, _ in BY[sh]})
END = {}; BEG = {}
for _r, _w in CVC: END.setdefault(_r[-1], []).append(_w)
for _sh in BY:
    for _r, _w in BY[_sh]: BEG.setdefault(_r[0], []).append(_w); BEG.setdefault(_r[:2], []).append(_w)
def gen_pair(rng, i):
    """every consonant pair at a join"""
    a, b = PAIRS[i % len(PAIRS)]
    ws = [rng.choice(END[a]), rng.choice(BEG[b])]
    if rng.random() < .3: ws.insert(0, rng.choice(W))
    if rng.random() < .3: ws.append(rng.choice(W))
    return mix(rng, ws, ['-a'] + (['-l'] if rng.random() < .7 else []))
def gen_n(rng):
    """n before dj dz tc ts and CVV, CV'V starts"""
    if rng.random() < .5: ws = [rng.choice(END['n']), rng.choice(BEG[rng.choice(['dj', 'dz', 'tc', 'ts'])])]
    else:
        ws = [rng.choice(BY[rng.choice(['CVV', "CV'V"])])[1], rng.choice(BY[rng.choice(['CCV', 'CCVCV', 'CVV', 'CVCCV', "CV'V"])] if rng.random() < .6 else [('', x) for x in BEG['r']])[1]]
    if rng.random() < .3: ws.append(rng.choice(W))
    return mix(rng, ws, ['-a'] + (['-l'] if rng.random() < .7 else []))
def gen_long(rng):
    n = rng.choice([6, 8, 10, 15, 20, 30, 49]); two = [w for w in W if len(L.RAFSI[w]) <= 1 and not w.startswith('brod')] if n > 12 else W
    ws = [rng.choice(two) for _ in range(n - 1)] + [rng.choice([w for w in W if len(w) == 5])]
    return mix(rng, ws, rng.sample(['-a', '-R', '-S', '-A', '-q'], rng.randint(0, 3)))
def gen_bad(rng):
    ws = [sp(rng, rng.choice(W)) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
    k = rng.random()
    if k < .3: ws.insert(rng.randint(0, len(ws)), rng.choice(['xyzzy', 'gismx', 'ka', 'brivla', 'cadzuklama', 'a', '', 'klam', 'kla', 'zei', 'lo', "ko'a", 'mlatuu', ' klama', 'klama ']))
    elif k < .6: ws.append(rng.choice([w for w in W if len(w) != 5]))
    elif k < .7: ws = [rng.choice(W) for _ in range(rng.randint(49, 60))]
    elif k < .8: ws.insert(0, rng.choice(['-x', '-', '-aa', '-L']))
    return mix(rng, ws, flags(rng))
def test(ctx, args):
    o = ctx.run('jvocuhadju', args)
    fl = [a for a in args if a.startswith('-')]; words = [a for a in args if not a.startswith('-')]
    if any(f not in FL for f in fl) or len(words) >= 50:
        ctx.label('refused')
        return None if o.rc == 1 and not o.out else 'should be refused: %r' % o
    ws = [w.lower().replace('h', "'") for w in words]
    head = {'R': '-R' not in fl, 'S': '-S' not in fl, 'A': '-A' not in fl}
    unknown = [w for w in ws if w not in L.RAFSI]
    if unknown:
        ctx.label('unknown component')
        bad = [x for w, x in zip(ws, words) if w not in L.RAFSI][0]
        if o.rc != 1 or o.out or not re.match(r'Cannot use component \[(.*)\] in forming lujvo\.\n$', o.err, re.S): return 'unknown component %r: %r' % (bad, o)
        got = o.err[len('Cannot use component ['):].split('] in forming')[0]
        return None if got.lower().replace('h', "'") == bad.lower().replace('h', "'") else 'unknown component %r is named %r' % (bad, got)
    ch = L.choices(ws, '-l' in fl, '-b' in fl)
    lines = o.out.split('\n')[:-1]
    if head['R'] and ws:
        if not lines or not lines[0].startswith('Possible rafsi'): return 'no list of rafsi: %r' % o
        for w, c, l in zip(ws, ch, lines[1:]):
            k, r = l.split(':', 1); r = r.replace('/!\\', '').replace('<NONE>', '').split()
            if k.strip() != w or sorted(r) != sorted(c): return 'rafsi of %s should be %r: %r' % (w, c, l)
        if len(lines) < 1 + len(ws): return 'rafsi list too short: %r' % o
        lines = lines[1 + len(ws):]
    if not all(ch):
        ctx.label('no rafsi'); pos = [i for i, c in enumerate(ch) if not c]
        m = re.search(r'No matching rafsi available for component \[(.*)\] at position (\d+)\.\n', o.err)
        if o.rc != 1 or not m or int(m.group(2)) - 1 not in pos or ws[int(m.group(2)) - 1] != m.group(1): return 'component without rafsi: %r' % o
        return None if not [l for l in lines if not l.startswith('Note')] else 'forms printed though a component has no rafsi: %r' % o
    if len(ws) < 2:
        ctx.label('too few'); return None if o.rc == 1 and not lines else 'one component accepted: %r' % o
    if o.rc: return 'exit status %d: %r' % (o.rc, o)
    if head['S']:
        if len(lines) < 3 or 'Score' not in lines[1]: return 'no heading: %r' % o
        lines = lines[3:]
    elif head['R']:
        if lines[:1] != ['List of lujvo:']: return 'no heading: %r' % o
        lines = lines[1:]
    hidden = None; got = []
    for l in lines:
        m = re.match(r'\((\d+) lujvo hidden, use "-a" to see all\)$', l)
        if m: hidden = int(m.group(1)); continue
        if l.startswith('Note: The rafsi "brod"'): continue
        m = re.match(('([ *!])' if head['A'] else '()') + (r'( *\d+)  ' if head['S'] else '( ?)' if head['A'] else '()') + r"([a-z']+)$", l)
        if not m: return 'unexpected line %r' % l
        got.append((m.group(1), int(m.group(2)) if head['S'] else None, m.group(3)))
    ctx.nontrivial(args)
    total = 1
    for c in ch: total *= len(c)
    many = total > 1000; gone = len(got)
    if many:
        ctx.label('sampled')
        exp = {}; gone = len(got); got = got[:150] + got[150::max(1, len(got) // 150)]
        for _, s, w in got:
            ss = [x for x in L.splits(w)]
            if len(ss) != 1: return '%r cannot be split as a lujvo' % w
            rs = tuple(ss[0])
            if len(rs) != len(ws) or any(r not in c for r, c in zip(rs, ch)): return '%r is not made of rafsi of %r' % (w, ws)
            j = L.join(rs)
            if not j or j[0] != w: return '%r should be %r' % (w, j)
            exp[w] = (L.score(rs, *j), rs)
    else:
        exp = L.forms(ws, '-l' in fl, '-b' in fl)
        if len(exp) != total: return 'harness: %d combinations, %d forms' % (total, len(exp))
    for m, s, w in got[:8]:
        if not L.is_lujvo(w): return '%r is not a well-formed lujvo' % w
    for m, s, w in got:
        if w not in exp: return '%r is not a lujvo for %r' % (w, ws) + ('' if not L.is_lujvo(w) else ' (it is a lujvo of other rafsi or has the wrong hyphens)')
        if s is not None and s != exp[w][0]: return 'score of %r is %d, printed %d' % (w, exp[w][0], s)
    if len({g[2] for g in got}) != len(got): return 'a form is printed twice'
    sc = [exp[w][0] for _, _, w in got]
    if sc != sorted(sc): return 'not in order of score: %r' % [(w, exp[w][0]) for _, _, w in got]
    n = min(total, 65536)
    if '-a' in fl:
        if gone != n: return '-a prints %d of %d forms' % (gone, n)
        if hidden is not None: return '-a hides forms'
    else:
        if len(got) != min(n, 8): return 'prints %d of %d forms' % (len(got), n)
        if hidden != (n - 8 if n > 8 and '-q' not in fl else None): return 'hidden count %r, %d forms' % (hidden, n)
    if not many:
        best = sorted(v[0] for v in exp.values())[:len(got)]
        if sc != best: return 'not the best forms: scores %r, best are %r' % (sc, best)
    if head['A']:
        for m, s, w in got:
            brod = any(r == 'brod' for r in exp[w][1])
            if not brod and not any('brod' in g[2] for g in got) and (m == '*') != (exp[w][0] == sc[0]): return 'mark of %r is %r, best score %d' % (w, m, sc[0])
            if brod and exp[w][0] != sc[0] and m != '!': return 'no warning mark on %r' % w
    if any('brod' in v[1] for v in exp.values()) and 'ambigious' not in o.err and not many: return 'no warning about brod'
    if total > 65536 and 'possible lujvo' not in o.err: return 'no warning that forms were left out'
    ctx.label('2' if len(ws) == 2 else '3+', *[f for f in fl])
    v = ctx.run('vlatai', [], '\n'.join(g[2] for g in got[:40]) + '\n').out.split('\n')[:-1]
    for g, l in zip(got, v):
        if l.split(' : ')[1:] != ['lujvo', ' ' + g[2]]: return 'vlatai says of %r: %r' % (g[2], l)
def shrink(args):
    for i in range(len(args)): yield args[:i] + args[i + 1:]
def families():
    f = lambda n, g, q, t: Family(n, g, test, q, t, shrink)
    return [f('random', gen_random, 2500, 60000), f('each', gen_each, 3 * len(W), 12 * len(W)), f('tosmabru', gen_tosmabru, 1500, 40000),
            f('pair', gen_pair, len(PAIRS) * 3, len(PAIRS) * 40), f('hyphen', gen_n, 800, 20000), f('long', gen_long, 40, 600), f('bad', gen_bad, 500, 8000)]
