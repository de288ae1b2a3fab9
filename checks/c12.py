"""C12: the compiled dictionary as a map over build histories. Reference: dictm.apply over the lines in order."""
import os, re
from lib.harness import Family
from lib import words as WD
from model import lujvo as L, dictm as D
PROGS = ['smujajgau', 'cmafihe', 'jbofihe']
RULE = ("A case is a history of dictionary lines divided into files and smujajgau runs; all keys of the history and unused ones are then looked up through "
        "cmafihe (plain entries) or jbofihe (place entries, zei compounds), the compiled file must hold the reference's entries and no others, and the same lines divided otherwise must give the same file. "
        "Non-trivial: some key was entered at least twice or in several runs; distinctness is by the lines.")
ASSUMPTIONS = ['keys looked up are letters and apostrophes; values have no colon or newline']
C4 = ['bxx', 'spr', 'klb', 'mlt', 'djdj', 'zbr', 'ckr', 'vrl']
def bkey(rng):
    """a key cmafihe takes as one brivla"""
    k = rng.random()
    if k < .5: return rng.choice(C4) + ''.join(rng.choice("abeiou'dk") for _ in range(rng.randint(1, 5))) + rng.choice('aeiou')
    if k < .9: return rng.choice(['brod', 'broda', 'klam', 'klama', 'mlat', 'mlatu', 'mlatuu', 'mlats', 'mlata']) + rng.choice(['', 'b', 'k', 'mlk', 'rr', "'"]) + rng.choice('aeiou')
    return rng.choice(['bl', 'kr', 'mlt']) + ''.join(rng.choice('aeioubdlk') for _ in range(rng.randint(20, 60))) + 'a'
def junk(rng):
    return rng.choice(['', '   ', '# a comment', '#%s:x', '!x:y', ';x:y', '  # c:d', 'no colon here', '\t', 'x' * 300 + ':toolong', 'blxxa:' + 'y' * 256, 'blxxa:' + 'y' * 700 + ':c', ':novalue', ':', 'bxxa'])
def layout(rng, n):
    """[[number of lines per file] per run]"""
    runs = []; left = n
    while left > 0:
        files = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            k = rng.randint(0, left) if rng.random() < .7 else left; files.append(k); left -= k
        runs.append(files)
        if len(runs) > 6: runs.append([left]); left = 0
    return runs or [[0]]
def gen_map(rng):
    pool = [bkey(rng) for _ in range(rng.randint(1, 12))]; lines = []
    for i in range(rng.randint(0, 40)):
        if rng.random() < .15: lines.append(junk(rng).replace('%s', rng.choice(pool))); continue
        v = rng.choice(['v%d' % i, 'v%d' % i, 'v%d' % i, 'v%d' % i + 'w' * rng.randint(0, 230), ''])
        l = rng.choice(pool) + ':' + v
        if rng.random() < .2: l += ':' + rng.choice(['', 'comment', 'c:d'])
        if rng.random() < .1: l = rng.choice([' ', '\t', '  ']) + l
        lines.append(l)
    return {'lines': lines, 'a': layout(rng, len(lines)), 'b': layout(rng, len(lines)), 'ask': [bkey(rng) for _ in range(6)], 'nonl': rng.random() < .3}
def gen_big(rng):
    n = rng.choice([1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 100, 1000, 4000])
    ks = list(dict.fromkeys(bkey(rng) for _ in range(n)))
    o = rng.random()
    if o < .4: ks.sort()
    elif o < .6: ks.sort(reverse=True)
    lines = ['%s:v%d' % (k, i) for i, k in enumerate(ks)]
    if rng.random() < .5: lines += ['%s:u%d' % (k, i) for i, k in enumerate(ks) if i % 7 == 0]
    return {'lines': lines, 'a': layout(rng, len(lines)), 'b': layout(rng, len(lines)), 'ask': [bkey(rng) for _ in range(30)], 'nonl': False}
def write(ctx, c, lay, tag):
    d = ctx.tmp('d%s.dat' % tag)
    if os.path.exists(d): os.remove(d)
    i = 0; lines = c['lines']; runs = [list(r) for r in lay] + [[max(0, len(lines) - sum(map(sum, lay)))]]
    for r in runs:
        fs = []
        for j, k in enumerate(r):
            f = ctx.tmp('s%s%d.txt' % (tag, j)); t = '\n'.join(lines[i:i + k]) + ('\n' if k else ''); i += k
            if c.get('nonl') and j % 2 == 0 and t: t = t[:-1]
            open(f, 'w').write(t); fs.append(f)
        o = ctx.run('smujajgau', [d] + fs)
        if o.rc: raise AssertionError('smujajgau failed: %r' % o)
    return d
def decode(b):
    """the entries of a compiled dictionary"""
    n = int.from_bytes(b[:4], 'big'); i = 4 + 2 * n; m = {}
    for j in range(n):
        k, v = b[4 + 2 * j], b[5 + 2 * j]; m[b[i:i + k].decode('latin1')] = b[i + k + 1:i + k + 1 + v].decode('latin1'); i += k + v + 2
    return m
def prepare(ctx, c):
    if 'lines' not in c: return None, None, None
    try: a = write(ctx, c, c['a'], 'a'); b = write(ctx, c, c['b'], 'b')
    except AssertionError as e: return None, None, str(e)
    m = {}
    for l in c['lines']: D.apply(m, l)
    if open(a, 'rb').read() != open(b, 'rb').read(): return None, None, 'the dictionary depends on how the lines are divided among files and runs'
    x = decode(open(a, 'rb').read())
    if x != m:
        k = min(k for k in set(x) | set(m) if x.get(k) != m.get(k)); return None, None, 'the dictionary has %r for %r, the last entry is %r' % (x.get(k), k, m.get(k))
    ks = [e[0] for e in map(D.entry, c['lines']) if e]
    if len(set(ks)) < len(ks) or len(c['a']) > 1: ctx.nontrivial(c['lines'])
    return a, m, None
def test_map(ctx, c):
    d, m, msg = prepare(ctx, c)
    if not m is not None or msg: return msg
    ask = sorted({k for k in list(m) + c['ask'] if re.match(r"[bcdfgjklmnprstvxz]{2}[a-z']*[aeiou]$", k) and not re.search('[qwhy]', k)})
    if not ask: return None
    o = ctx.run('cmafihe', [], ' '.join(ask) + '\n', env={'JBOFIHE_DICTIONARY': d})
    got = re.findall(r"(\S+) <(\S*)> \[(.*?)\] (?=\S+ <|\n|$)", o.out)
    if [g[0] for g in got] != ask or any(g[1] != 'BRIVLA' for g in got): return 'cmafihe does not show the words asked for: %r -> %r' % (ask[:10], o.out[:500])
    ctx.label('keys %d' % (len(str(len(m)))))
    for k, _, v in got:
        if k in m:
            if v != m[k]: return 'key %r: last entered %r, found %r' % (k, m[k], v)
        elif re.search('[uv][0-9]', v): return 'key %r was never entered, found %r' % (k, v)
CTX = 'nvqt'
def gen_place(rng):
    pool = [rng.choice('bdfgkl') + rng.choice('aeiou') + rng.choice(['fr', 'bl', 'ks', 'nt', 'rd', "mp", 'lx']) + rng.choice('aeiou') for _ in range(rng.randint(1, 5))]
    comps = []
    for _ in range(rng.randint(0, 2)):
        ws = [rng.choice(list(L.RAFSI)) for _ in range(2)]; ch = L.choices(ws, True, False)
        if all(ch) and all(len(w) == 5 and w[:4] != 'brod' for w in ws): comps.append((ws, ch))
    lines = []
    for i in range(rng.randint(1, 30)):
        p = rng.choice([1, 1, 1, 2, 2, 3]); suf = rng.choice(['', '', '', 'n', 'v', 'a', 'q', 't', 't', 'n'])
        if comps and rng.random() < .35:
            ws, ch = rng.choice(comps); w = L.join([rng.choice(x) for x in ch])[0]
            if not L.is_lujvo(w): continue
            if rng.random() < .15: w = '+'.join(ws)
        else: w = rng.choice(pool)
        if rng.random() < .08: lines.append('%s:v%d' % (w, i)); continue
        lines.append('%s%d%s:%sv%d' % (w, p, suf, '' if suf else 'S;', i))
    return {'lines': lines, 'a': layout(rng, len(lines)), 'b': layout(rng, len(lines)), 'words': pool + ['balfa'], 'zei': [c[0] for c in comps], 'nonl': rng.random() < .2}
def test_place(ctx, c):
    d, m, msg = prepare(ctx, c)
    if m is None or msg: return msg
    g = lambda w, p, x: D.place(m, w, p, x) or '???'
    luj = sorted({e[0].rstrip('nvaqt').rstrip('0123456789') for e in map(D.entry, c['lines']) if e} - set(c['words']))
    for w in sorted(set(c['words'])) + [w for w in luj if L.is_lujvo(w) and all(D.place(m, w, 1, x) for x in CTX)]:
        o = ctx.run('jbofihe', ['-x'], 'mi %s do .i lo %s cu broda .i mi %s broda\n' % (w, w, w), env={'JBOFIHE_DICTIONARY': d})
        exp = ['[%s1 (%s):] mi) /[is, does]/ <<%s /%s/>>' % (w, g(w, 1, 't'), w, g(w, 1, 'v')), 'lo %s /%s/)' % (w, g(w, 1, 'n')), '^%s /%s/ /[type-of]/ broda' % (w, g(w, 1, 'q'))]
        if w in c['words'] or D.place(m, w, 2, 't'): exp.append('([%s2 (%s):] do)' % (w, g(w, 2, 't')))
        for e in exp:
            if e not in o.out: return 'expected %r in %r' % (e, o.out)
    for ws in c['zei']:
        k = '+'.join(ws); o = ctx.run('jbofihe', ['-x'], 'mi %s\n' % ' zei '.join(ws), env={'JBOFIHE_DICTIONARY': d})
        v = D.place(m, k, 1, 'v')
        if v is not None:
            ctx.label('alias')
            if '/%s/' % v not in o.out: return 'compound %s: expected %r in %r' % (k, v, o.out)
        elif re.search(r'v\d', o.out) and not any(x.startswith(k) or x.startswith(tuple(ws)) for x in m): return 'compound %s has no entry: %r' % (k, o.out)
def shrink(c):
    ls = c['lines']; n = len(ls); k = max(n // 2, 1)
    while k >= 1 and n:
        for i in range(0, n, k): yield dict(c, lines=ls[:i] + ls[i + k:])
        k //= 2
    for key in ('a', 'b'):
        if c[key] != [[n]]: yield dict(c, **{key: [[n]]})
    for key in ('ask', 'words', 'zei'):
        if c.get(key): yield dict(c, **{key: c[key][1:]}); yield dict(c, **{key: c[key][:-1]})
def families():
    return [Family('map', gen_map, test_map, 1500, 30000, shrink), Family('big', gen_big, test_map, 150, 3000, shrink), Family('place', gen_place, test_place, 900, 20000, shrink)]
