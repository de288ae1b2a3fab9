"""C19: results depend on text and options only. Oracle: metamorphic relations between runs of the same program."""
import os, re, random, shutil
from lib.harness import Family, Timeout
from lib import gen as G, words as WD, jbo
from lib.bridi import B as Bridi
from model import parse, text as T
from checks import c17, c12
RULE = ("jbofihe: a text (grammatical, damaged or word soup) with random options is run as given and again, from a file, with the options in other orders, with random environment, other places of the "
        "dictionary and working directory and other heap contents, and with the purely diagnostic options; stdout, stderr and status must agree. paragraphs: a text after 1 to some 200 other paragraphs "
        "must be shown with the words, glosses and tags it has alone. tools: vlatai, cmafihe, jvocuhadju, smujajgau, dfasyn likewise. Non-trivial: a run printed at least 20 characters; distinct by case.")
ASSUMPTIONS = ['the dictionary file has the same contents at each place']
WORDS = ['LANG', 'LC_ALL', 'TZ', 'HOME', 'COLUMNS', 'LINES', 'TERM', 'POSIXLY_CORRECT', 'JBOFIHE', 'JBOFIHE_OPTIONS', 'DICTIONARY', 'JBOFIHE_WIDTH', 'PWD', 'USER', 'TMPDIR', 'DEBUG', 'XPG', 'LANGUAGE', 'LC_CTYPE', 'LC_COLLATE', 'LC_NUMERIC']
VALS = ['C', 'C.UTF-8', 'POSIX', 'tr_TR.UTF-8', '0', '1', '40', '/', '/nonexistent', '', 'x' * 3000, 'UTC', 'Asia/Tokyo', 'dumb']
def noise(rng):
    e = {rng.choice(WORDS): rng.choice(VALS) for _ in range(rng.randint(0, 6))}
    e['MALLOC_PERTURB_'] = str(rng.randint(1, 255))
    if rng.random() < .5: e['MALLOC_ARENA_TEST'] = '1'; e['MALLOC_TOP_PAD_'] = str(rng.choice([0, 64, 100000]))
    return e
FMT = [[], [], ['-t'], ['-tf'], ['-x'], ['-x'], ['-x', '-b'], ['-H'], ['-l'], ['-l', '-b'], ['-g']]
def gen(rng, i):
    k = rng.random()
    if k < .75: s = G.layout(rng, G.words(rng, i))
    elif k < .9: s = ' '.join(rng.choice(G.ALLCM) if rng.random() < .6 else G.brivla(rng) for _ in range(rng.randint(1, 30))) + '\n'
    else: s = ' '.join(WD.raw_word(rng) for _ in range(rng.randint(1, 8))) + '\n'
    o = [[x] for x in rng.choice(FMT)]
    for x in ('-ie', '-cr', '-re', '-se', '-sev'):
        if rng.random() < .15: o.append([x])
    if rng.random() < .4: o.append(['-w', str(rng.choice([1, 20, 40, 60, 100, 300]))])
    return {'s': s, 'o': o, 'seed': rng.randrange(1 << 30)}
def place(rng, ctx):
    """another name of the dictionary: (value of JBOFIHE_DICTIONARY, cwd)"""
    d = ctx.tmp('dicts'); k = rng.randrange(4); os.makedirs(d + '/sub', exist_ok=True)
    if not os.path.exists(d + '/other.name'): shutil.copy(ctx.b.dict, d + '/other.name')
    if k == 0: return d + '/other.name', None
    if k == 1: return 'other.name', d
    if k == 2: return '../other.name', d + '/sub'
    if not os.path.islink(d + '/sub/l'): os.symlink('../other.name', d + '/sub/l')
    return d + '/sub/l', '/'
def differ(a, b, what):
    for n in ('rc', 'out', 'err'):
        x, y = getattr(a, n), getattr(b, n)
        if x != y: return 'different %s %s: %r and %r' % ({'rc': 'status', 'out': 'output', 'err': 'messages'}[n], what, x if n == 'rc' else x[:1500], y if n == 'rc' else y[:1500])
def flat(o): return [x for p in o for x in p]
def test(ctx, c):
    s, o, rng = c['s'], c['o'], random.Random(c['seed']); b = ctx.run('jbofihe', flat(o), s)
    if len(b.out) + len(b.err) > 20: ctx.nontrivial((s, str(o)))
    ctx.label('status %d' % b.rc, *['option ' + p[0] for p in o])
    m = differ(b, ctx.run('jbofihe', flat(o), s, env=noise(rng)), 'in another environment')
    if m: return m
    d, cwd = place(rng, ctx)
    m = differ(b, ctx.run('jbofihe', flat(o), s, env=dict(noise(rng), JBOFIHE_DICTIONARY=d), cwd=cwd), 'with the dictionary at %s' % d)
    if m: return m
    f = ctx.tmp('text'); open(f, 'wb').write(s.encode('latin1')); p = [list(x) for x in o]
    rng.shuffle(p); p = [[''.join(x)] if x[0] == '-w' and rng.random() < .5 else x for x in p]
    if p and rng.random() < .3: p.insert(rng.randint(0, len(p)), [x for x in p if x[0] != '-w'][0] if [x for x in p if x[0] != '-w'] else p[0])
    m = differ(b, ctx.run('jbofihe', flat(p), s), 'with the options as %s' % flat(p))
    if m: return m
    q = list(p); q.insert(rng.randint(0, len(q)), [f if rng.random() < .5 else os.path.basename(f)])
    m = differ(b, ctx.run('jbofihe', flat(q), '' if rng.random() < .5 else 'mi klama', cwd=os.path.dirname(f)), 'read from a file with %s' % flat(q))
    if m: return m
    k = ctx.run('jbofihe', flat(o) + ['-k'], s); r = jbo.kparse(k.out) if k.out or b.rc != 3 else ([], [], '')
    if r is None: return '-k output cannot be read: %r' % k.out[:1000]
    if (k.rc, r[2], k.err) != (b.rc, b.out, b.err): return 'different with -k: %r and %r' % (b, k)
    x = ctx.run('jbofihe', flat(o) + ['-bt'], s)
    if (x.rc, x.out) != (b.rc, b.out): return 'different with -bt: %r and %r' % (b, x)
    if not b.rc and x.err != b.err: return 'messages for an accepted text with -bt: %r' % x.err
    x = ctx.run('jbofihe', flat(o) + ['-dd'], s)
    if (x.rc, x.out) != (b.rc, b.out): return 'different with -dd: %r and %r' % (b, x)
def stream(out): return [re.sub(r'#\d+', '#', x) for x in re.sub(r'[\[\](){}<>^]', ' ', out).split()]
def one(rng):
    k = rng.random()
    if k < .6: return Bridi(rng).text(rng.choice([1, 2, 3]))
    return ' '.join(G.words(rng, None, mut=0, budget=rng.choice([6, 15, 30])))
def gen_par(rng, i): return {'b': one(rng), 'seed': rng.randrange(1 << 30), 'n': rng.choice([1, 1, 1, 2, 3, 10, 40, 200]), 'o': ['-x']}
def key(ts): return [(t.t, t.w, t.sel, t.nai, t.cai, key(t.ui), key(t.bahe)) for t in ts]
def test_par(ctx, c):
    rng = random.Random(c['seed']); b = c['b'] + '\n'; r = parse.analyse(b)
    if r[0] != 'ok': ctx.label('alone refused'); return
    a = ''
    for _ in range(c['n']):
        x = one(rng)
        if parse.analyse(x + '\n')[0] == 'ok': a += x + rng.choice(['\n', ' ']) + "ni'o "
    s = a + b; q = parse.analyse(s)
    if not a or q[0] != 'ok' or key([t for t in q[2] if t.t != 'MARKER'][-len([t for t in r[2] if t.t != 'MARKER']):]) != key([t for t in r[2] if t.t != 'MARKER']): ctx.label('not independent'); return
    p1 = ctx.run('jbofihe', c['o'], b); p2 = ctx.run('jbofihe', c['o'], s)
    if p1.rc or p2.rc: return 'status %d alone, %d after another text' % (p1.rc, p2.rc)
    ctx.nontrivial(s); ctx.label('after %d words' % (len(a.split()) // 50 * 50))
    if c['o'] == ['-H']: f = lambda o: stream(re.sub(r'<[^>]*>', ' ', o))
    else: f = stream
    x, y = f(p1.out), f(p2.out)
    # a frame at the end (of LaTeX or HTML) is the same in both; one at the start is only in the whole
    h = f(ctx.run('jbofihe', c['o'], 'mi\n').out); n = 0
    while n < len(h) and n < len(x) and h[n] == x[n]: n += 1
    for cut in range(n + 1):
        if y[len(y) - (len(x) - cut):] == x[cut:]: break
    else:
        k = 0
        while k < len(x) and x[-1 - k] == y[-1 - k]: k += 1
        return 'shown otherwise after another text: %s and %s' % (' '.join(x[-k - 8:][:12]), ' '.join(y[-k - 8:][:12]))
def gen_tools(rng, i):
    p = rng.choice(['vlatai', 'vlatai', 'cmafihe', 'cmafihe', 'jvocuhadju', 'smujajgau', 'dfasyn']); c = {'p': p, 'seed': rng.randrange(1 << 30)}
    def w():
        k = rng.random(); return WD.raw_word(rng) if k < .5 else rng.choice(G.GISMU) if k < .7 else rng.choice(G.ALLCM) if k < .85 else G.brivla(rng)
    if p == 'vlatai': c['w'] = [w() for _ in range(rng.randint(1, 12))]; c['o'] = rng.choice([[], ['-el'], ['-cr'], ['-el', '-cr']])
    elif p == 'cmafihe': c['w'] = [w() for _ in range(rng.randint(1, 30))]; c['o'] = rng.choice([[], ['-l'], ['-b'], ['-b', '-w', str(rng.choice([20, 60, 200]))]])
    elif p == 'jvocuhadju': c['w'] = [rng.choice(G.GISMU) if rng.random() < .85 else rng.choice(['se', "na'e", 'nu', 'ke', 'jai']) for _ in range(rng.choice([2, 2, 3, 4]))]; c['o'] = [x for x in ['-a', '-l', '-b', '-S', '-A', '-R', '-q'] if rng.random() < .3]
    elif p == 'smujajgau': c['w'] = [c12.gen_map(rng)['lines'] for _ in range(rng.choice([1, 1, 2, 3]))]; c['o'] = []
    else: c['w'] = c17.gen(rng, i); c['o'] = rng.choice([[], ['-u'], ['-v']])
    return c
def test_tools(ctx, c):
    rng = random.Random(c['seed']); p = c['p']; w, o = c['w'], c['o']; ctx.label(p); d = ctx.tmp('dicts'); os.makedirs(d, exist_ok=True)
    e2 = noise(rng); dd, cwd = place(rng, ctx); e2['JBOFIHE_DICTIONARY'] = dd
    def two(args, inp='', args2=None):
        a = ctx.run(p, args, inp); b = ctx.run(p, args if args2 is None else args2, inp, env=e2, cwd=cwd)
        if len(a.out + a.err) > 20: ctx.nontrivial((p, str(w), str(o)))
        return a, differ(a, b, 'in another environment' + (' with arguments %s' % args2 if args2 else ''))
    if p == 'vlatai':
        w = [x for x in w if x and x[0] != '-']; inp = ''.join(x + '\n' for x in w)
        a, m = two(o, inp)
        if m: return m
        # each word on its own, after the others, in another order
        alone = [ctx.run(p, o, x + '\n').out for x in w]
        if ''.join(alone) != a.out: return 'a word is classified otherwise after others: %r, each alone %r' % (a.out, ''.join(alone))
        q = list(range(len(w))); rng.shuffle(q)
        if ctx.run(p, o, ''.join(w[i] + '\n' for i in q)).out != ''.join(alone[i] for i in q): return 'a word is classified otherwise in another order of words'
        for x, y in zip(w, alone):
            q = o + [x]; rng.shuffle(q); b = ctx.run(p, q)
            if b.out != y: return 'a word given as argument is classified otherwise: %r and %r' % (b.out, y)
    elif p == 'cmafihe':
        s = ' '.join(w) + '\n'; a, m = two(o, s)
        if m: return m
        f = ctx.tmp('cm.txt'); open(f, 'w').write(s); q = [o] if '-w' not in o else [o[:1], o[1:]]; q = [x for x in q if x] + [[f]]; rng.shuffle(q)
        b = ctx.run(p, flat(q))
        m = differ(a, b, 'with arguments %s' % flat(q))
        if m: return m
        if o == []:
            k = rng.randint(0, len(w)); x = ctx.run(p, o, ' '.join(w[:k]) + '\n'); y = ctx.run(p, o, ' '.join(w[k:]) + '\n')
            if (x.out[:-1] + y.out) != a.out and '(' not in s and '[' not in s: return 'a text is glossed otherwise after another: %r and %r' % (x.out[:-1] + y.out, a.out)
    elif p == 'jvocuhadju':
        q = list(w)
        for x in rng.sample(o, len(o)): q.insert(rng.randint(0, len(q)), x)
        a, m = two(o + w, '', q)
        if m: return m
    elif p == 'smujajgau':
        b1, b2 = ctx.tmp('m1.dat'), ctx.tmp('other-name-of-dictionary.x'); fs = []
        for x in (b1, b2):
            if os.path.exists(x): os.remove(x)
        for j, ls in enumerate(w):
            f = ctx.tmp('src%d' % j); open(f, 'wb').write(''.join(l + '\n' for l in ls).encode('latin1')); fs.append(f)
        a = ctx.run(p, [b1] + fs); b = ctx.run(p, [os.path.basename(b2)] + fs, env=e2, cwd=os.path.dirname(b2))
        if a.rc != b.rc: return 'status %d and %d' % (a.rc, b.rc)
        if w and any(w): ctx.nontrivial(str(w))
        x, y = (open(n, 'rb').read() if os.path.exists(n) else None for n in (b1, b2))
        if x != y: return 'the same sources give different dictionary files'
    else:
        f = ctx.tmp('a.in'); open(f, 'w').write('\n'.join(w['t']) + '\n'); n = ctx.tmp('x'); rs = []
        for j, e in enumerate((None, e2)):
            out = [ctx.tmp('df%d.c' % j), ctx.tmp('df%d.h' % j), ctx.tmp('df%d.r' % j)]
            for x in out:
                if os.path.exists(x): os.remove(x)
            try: r = ctx.run('dfasyn', o + ['-o', out[0], '-ho', out[1], '-r', out[2], f], path=os.path.join(ctx.b.src, 'dfasyn', 'dfasyn'), env=e, timeout=5)
            except Timeout: ctx.label('dfasyn: not judged: exponential automaton'); return
            rs.append((r.rc, [open(x, 'rb').read() if os.path.exists(x) else None for x in out]))
        if rs[0][1][0]: ctx.nontrivial(str(w))
        if rs[0] != rs[1]: return 'dfasyn gives different results for one description: %s %s' % (rs[0][0], rs[1][0])
def shrink_par(c):
    ws = c['b'].split(); n = len(ws); k = max(n // 2, 1)
    if c['n'] > 1: yield dict(c, n=c['n'] // 2); yield dict(c, n=c['n'] - 1)
    while k >= 1 and n > 1:
        for i in range(0, n, k): yield dict(c, b=' '.join(ws[:i] + ws[i + k:]))
        k //= 2
def shrink_tools(c):
    if isinstance(c['w'], list):
        for i in range(len(c['w'])): yield dict(c, w=c['w'][:i] + c['w'][i + 1:])
def families(): return [Family('jbofihe', gen, test, 4000, 100000, jbo.shrink), Family('paragraphs', gen_par, test_par, 3000, 40000, shrink_par), Family('tools', gen_tools, test_tools, 3000, 40000, shrink_tools)]
