"""C20: diagnostics of syntax errors. Reference: own LALR(1) automaton of the frozen grammar; each diagnostic is replayed on it, and expected word classes are tried out."""
import re
from lib.harness import Family
from lib import gen, jbo
from lib.bridi import B as Bridi
from model import parse, grammar, text as T
from checks import c01
PROGS = ['jbofihe']
RULE = ("A case is a text outside the grammar (a word string into each automaton state with a wrong word after it, mutated derivations of the whole grammar, natural bridi with words dropped, doubled, exchanged; with and without -re) "
        "or, for a part, a text inside it. The misparsed token, the tokens before it, and with -bt every reduction, state and expected class printed are checked against the reference automaton; some of the expected "
        "classes are tried: the text up to the error and a word of the class must parse past that word. Non-trivial: a rejected text with at least two words before the error; distinct by text.")
ASSUMPTIONS = ['only the first diagnostic of a text is judged', 'the frozen productions (ref/rpc2x.y)', 'a class that is opened by a marker word (internal PRIVATE_ tokens) is judged by the automaton only']
setup = c01.setup
def g_states(rng, i):
    full = rng.random() < .25; a = c01.acc(full); ts = a[i % len(a)] + [rng.choice(c01.TERMS)]
    return {'s': gen.layout(rng, gen.flat(gen.realise(rng, ts))), 're': full, 't': rng.randrange(1 << 30)}
def g_mut(rng, i): return {'s': gen.layout(rng, gen.words(rng, i, mut=1)), 're': rng.random() < .15, 't': rng.randrange(1 << 30)}
def g_bridi(rng, i):
    while 1:
        s = Bridi(rng).text(rng.choice([1, 2, 2, 3])).split()
        if len(s) < 80: break
    for _ in range(rng.choice([0, 1, 1, 2])):
        k = rng.randrange(len(s)); x = rng.random()
        if x < .3 and len(s) > 1: del s[k]
        elif x < .5: s.insert(k, s[k])
        elif x < .75: s.insert(k, rng.choice(s + ['cu', 'ku', 'be', 'gi', '.e', "gi'e", 'je', 'pa', 'moi', 'mai', 'bo', 'ke', "ke'e", 'vau', 'pu', 'zo\'u', 'co', 'lo', 'nu', 'poi', '.ui', 'i']))
        else: j = rng.randrange(len(s)); s[k], s[j] = s[j], s[k]
    return {'s': ''.join(w + rng.choice([' ', ' ', ' ', '\n', '  ']) for w in s), 're': rng.random() < .1, 't': rng.randrange(1 << 30)}
NEST = ['lo nu', 'le broda poi', 'lo broda be', "la'e", 'lu', 'mi to', 'ke', 'na ku', 'fi', 'lo ka do', "la'e lo nu", 'loi me', 'lo ni mi broda', 'li vei', "su'u do ce", 'ge', 'ganai', 'gu\'e', 'mi .e ke', 'broda co', "se", "na'e", "li mo'e", 'sei', 'lo broda noi ke\'a', 'pu', 'to', 'tu\'e', 'mi broda i']
WRONG = ['gi', 'kei', 'cu', 'be', 'ku', 'zo\'u', 'co', 'moi', 'bo', 'ke\'e', 'klama', "gi'e", 'vau', 'le', '.e', 'li\'u', 'boi', 'pa', "ve'o", '']
def g_deep(rng, i):
    """many pending states and reductions"""
    few = rng.sample(NEST, rng.choice([1, 1, 2, 3])); n = rng.choice([10, 40, 70, 130, 260, 520]); o = []
    for _ in range(n): o.append(rng.choice(few))
    tail = rng.choice(['', 'do', 'do broda', 'broda', 'pa', 'ko\'a .e ko\'e', 'lo broda', 'klama'])
    if rng.random() < .4: tail += ' ' + ' '.join([rng.choice(['kei', 'ku', 'vau', "be'o", "ku'o", 'toi', "li'u", "lu'u"])] * rng.choice([1, 3, min(n, 30)]))
    return {'s': ' '.join(o + [tail, rng.choice(WRONG)]) + '\n', 're': rng.random() < .2, 't': rng.randrange(1 << 30)}
# ---- reference
def replay(toks, full):
    """-> (stack of states, symbols) after the last token that can be shifted, index of the first that cannot, and whether an artificial error rule was reached"""
    G = grammar.tables(full); act = G.action; goto = G.goto; st = [0]; sy = []; syms = []
    for t in toks:
        if t.t == 'CMAVO' and t.sel == 'FAhO': break
        syms.append(parse.symbol(t))
    n = len(syms); syms += ['PRIVATE_EOF_MARK', '$end']; i = 0; last = ([0], [])
    while 1:
        a = act[st[-1]].get(syms[i])
        if a is None: return last, min(i, n), n
        if a[0] == 's': st.append(a[1]); sy.append(syms[i]); i += 1; last = (list(st), list(sy))
        elif a[0] == 'r':
            l, r, _, _ = G.rules[a[1]]
            if r: del st[-len(r):]; del sy[-len(r):]
            st.append(goto[st[-1]][l]); sy.append(l)
        else: raise AssertionError('accepted')
def disp(r, dot=0):
    o = '%s <- ' % r[0]
    for i, s in enumerate(r[1]): o += (' ' if i else '') + ('' if s.startswith('PRIVATE_') else s) + (' .' if i + 1 == dot else '')
    return o
def kernel(G, q): return sorted(disp(G.rules[ri], d) for ri, d in G.kernels[q])
def classes(G, q): return {t for t, a in G.action[q].items() if a[0] == 's' and not t.startswith('PRIVATE_') and t not in ('error', '$end', 'IMPOSSIBLE_TOKEN')}
def tokline(t):
    p = ' (line %d, col %d)' % (t.line, t.col)
    if t.t == 'MARKER': return 'MARKER : ' + t.sel
    if t.t == 'CMAVO': return '%s [%s]%s' % (t.w, t.ssm, p)
    if t.t in ('BRIVLA', 'CMENE'): return '%s [%s]%s' % (t.w, t.t, p)
    if t.t == 'ZO': return 'zo %s%s' % (t.w, p)
    if t.t == 'LOhU': return "lo'u %s le'u%s" % (t.w, p)
    if t.t == 'BU': return '%s bu%s' % (t.w, p)
    if t.t == 'ZOI': return '%s %s. %s %s.%s' % (t.form, t.term, t.w, t.term, p)
    return ('<Incomplete SI erasure>' if t.t == 'BROKEN' else t.w) + p
SAMPLE = {'BRIVLA': ['broda', 'klama'], 'CMENE': ['djan.'], 'ZOI': ['zoi gy abc gy.'], 'ZO': ['zo broda'], 'LOhU': ["lo'u broda le'u"], 'ZEI': ['broda zei brode'], 'BU': ['.a bu', 'broda bu']}
def words_of(c): return SAMPLE.get(c) or gen.CMW.get(c) or []
def test(ctx, c):
    s = c['s']; full = c['re']; r = parse.analyse(s, full)
    if r[0] == 'bad': ctx.label('bad word'); return None
    if r[0] == 'ok':
        ctx.label('accepted')
        for o in ([], ['-bt']):
            p = ctx.run('jbofihe', o + (['-re'] if full else []), s)
            x = [l for l in p.err.split('\n') if l and not l.startswith(('Warning: ', 'Unmatched ')) and 'handle' not in l and not l.startswith(("Don't know", 'Can', 'Invalid place', 'Too many places', "Shouldn't find"))]
            if x: return 'diagnostics for a text inside the grammar: ' + p.err[:500]
        return None
    toks = r[2]; e = r[1]
    p = ctx.run('jbofihe', ['-bt'] + (['-re'] if full else []), s); q = ctx.run('jbofihe', ['-re'] if full else [], s)
    if e.forced:
        ctx.label('missing selbri'); k = e.idx
        while k < len(toks) and toks[k].t == 'MARKER': k += 1
        m = 'Missing selbri before GIhA at line %d column %d\n' % (toks[k].line, toks[k].col)
        for x in (p, q):
            if not x.err.startswith(m): return 'the diagnostics start with %r instead of %r' % (x.err[:120], m)
        if e.idx >= 2: ctx.nontrivial((s, full))
        return None
    (st, sy), i, n = replay(toks, full)
    if i >= 2: ctx.nontrivial((s, full))
    p.err = re.sub(r"^(Unmatched S.*\n)+", "", p.err); q.err = re.sub(r"^(Unmatched S.*\n)+", "", q.err)
    m = re.match(r'-{20}\nSYNTAX ERROR IN TEXT\n-{20}\nMisparsed token :\n  (.*?)\nLatest successfully parsed tokens :\n(.*?)-{20}\n', p.err, re.S)
    if not m: return 'no report of the error: %r' % p.err[:400]
    if not q.err.startswith(m.group(0)): return 'the report depends on -bt: %r without it' % q.err[:200]
    want = '<End of text>' if i >= len(toks) else tokline(toks[i])
    if m.group(1) != want: return 'the misparsed token is said to be %r instead of %r' % (m.group(1), want)
    wb = [tokline(t) for t in toks[max(0, i - 8):i][::-1]]; gb = [l[2:] for l in m.group(2).split('\n')[:-1]]
    if '\n' in ''.join(wb): ctx.label('quotation over lines')
    elif wb != gb: return 'the tokens before %r are said to be %r instead of %r' % (want, gb, wb)
    ctx.label('error at end' if i >= n else 'error at marker' if toks[i].t == 'MARKER' else 'error at word')
    # the backtrace
    G = grammar.tables(full); rest = p.err[m.end():]
    x = re.match(r"=+\nRules reduced since misparsed token was read :\n=+\n(.*?)=+\nJammed parser state \((\d+)\) :\n=+\n(.*?)\nNext word class could be : (.*?)\n\n=+\nPending parser states \(innermost first, outermost last\) :\n=+\n((?:State \d+\n(?: Rule[^\n]*\n)*-{27}\n)*)", rest, re.S)
    if not x: return 'no proper backtrace: %r' % rest[:400]
    if not hasattr(G, 'disp'):
        G.disp = {}
        for k, rr in enumerate(G.rules): G.disp.setdefault(disp(rr), []).append(k)
    st = list(st); sy = list(sy); lists = []; nred = 0; num = {}
    for l in x.group(1).split('\n')[:-1]:
        if l == '  NONE': continue
        a = re.match(r'   \(Next word class could be :(.*)\)$', l)
        if a:
            lists.append((before, a.group(1).split()))
            if not seen: return 'expected classes listed twice: ' + l
            seen = False
            if set(a.group(1).split()) != classes(G, before): return diff('after the words up to the error, where %r was reduced' % rule, a.group(1).split(), classes(G, before))
            continue
        if nred and seen and classes(G, before): return 'expected classes %s not listed where %r was reduced' % (sorted(classes(G, before)), rule)
        a = re.match(r' Rule (\d+) : (.*)$', l)
        if not a: return 'ill-formed reduction %r' % l
        rule = a.group(2); nred += 1; seen = True; before = st[-1]
        ok = [k for k in G.disp.get(rule, []) if sy[len(sy) - len(G.rules[k][1]):] == list(G.rules[k][1]) and len(G.rules[k][1]) <= len(sy) and any(b[0] == 'r' and b[1] == k for b in G.action[before].values())]
        if not ok: return 'rule %r cannot be reduced after %s' % (rule, ' '.join(sy[-6:]))
        L, R = G.rules[ok[0]][0], G.rules[ok[0]][1]
        if num.setdefault(rule, a.group(1)) != a.group(1) and len(ok) == 1 and len(G.disp[rule]) == 1: return 'rule %r has two numbers' % rule
        if R: del st[-len(R):]; del sy[-len(R):]
        st.append(G.goto[st[-1]][L]); sy.append(L)
    if nred and seen and classes(G, before): return 'expected classes %s not listed where %r was reduced' % (sorted(classes(G, before)), rule)
    ctx.label('%d reductions' % min(nred, 12))
    rl = lambda z: sorted(re.sub(r'^ Rule \d+ : ', '', l) for l in z.split('\n') if l.startswith(' Rule'))
    if rl(x.group(3)) != kernel(G, st[-1]): return 'the jammed state is said to hold %s instead of %s' % (rl(x.group(3)), kernel(G, st[-1]))
    got = x.group(4).split()
    if set(got) != classes(G, st[-1]): return diff('in the jammed state', got, classes(G, st[-1]))
    pend = [rl(z) for z in re.findall(r'State \d+\n(.*?)-{27}\n', x.group(5), re.S)]; exp = [kernel(G, z) for z in st[-2::-1]]
    if pend != exp:
        k = next((k for k in range(max(len(pend), len(exp))) if k >= len(pend) or k >= len(exp) or pend[k] != exp[k]))
        return 'pending state %d (%d in all) is said to hold %s instead of %s (%d in all)' % (k, len(pend), pend[k:k + 1], exp[k:k + 1], len(exp))
    lists.append((st[-1], got))
    # try some of the classes
    import random
    rng = random.Random(c['t']); al = sorted({z for _, y in lists for z in y})
    if i < len(toks) and toks[i].t == 'MARKER' or i > len(toks): return None
    cut = prefix(s, toks, i)
    if cut is None: return None
    for z in rng.sample(al, min(3, len(al))):
        ws = words_of(z)
        if not ws: ctx.label('class without sample words'); continue
        w = rng.choice(ws); t2 = cut + ' ' + w; r2 = parse.analyse(t2, full)
        if r2[0] == 'bad': ctx.label('trial not possible'); continue
        if r2[0] == 'syntax' and [parse.symbol(y) for y in r2[2][:i]] != [parse.symbol(y) for y in toks[:i]]: ctx.label('trial changes the markers before it'); continue
        if r2[0] == 'ok': ctx.label('trial accepted'); continue
        k = r2[1].idx; tk = r2[2]; real = [j for j, t in enumerate(tk) if t.t != 'MARKER']
        if k >= len(tk) or k > real[-1]: ctx.label('trial passed'); continue
        return 'a word of class %s is said to be possible after the words up to the error, but %r is refused at token %r' % (z, t2, tk[k])
def diff(where, got, exp): return '%s the word classes said to be possible are wrong: %s are not, %s are missing' % (where, sorted(set(got) - set(exp)), sorted(set(exp) - set(got)))
def prefix(s, toks, i):
    """the text before token i (markers aside)"""
    if i >= len(toks): return s if not any(t.t == 'CMAVO' and t.sel == 'FAhO' for t in toks) else None
    t = toks[i]
    if t.t in ('ZEI', 'BU', 'ZOI', 'LOhU', 'ZO'): return None   # its place is not that of its first word
    if t.bahe: t = t.bahe[0]
    ls = s.split('\n')
    if t.line < 1 or t.line > len(ls) or t.col < 1: return None
    return '\n'.join(ls[:t.line - 1] + [ls[t.line - 1][:t.col - 1]])
def families():
    m = len(c01.acc()); return [Family('states', g_states, test, m * 2, m * 40, jbo.shrink), Family('mutants', g_mut, test, 4000, 100000, jbo.shrink), Family('deep', g_deep, test, 500, 15000, jbo.shrink), Family('bridi', g_bridi, test, 3000, 80000, jbo.shrink)]
