"""C17: dfasyn. Reference: direct simulation of the described nondeterministic automaton (model/nfa.py)."""
import os, re, json, random, subprocess, signal
from lib.harness import Family, Timeout
from lib import build as B
from model.nfa import NFA, SpecError, TooBig
from model import nfa
nfa.LIMIT = 3000
PROGS = ['vlatai']
RULE = ("A case is an automaton description; dfasyn is run on it with several option sets, the generated C is compiled and run on token sequences that reach every state of the "
        "deterministic automaton by every token (bounded), on random walks and on tokens outside the alphabet, and exit values, attributes and stops are compared step by step with the simulation; "
        "descriptions the reference finds malformed or ambiguous must be refused. Non-trivial: accepted with at least 3 reachable states, or refused; distinctness is by the text.")
ASSUMPTIONS = ['names are shorter than 100 characters', 'what follows an early result is not judged', 'descriptions in which two instances define the same state are not judged',
               'characters outside the description language are not generated (dfasyn passes them through by design)']

# ---------- generation
def name(rng, p, k): return '%s%d' % (p, rng.randrange(k))
def expr(rng, syms, d=0, wild=True):
    k = rng.random()
    if d > 3 or k < .4: return rng.choice(syms)
    if k < .5 and wild: return '*'
    if k < .6: return rng.choice('~!') + expr(rng, syms, d + 1, wild)
    if k < .7: return '(' + expr(rng, syms, d + 1, wild) + ')'
    if k < .77: return '%s ? %s : %s' % tuple(expr(rng, syms, d + 1, wild) for _ in range(3))
    return '%s %s %s' % (expr(rng, syms, d + 1, wild), rng.choice('&&|^'), expr(rng, syms, d + 1, wild))
def kw(rng, w):
    f = {'State': 'STATE State state', 'Abbrev': 'ABBREV Abbrev abbrev', 'Block': 'BLOCK Block block', 'EndBlock': 'ENDBLOCK EndBlock Endblock endblock',
         'Tokens': 'TOKENS Tokens tokens', 'Result': 'RESULT Result result', 'EarlyResult': 'EARLYRESULT EarlyResult Earlyresult earlyresult', 'Attr': 'ATTRIBUTE ATTR Attribute Attr attribute attr',
         'DefResult': 'DEFRESULT DefResult Defresult defresult', 'Symbol': 'SYMBOL Symbol symbol', 'SymResult': 'SYMRESULT SymResult Symresult symresult',
         'EarlySymResult': 'EARLYSYMRESULT EarlySymResult EarlySymresult Earlysymresult earlysymresult', 'Prefix': 'PREFIX Prefix prefix', 'Type': 'TYPE Type type', 'DefAttr': 'DEFATTR DefAttr Defattr defattr'}[w].split()
    return rng.choice(f) if rng.random() < .3 else f[min(1, len(f) - 1)]
def spec(rng, nt=None, big=False):
    nt = nt or rng.choice([1, 2, 2, 3, 3, 4, 5, 8])
    toks = ['t%d' % i for i in range(nt)]
    L = []
    for i in range(0, nt, 20): L.append(kw(rng, 'Tokens') + ' ' + ' '.join(toks[i:i + 20]))
    names = list(toks)
    for i in range(rng.choice([0, 0, 1, 2, 3])):
        a = 'A%d' % rng.randrange(3)
        known = [x for x in names if x != a and x in toks or x < a]   # no cycles, later abbreviations may use earlier ones
        L.append('%s %s = %s' % (kw(rng, 'Abbrev'), a, ' | '.join(rng.choice(known) for _ in range(rng.randint(1, 4)))))
        if a not in names: names.append(a)
    tags = ['X%d' % i for i in range(rng.choice([1, 2, 3, 4, 6]))]; atags = ['Y%d' % i for i in range(rng.choice([0, 0, 1, 2, 3]))]
    nb = rng.choice([1, 1, 2, 3]); done = {}
    def stream(depth=0):
        """a transition sequence"""
        segs = []
        for _ in range(rng.choice([1, 1, 1, 2, 2, 3])):
            if done and rng.random() < .25:
                alts = []
                for _ in range(rng.choice([1, 1, 2])):
                    b = rng.choice(sorted(done)); alts.append('<%s:%s->%s>' % (b, rng.choice(done[b]), rng.choice(done[b])))
                if rng.random() < .25: alts.append('')
                segs.append(' | '.join(alts))
            else:
                o = [rng.choice(names) if rng.random() < .93 else '' for _ in range(rng.choice([1, 1, 1, 2, 3]))]
                segs.append(' | '.join(o))
        return ' ; '.join(segs)
    for bi in range(nb):
        b = 'b%d' % bi
        L.append('%s %s' % (kw(rng, 'Block'), b)); inst = []
        for k in range(rng.choice([0, 0, 1, 2])):
            if done:
                m = rng.choice(sorted(done)); i = rng.choice(['i%d' % k, 'i.%d' % k]); L.append('  %s : %s' % (i, m)); inst += ['%s.%s' % (i, s) for s in done[m]]
        ns = rng.choice([1, 2, 3, 4, 5]) if not big or bi else rng.randint(20, 80)
        sts = ['s%d' % i for i in range(ns)]; allst = sts + inst
        order = sts[1:] + inst[:rng.randrange(len(inst) + 1)] ; rng.shuffle(order); order += [sts[0]]
        if rng.random() < .2: order.insert(0, rng.choice(sts))
        for s in order:
            L.append('  %s %s%s' % (kw(rng, 'State'), s, ' (%s)' % rng.choice(atags) if atags and rng.random() < .4 else ''))
            for _ in range(rng.choice([0, 1, 1, 2, 3])):
                if rng.random() < .4: L.append('    %s = %s' % (stream(), rng.choice(tags)))
                else: L.append('    %s -> %s' % (stream(), ', '.join(rng.choice(allst) for _ in range(rng.choice([1, 1, 1, 2])))))
        L.append(kw(rng, 'EndBlock')); done[b] = allst
    # results: a priority order avoids most ambiguities
    def results(pre, tags, names, early):
        R = []; syms = list(tags); rest = []
        for i in range(rng.choice([0, 0, 1, 2])):
            n = '%sS%d' % (pre, i); R.append('%sSymbol %s = %s' % ('Attr ' if pre else '', n, expr(rng, syms))); syms.append(n)
        style = rng.random(); prev = []
        for i, t in enumerate(tags):
            e = (early and rng.random() < .2)
            cond = t if style < .8 or rng.random() < .5 else expr(rng, syms)
            if rng.random() < .3: cond = '(%s)' % cond
            guard = ' & '.join('~(%s)' % p for p in prev)
            if rng.random() < .15 and prev: guard = '~*' 
            full = cond if not guard or style < .1 else '%s & %s' % (cond, guard) if rng.random() < .5 else '%s & %s' % (guard, cond)
            prev.append(cond)
            if full == t and rng.random() < .5: R.append('%s%s %s' % ('Attr ' if pre else '', kw(rng, 'EarlyResult' if e else 'Result'), t)); names.add(t)
            elif rng.random() < .2:
                n = '%sZ%d' % (pre, i); R.append('%s%s %s -> %s' % ('Attr ' if pre else '', kw(rng, 'EarlySymResult' if e else 'SymResult'), full, n)); names.add(n)
            else:
                n = rng.choice(['%sR%d' % (pre, i), '%sR%d' % (pre, i), '%sR0' % pre, str(7 + i)]); R.append('%s%s %s -> %s' % ('Attr ' if pre else '', kw(rng, 'EarlyResult' if e else 'Result'), full, n)); names.add(n)
        if rng.random() < .8: n = pre + 'DEF'; R.append(('Attr ' if pre else '') + kw(rng, 'DefResult') + ' ' + n if not pre or rng.random() < .5 else kw(rng, 'DefAttr') + ' ' + n); names.add(n)
        if rng.random() < .3: R.append(('Attr ' if pre else '') + 'Type ' + rng.choice(['"unsigned int"', 'int', 'long']))
        return R
    rn = set(); an = set()
    R = results('', tags, rn, True) + (results('Q', atags, an, False) if atags and rng.random() < .9 else [])
    where = rng.random()
    if where < .3: L = R + L
    else: L = L + R
    if rng.random() < .1: L.insert(0, '# a comment ; -> State')
    return L
CASES = {}
def gen(rng, i):
    return {'t': spec(rng), 'p': rng.random() > .1, 'v': rng.randrange(4), 'seed': rng.randrange(1 << 30)}
def gen_big(rng, i):
    k = i % 5
    if k == 0: L = spec(rng, big=True)
    elif k == 1: L = spec(rng, nt=rng.choice([33, 40, 64, 65, 130, 256, 257, 300]), big=rng.random() < .5)
    elif k == 2: # the n-th token from the end
        n = rng.randint(3, 9)
        L = ['Tokens a b c', 'Block m', 'State s', ' a -> s', ' b -> s', ' c -> s', ' %s -> q0' % rng.choice('abc')]
        for j in range(n - 1): L += ['State q%d' % j, ' %s -> q%d' % (rng.choice(['a | b', 'a|b|c', 'c', 'a|b|c', 'a|b|c']), j + 1)]
        L += ['State q%d' % (n - 1), ' = %s' % rng.choice(['X', 'X'])] + (['State q%d' % rng.randrange(n), ' b = Y'] if rng.random() < .7 else [])
        L += ['State s', 'EndBlock', 'Result X & ~Y -> 1', 'Result Y & X -> 2', 'Result Y & ~X -> 3', 'DefResult 9']
    elif k == 3: # a chain of nested blocks
        d = rng.randint(2, 6)
        L = ['Tokens a b c', 'Block n0', 'State i', ' a -> o', ' b ; c -> o', ' = X0' if rng.random() < .3 else ' c -> i', 'State o', 'EndBlock']
        for j in range(1, d):
            L += ['Block n%d' % j, ' l : n%d' % (j - 1), ' r : n%d' % rng.randrange(j), 'State i', ' -> l.i', 'State l.o', ' %s -> %s' % (rng.choice('abc') if rng.random() < .5 else '', rng.choice(['r.i', 'r.o', 'o'])),
                  'State r.o', ' -> o', 'State o', ' c = X%d' % rng.randrange(3), 'State i', 'EndBlock']
        L += ['Result X0 -> 1', 'Result X1 & ~X0 -> 2', 'Result X2 & ~* -> 3', 'DefResult 0']
    else: # a dense random table: more transitions than fit 16 bits, now and then
        nt = rng.choice([100, 257, 280]); ns = rng.choice([5, 60, 240 if i % 100 == 4 else 30])
        L = ['Tokens ' + ' '.join('t%d' % j for j in range(nt)), 'Block m']
        for s in range(ns - 1, -1, -1):
            L += ['State s%d' % s] + [' %s -> s%d' % ('t%d' % t, rng.randrange(ns)) for t in range(nt) if rng.random() < .97] + [' = X%d' % (s % 3)]
        L += ['EndBlock', 'Result X0 -> 1', 'Result X1 -> 2', 'Result X2 -> 3']
    return {'t': L, 'p': rng.random() > .1, 'v': rng.randrange(4), 'seed': rng.randrange(1 << 30)}
def gen_bad(rng, i):
    c = gen(rng, i); L = c['t']
    for _ in range(rng.choice([1, 1, 2])):
        k = rng.random()
        if not L: break
        if k < .5: # token level damage
            j = rng.randrange(len(L)); w = re.findall(r'[A-Za-z0-9_.]+|->|\S', L[j])
            if not w or '"' in w: continue
            q = rng.randrange(len(w)); r = rng.random()
            if r < .35: del w[q]
            elif r < .6: w.insert(q, w[rng.randrange(len(w))])
            elif r < .8: w[q] = rng.choice(['->', '=', '|', ';', ':', '<', '>', '(', ')', ',', '~', '*', '?', '&', '^', 'State', 'Block', 'EndBlock', 'Result', 'Define', 'zz', 't0', 's0', 'X0', 'b0'])
            else: w[q] = w[q] + 'x'
            L[j] = ' '.join(w)
        elif k < .65 and len(L) > 1: del L[rng.randrange(len(L))]
        elif k < .75: L.insert(rng.randrange(len(L) + 1), L[rng.randrange(len(L))])
        elif k < .85: L.append(rng.choice(['Result X0 -> 3', 'Result ~X9 -> R4', 'Symbol X0 = X1', 'Attr Symbol Y0 = Y1', 'Result *', 'Symbol S0 = S0', 'Symbol S0 = X1 & S1', 'Symbol S1 = S0', 'Tokens t0', 'Block b0 EndBlock', 'Block zz EndBlock', 'Attr EarlyResult Y0', 'Symbol Y = Y\nResult Y -> R1', 'Symbol P = ~Q\nSymbol Q = X1 | P\nResult Q -> R1']))
        elif k < .88: L.insert(rng.randrange(3), rng.choice(['Abbrev A0 = A0 | t0', 'Abbrev A0 = A1\nAbbrev A1 = t0 | A0', 'Abbrev t0 = t0', 'Abbrev A0 = t1 | A9']))
        elif k < .95:
            bl = [j for j, l in enumerate(L) if l.strip().lower().startswith('state')]
            if bl: L.insert(rng.choice(bl) + 1, rng.choice(['  <b0:s0->s0> -> s0', '  zz -> s0', '  <zz:a->b> = X0', '  t0 -> ', '  = ', '  t0 ; ; t0 -> s0', '  A0 | A1 -> nowhere', '  -> s0', '  <b0:none->s0> = X0', '  t0 -> s0 , s1,', '  t0 t0 -> s0']))
        else:
            L[:] = L[:rng.randrange(len(L))]
    return c

# ---------- running
OPTS = [[], ['-u'], ['-ud'], ['-u', '-ud']]
DRV = r'''
#include <stdio.h>
#include <stdlib.h>
typedef int (*nx)(int,int);
static int t[100000];
static void tr(nx f, long (*ev)(int), long (*at)(int), int n) {
  int s = 0, i; printf("%ld.%ld", ev(s), at(s));
  for (i = 0; i < n; i++) { s = f(s, t[i]); if (s < 0) { printf(" X"); break; } printf(" %ld.%ld", ev(s), at(s)); }
  printf("\n");
}
int main() { int n, i; while (scanf("%d", &n) == 1) { for (i = 0; i < n; i++) scanf("%d", t + i); ALL } return 0; }
'''
def dfasyn(ctx, text, args, out, rep=None):
    f = out + '.in'; open(f, 'w').write(text)
    if os.path.exists(out): os.remove(out)
    return ctx.run('dfasyn', args + (['-r', rep, '-v'] if rep else []) + ['-o', out, f], path=os.path.join(ctx.b.src, 'dfasyn', 'dfasyn'), timeout=60)
def sequences(m, rng, limit):
    nt = len(m.tokens); ix = {t: i for i, t in enumerate(m.tokens)}
    acc = {m.init: []}; q = [m.init]; seqs = []
    for d in q:
        if len(acc) > 3000: break
        if m.early_of(d): continue
        for t in m.tokens:
            n = m.step(d, t)
            if n >= 0 and n not in acc: acc[n] = acc[d] + [ix[t]]; q.append(n)
    states = list(acc)
    for d in states: seqs.append(acc[d])
    pairs = [(d, t) for d in states if not m.early_of(d) for t in range(nt)]
    if len(pairs) > limit: pairs = rng.sample(pairs, limit)
    seqs += [acc[d] + [t] for d, t in pairs]
    live = [d for d in states if not m.early_of(d)]
    for d in rng.sample(live, min(len(live), 10)): seqs += [acc[d] + [x] for x in (-1, nt, nt + 1, 256, 257, 511) if x < 0 or x >= nt]
    for _ in range(60):
        d = m.init; s = []
        for _ in range(rng.choice([5, 20, 60])):
            t = rng.randrange(nt)
            for _ in range(4):
                if m.step(d, m.tokens[t]) >= 0: break
                t = rng.randrange(nt)
            s.append(t); d = m.step(d, m.tokens[t])
            if d < 0 or m.early_of(d): break
        seqs.append(s)
    return seqs, len(states)
def test(ctx, c, extra=None):
    text = '\n'.join(c['t']) + '\n'; rng = random.Random(c['seed'])
    wd = ctx.tmp('dfa%d' % 0); base = wd
    why = None
    try:
        m = NFA(text); x = m.explore(2000); why = 'ambiguous' if x else None
        if m.odd or x is None: ctx.label('not judged'); return
        if not m.tokens: why = why or 'no tokens'
    except TooBig: ctx.label('not judged'); return
    except SpecError as e: why = str(e)
    except RecursionError: why = 'endless recursion'
    if why:
        ctx.nontrivial(text); ctx.label('refused: ' + re.sub(r"[ :'(].*", '', why))
        for o in (OPTS[c['v']], ['-v']):
            r = dfasyn(ctx, 'Prefix pfx\n' + text, o, base + '.c')
            if r.rc == 0: return 'accepted although %s' % why
            if r.rc < 0 or r.rc > 2: return 'ends with status %d (%s): %s' % (r.rc, why, r.err[-200:])
            if not r.err.strip(): return 'refused without a message'
        return
    if any(not re.fullmatch(r'\w+', x) for x, _, _ in m.exit.results + m.attr.results): return
    if {m.exit.type, m.attr.type} - {'short', 'int', 'long', 'unsigned int'} or {'int', 'long', 'short'} & set(rn0 for rn0 in [m.exit.default, m.attr.default] + [x for x, _, _ in m.exit.results + m.attr.results]): return
    variants = [(o, 'v%d' % i) for i, o in enumerate(OPTS)] if c['p'] else [(OPTS[c['v']], None)]
    code = []; calls = ''
    rn = sorted({r for r, _, _ in m.exit.results} | {m.exit.default or '0'}); an = sorted({r for r, _, _ in m.attr.results} | {m.attr.default or '0'})
    idents = [x for x in sorted(set(rn + an)) if not re.match(r'\d', x)]
    if any(re.match(r'\d', x) and not re.fullmatch('0|[1-9][0-9]*', x) for x in rn + an): return
    val = {x: 100 + i for i, x in enumerate(idents)}; val.update({x: int(x) for x in rn + an if x not in val})
    if idents: code.append('enum e_all { %s };' % ', '.join('%s = %d' % (x, val[x]) for x in idents))
    sets = []
    for o, p in variants:
        out = base + '.c'; rep = base + '.rep' if p in ('v0', 'v2') else None
        r = dfasyn(ctx, ('Prefix %s\n' % p if p else '') + text, o, out, rep)
        if r.rc: return 'refused (options %s): status %d %s' % (' '.join(o), r.rc, r.err[-300:])
        src = open(out).read()
        if rep and p == 'v0': # the report changes nothing
            r2 = dfasyn(ctx, 'Prefix %s\n' % p + text, o, out)
            if open(out).read() != src: return 'output depends on -r or -v'
            out2 = ctx.run('dfasyn', o, 'Prefix %s\n' % p + text, path=os.path.join(ctx.b.src, 'dfasyn', 'dfasyn'))
            if out2.rc or out2.out != src: return 'output on standard output differs from -o'
        if src.count('_exitval[]' if p else 'exitval[]') != 1: return 'no exit value table'
        code.append(src); n = (p + '_') if p else ''; q = p or 'v'
        code.append('static long ev_%s(int s) { return (long) %sexitval[s]; }\nstatic long at_%s(int s) { return %s; }' % (q, n, q, '(long) %sattribute[s]' % n if m.attr.used else '-7'))
        sets.append(q); calls += 'tr(%snext_state, ev_%s, at_%s, n);' % (n, q, q)
    code.append(DRV.replace('ALL', calls))
    cf = base + '.all.c'; open(cf, 'w').write('\n'.join(code)); exe = base + '.exe'
    p = subprocess.run(['gcc', '-O0', '-w', '-fsanitize=bounds', '-o', exe, cf] if c['v'] == 0 else ['gcc', '-O0', '-w', '-o', exe, cf], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=B.ENV, cwd=ctx.scratch)
    if p.returncode: return 'the generated code does not compile: ' + p.stdout.decode('latin1')[:600]
    seqs, ns = sequences(m, rng, 3000)
    if ns >= 3: ctx.nontrivial(text)
    ctx.label('states %s' % ('1-2' if ns < 3 else '3-9' if ns < 10 else '10-99' if ns < 100 else '100+'))
    if m.attr.used: ctx.label('attributes')
    if any(e for _, _, e in m.exit.results): ctx.label('early results')
    o = ctx.run('driver', [], '\n'.join('%d %s' % (len(s), ' '.join(map(str, s))) for s in seqs), path=exe, timeout=60)
    if o.rc: return 'generated code: status %d %s' % (o.rc, o.err[-300:])
    lines = o.out.split('\n')[:-1]
    if len(lines) != len(seqs) * len(sets): return 'generated code stopped early'
    dv, da = val[m.exit.default or '0'], val[m.attr.default or '0']
    k = 0
    for s in seqs:
        exp = []; d = m.init
        def item(d):
            r, a = m.result_of(d), m.attr_of(d)
            return '%d.%d' % (dv if r is None else val[r], -7 if not m.attr.used else da if a is None else val[a])
        exp.append(item(d)); cut = m.early_of(d)
        for t in s:
            if cut: break
            d = m.step(d, m.tokens[t]) if 0 <= t < len(m.tokens) else -1
            if d < 0: exp.append('X'); break
            exp.append(item(d)); cut = m.early_of(d)
        for v in sets:
            got = lines[k].split(); k += 1
            if (got[:len(exp)] if cut else got) != exp:
                return 'variant %s, sequence %s: got %s, expected %s (value.attribute per step; X: no transition)' % (v, ' '.join(m.tokens[t] if 0 <= t < len(m.tokens) else str(t) for t in s), lines[k - 1], ' '.join(exp))
SHIPPED = ['bctables.in', 'stag_nfa.in', 'morf_nfa.in']
def shrink(c):
    from lib.harness import cands
    L = c['t']; n = len(L); k = max(n // 2, 1)
    while k >= 1 and n:
        for i in range(0, n, k): yield dict(c, t=L[:i] + L[i + k:])
        k //= 2
    if not c['p']: yield dict(c, p=True)
    for i, l in enumerate(L):
        w = l.split()
        for j in range(len(w)): yield dict(c, t=L[:i] + [' '.join(w[:j] + w[j + 1:])] + L[i + 1:])
def families():
    return [Family('classify', gen, test, 1200, 40000, shrink), Family('large', gen_big, test, 60, 2000, shrink), Family('malformed', gen_bad, test, 1500, 40000, shrink)]
