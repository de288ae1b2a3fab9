"""C24: dictionaries made from word lists. The scripts that turn word lists into dictionary sources, and sources into C, on generated lists; oracle: the entries the list was written from."""
import os, random, re
from lib.harness import Family
from lib import gen as G
from model import dictm, lujvo as L
from checks.c22 import image
PROGS = ['smujajgau']
BUILDS = ('plain', 'embed')
RULE = ("lists: a list of gismu (word, up to three rafsi, gloss) and of cmavo (word, selma'o, gloss) is written in the columns of reduced_gismu and reduced_cmavo; mkdict.pl followed by smujajgau must give, byte for byte, the dictionary with the gloss of each word, gloss and word of each rafsi and of the "
        "long rafsi, and the selma'o of each cmavo. lujvo: random lujvo-list lines and NORALUJV.txt lines (columns; places of the lujvo as places of its components) through lujvod.pl and noralujv.pl. embed: random dictionary sources with updates, comments, quotation marks and backslashes go through "
        "dict2inc.pl; the C it makes is compiled into a program that prints it, which must list the entries of the dictionary smujajgau makes of the same sources, in the order of strcmp. shipped: random entries of the shipped dictionary, in the file and built in (--embed), against the word lists and sources in the tree. Non-trivial: at least five entries; distinct by case.")
ASSUMPTIONS = ['glosses contain no colon and, in the columned lists, neither begin nor end with a blank', 'embed: no place entries of lujvo (the built-in dictionary has no entries under canonical forms)']
GL = ['dog', 'North American', 'x', 'to go', 'a "b" c', "it's", '[is]', 'a/b', '(?)', '100%', '<&>', 'A;b', 'D;b', 'S;', '-', '@x1', '#', 'caf\xe9', 'a*b', '$x', '1']
def gloss(rng, n):
    s = rng.choice(GL) if rng.random() < .6 else ''.join(rng.choice('abcdefghij XYZ\'"$@%&*()-+=/?<>,.;!#{}~^_|`') for _ in range(rng.randint(1, n)))
    return s.strip()[:n].strip() or 'g'
def put(fields):
    s = ''
    for col, t in fields:
        s = s.ljust(col)
        assert len(s) == col
        s += t
    return s
def gen_lists(rng, i):
    gi = []; cm = []
    for _ in range(rng.choice([0, 1, 3, 10, 40])):
        w = rng.choice(G.GISMU) if rng.random() < .8 else rng.choice(list(G.ALLCM)); w = w[:6]
        cvc = ''.join([rng.choice('bcdfgjklmnprstvxz'), rng.choice('aeiou'), rng.choice('bcdfgjklmnprstvxz')]); ccv = rng.choice(['bra', 'cku', 'dje', 'kli', 'mlo']); cvv = rng.choice(["ba'u", 'bau', "ka'o", 'nei'])
        gi.append([w, [cvc if rng.random() < .5 else '', ccv if rng.random() < .4 else '', cvv if rng.random() < .4 else ''], gloss(rng, 20), rng.random() < .5])
    for _ in range(rng.choice([0, 1, 3, 10, 40])):
        w = rng.choice(list(G.ALLCM))
        if rng.random() < .2: w += rng.choice(['nai', "cu'i", 'bu'])
        if len(w) > 9: continue
        cm.append([('.' if w[0] in 'aeiou' else '') + w, rng.choice(['UI1', 'UI*1', 'A', 'KOhA3', 'PU', 'NAI', 'BAI*', 'CAI']), gloss(rng, 40), rng.random() < .5])
    return {'gi': gi, 'cm': cm, 'nl': rng.random() < .9}
def perl(ctx, script, cwd, args=(), inp=''):
    return ctx.run('perl', [os.path.join(ctx.b.dirs['gen'], script)] + list(args), inp, path='/usr/bin/perl', cwd=cwd)
def compile_(ctx, text, name='c24.dat'):
    f = ctx.tmp('c24.src'); open(f, 'w', encoding='latin1').write(text); d = ctx.tmp(name)
    if os.path.exists(d): os.remove(d)
    o = ctx.run('smujajgau', [d, f])
    return o, (open(d, 'rb').read() if os.path.exists(d) else b'')
def entries(b):
    import struct
    n = struct.unpack('>I', b[:4])[0]; ls = b[4:4 + 2 * n]; p = 4 + 2 * n; m = {}
    for i in range(n):
        k = b[p:p + ls[2 * i]]; p += ls[2 * i] + 1; v = b[p:p + ls[2 * i + 1]]; p += ls[2 * i + 1] + 1
        m[k.decode('latin1')] = v.decode('latin1')
    return m
def differ(have, want, what):
    for k in sorted(set(have) | set(want)):
        if have.get(k) != want.get(k): return '%s: the entry of %r is %r instead of %r' % (what, k, have.get(k), want.get(k))
def work(ctx):
    d = ctx.tmp('c24dir'); os.makedirs(d, exist_ok=True); return d
def w(d, name, lines, nl=True): open(os.path.join(d, name), 'w', encoding='latin1').write('\n'.join(lines) + ('\n' if nl and lines else ''))
def test_lists(ctx, c):
    d = work(ctx); m = {}; gl = []; cl = []
    for g, rs, e, pad in c['gi']:
        gl.append(put([(0, g)] + [(k, r) for k, r in zip((6, 10, 14), rs) if r] + [(19, e.ljust(20) if pad else e)]))
        m[g] = e
        for r in rs + ([g[:4]] if len(g) == 5 else []):
            if r: m['%' + r] = e; m['@' + r] = g
    for x, s, e, pad in c['cm']:
        cl.append(put([(0, x), (11, s), (20, e.ljust(40) if pad else e)]))
        m[x.lstrip('.')] = e; m['+' + x.lstrip('.')] = s
    w(d, 'reduced_gismu', gl, c['nl']); w(d, 'reduced_cmavo', cl, c['nl'])
    o = perl(ctx, 'mkdict.pl', d)
    if o.rc: return 'mkdict.pl fails: %s' % o.err[:300]
    p, b = compile_(ctx, o.out)
    if p.rc: return 'smujajgau fails on what mkdict.pl made: %s' % p.err[:300]
    if len(m) >= 5: ctx.nontrivial(str(c))
    ctx.label('%d gismu' % len(c['gi']))
    return differ(entries(b), m, 'mkdict.pl') or (None if b == image(m) else 'mkdict.pl: the dictionary has the right entries in another arrangement')
def lujvo(rng):
    while 1:
        ws = [rng.choice(G.GISMU) for _ in range(rng.choice([2, 2, 3]))]; ch = L.choices(ws, True, False)
        if not all(ch): continue
        x = L.join([rng.choice(k) for k in ch])[0]
        if L.is_lujvo(x) and len(x) < 29: return x, ws
def gen_lujvo(rng, i):
    o = []
    for _ in range(rng.choice([0, 1, 3, 10])):
        x, ws = lujvo(rng)
        o.append([x, ws, gloss(rng, 20), [[k, rng.choice(ws), rng.randint(1, 5)] for k in range(1, rng.randint(1, 6))], rng.choice([None, ' (a, b)', '(the same)'])])
    return {'l': o, 'sep': rng.choice(['#', ':'])}
def test_lujvo(ctx, c):
    d = work(ctx); a = []; n = []; m = {}
    for x, ws, e, pl, note in c['l']:
        t = '+'.join(ws)
        if '#' not in e: a.append('%s%s%s:%s' % (x, c['sep'], t, e))
        n.append(x.ljust(31) + '%s: %s :%s' % (t, e, ', '.join('x%d = %s%d%s' % (k, g, q, note or '') for k, g, q in pl)))
        dictm.apply(m, '%s1:%s' % (x, e))
        for k, g, q in pl:
            if k > 1: dictm.apply(m, '%s%d:@%s%d' % (x, k, g, q))
    w(d, 'NORALUJV.txt', n)
    o = perl(ctx, 'noralujv.pl', d)
    if o.rc: return 'noralujv.pl fails: %s' % o.err[:300]
    p, b = compile_(ctx, o.out)
    r = differ(entries(b), m, 'noralujv.pl')
    if r: return r
    if len(m) >= 5: ctx.nontrivial(str(c))
    o = perl(ctx, 'lujvod.pl', d, inp=''.join(l + '\n' for l in a).encode('latin1'))
    if o.rc or o.err: return 'lujvod.pl fails: %s' % o.err[:300]
    p, b = compile_(ctx, o.out); m = {}
    for x, ws, e, _, _ in c['l']:
        if '#' not in e: m[x] = e
    return differ(entries(b), m, 'lujvod.pl')
def gen_embed(rng, i):
    fs = []; ks = [rng.choice(G.GISMU) for _ in range(rng.choice([1, 3, 8]))] + [rng.choice(list(G.ALLCM)) for _ in range(rng.choice([0, 3, 8]))] + ['spageti', 'FTTT@AFTER', 'Z', "a'o", 'a_b']
    def v():
        x = gloss(rng, 30) if rng.random() < .8 else rng.choice(['', 'a\\b', '\\', '\\n', '"', '""', 'a "q"', '\\"', '%d', "'", 'x' * 255, '??!', '\\101', '/*', '//'])
        return x.replace(':', '')
    for _ in range(rng.randint(1, 4)):
        ls = []
        for _ in range(rng.choice([0, 1, 5, 20])):
            k = rng.choice(ks); x = rng.random()
            if x < .6 : k += rng.choice(['', '1', '2', '3', '5']) + rng.choice(['', '', '', 'n', 'v', 'a', 'q', 't'])
            elif x < .75: k = rng.choice('%@+*') + k
            elif x < .8: k = '*%d+%s1' % (rng.randint(0, 5), k)
            ls.append(rng.choice(['', '', '', '', ' ', '\t']) + k + ':' + v() + rng.choice(['', '', '', '', ':a comment', ':']))
            if rng.random() < .1: ls.append(rng.choice(['# a comment', '#a:b', '', '   ', ' # c:d', 'no colon', '! c:d', '; e:f']))
        fs.append(ls)
    return {'f': fs}
DRIVER = r'''
#include <stdio.h>
#include <string.h>
typedef struct { char *key; char *val; } Keyval;
#include "dictdata.c"
int main(void) { int i; for (i = 0; i < n_entries; i++) { printf("%s%c%s%c", dict[i].key, 1, dict[i].val, 2); } return 0; }
'''
def test_embed(ctx, c):
    d = work(ctx); ls = [l for f in c['f'] for l in f]; text = ''.join(l + '\n' for l in ls)
    p, b = compile_(ctx, text); m = entries(b)
    if p.rc: return 'smujajgau: status %d' % p.rc
    if not m: return
    o = perl(ctx, 'dict2inc.pl', d, inp=text.encode('latin1'))
    if o.rc: return 'dict2inc.pl fails: %s' % o.err[:300]
    open(os.path.join(d, 'dictdata.c'), 'w', encoding='latin1').write(o.out); open(os.path.join(d, 'drv.c'), 'w').write(DRIVER)
    o = ctx.run('gcc', ['-w', '-O0', '-o', 'drv', 'drv.c'], cwd=d, path='/usr/bin/gcc', timeout=60)
    if o.rc: return 'what dict2inc.pl makes cannot be compiled: %s' % o.err[:400]
    o = ctx.run('drv', cwd=d, path=os.path.join(d, 'drv')); prs = [x.split('\1') for x in o.out.split('\2')[:-1]]
    if len(m) >= 5: ctx.nontrivial(text)
    r = differ(dict(prs), m, 'dict2inc.pl')
    if r: return r
    ks = [k.encode('latin1') for k, _ in prs]
    if ks != sorted(set(ks)): return 'dict2inc.pl: the entries are not in the order the lookup needs, each once: %r' % ks
def shipped(ctx):
    """the map the word lists and sources in the tree stand for, read by columns"""
    g = ctx.b.dirs['gen']; rd = lambda n: open(os.path.join(g, n), encoding='latin1').read().split('\n'); m = {}
    for l in rd('reduced_gismu'):
        if not l.strip(): continue
        x = l[:6].strip(); e = l[19:39].rstrip(); m[x] = e
        for r in l[6:18].split() + ([x[:4]] if len(x) == 5 else []): m['%' + r] = e; m['@' + r] = x
    for l in rd('reduced_cmavo'):
        if not l.strip(): continue
        x = l[:10].strip().lstrip('.'); m[x] = l[20:60].rstrip(); m['+' + x] = l[10:16].strip().lstrip('.')
    for f in ('extradict', 'places.dat', 'patterns'):
        for l in rd(f): dictm.apply(m, l)
    return m
SH = {}
def gen_shipped(rng, i): return {'k': [rng.randrange(1 << 20) for _ in range(300)]}
def test_shipped(ctx, c):
    if not SH:
        SH['m'] = shipped(ctx); SH['file'] = entries(open(os.path.join(ctx.b.dirs['gen'], 'smujmaji.dat'), 'rb').read())
        d = work(ctx); open(os.path.join(d, 'dictdata.c'), 'wb').write(open(os.path.join(ctx.b.dirs['embed'], 'dictdata.c'), 'rb').read()); open(os.path.join(d, 'drv.c'), 'w').write(DRIVER)
        o = ctx.run('gcc', ['-w', '-O0', '-o', 'drv', 'drv.c'], cwd=d, path='/usr/bin/gcc', timeout=60)
        SH['embed'] = dict(x.split('\1') for x in ctx.run('drv', cwd=d, path=os.path.join(d, 'drv')).out.split('\2')[:-1]); SH['all'] = sorted(set(SH['m']) | set(SH['file']) | set(SH['embed']))
    ctx.nontrivial(str(c))
    for k in c['k']:
        k = SH['all'][k % len(SH['all'])]; want = SH['m'].get(k)
        for n, t in (('file', 'the shipped dictionary'), ('embed', 'the built-in dictionary')):
            if SH[n].get(k) != want: return '%s: the entry of %r is %r instead of %r' % (t, k, SH[n].get(k), want)
def families(): return [Family('lists', gen_lists, test_lists, 1500, 30000), Family('lujvo', gen_lujvo, test_lujvo, 1200, 20000), Family('embed', gen_embed, test_embed, 1200, 20000), Family('shipped', gen_shipped, test_shipped, 60, 600)]
