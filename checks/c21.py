"""C21: numbers that refer to constructs. The LaTeX output is parsed into words and numbered brackets; each number used in a gloss of ke'a or in a place tag must be that of a bracket around exactly the words of the construct meant."""
import os, re
from lib.harness import Family
from lib import gen as G, jbo
from lib.bridi import B as Bridi, KOHA
from model import parse, gloss, dictm, places
from model.parse import Nt
from model.places import isn, kid
from checks.c15 import read, Ill
from checks.c13 import norm
PROGS = ['jbofihe', 'smujajgau']
RULE = ("a case is an accepted text (natural bridi with relative clauses and ke'a, me, number + moi, nu'a, zei compounds and jai with tags; random derivations of the whole grammar). For each ke'a with an antecedent and each "
        "place tag that names a construct by number, the bracket of that number must hold exactly the words of the construct. Non-trivial: at least one such number; distinct by text.")
ASSUMPTIONS = ["not judged: ke'a with a subscript, in a relative phrase (goi, pe ..) or in a relative clause before its noun; texts the place rules do not cover (see C14)"]
DICT = {}
ENT = ["ke'a:KEHA", 'zzzzz1:z'] + ['me%d:M%%dM' % p for p in range(1, 20)] + ['%s%d:N%%dN' % (w, p) for w in ('moi', 'mei', "si'e", "cu'o", "va'e") for p in range(1, 20)]
def setup(ctx, tier):
    G.gram().pairs(); d = os.path.join(ctx.scratch, 'n.dat'); t = os.path.join(ctx.scratch, 'n.txt'); open(t, 'w').write('\n'.join(ENT) + '\n')
    p = ctx.run('smujajgau', [d, t]); DICT['d'] = d; DICT['m'] = {}
    for l in ENT: dictm.apply(DICT['m'], l)
    if p.rc: raise Exception('smujajgau: %r' % p)
def gen_bridi(rng, i):
    a, b, c = rng.choice([.1, .3, .5]), rng.choice([0, .1, .3]), rng.choice([0, .1, .3])
    while 1:
        g = Bridi(rng); s = g.text(rng.choice([2, 2, 3, 3]))
        if len(s) > 700: continue
        o = []
        for w in s.split():
            if w in KOHA and rng.random() < a: w = "ke'a"
            elif w in ('broda', 'brode', 'klama') and rng.random() < b:
                o += rng.choice([['me', "ko'a"], ['me', 'lo', 'broda', "me'u"], ['pa', 'moi'], ['re', 'pa', 'mei'], ['ny', 'moi'], ["nu'a", "su'i"], ['broda', 'zei'], ['jai', 'bau'], ['jai', 'pu'], ['se', 'jai', "ri'a"], ['ge', "ko'a", 'gi', "ke'a", 'pa', 'moi'][4:]])
                if o[-1] not in ('zei', 'bau', 'pu', "ri'a"): continue
            if w in KOHA and rng.random() < c:
                R = rng.choice(["poi ke'a broda ku'o", "noi mi klama ke'a ku'o", "poi broda lo se klama be ke'a ku ku'o", "voi ke'a klama ke'a ku'o", "noi zo'u ke'a broda ku'o zi'e poi ke'a brode ku'o", "poi ge ke'a broda gi klama ke'a vau ku'o"])
                o += rng.choice(["lo le brode ku %s broda ku", "le la'e ko'a lu'u %s broda ku", "lo lu broda li'u %s brode ku", "re lo la djan %s broda ku", "lo re lo brode ku %s re broda ku", "le le brodi be ko'a ku %s klama ku"]).replace('%s', R).split() if rng.random() < .3 else rng.choice(["tu'a %s ko'a lu'u", "la'e %s ko'a poi ke'a broda lu'u", "na'e bo %s ko'a lu'u", "la %s djan", "la djan %s", "ko'a .e ko'e vu'o %s", "ko'a vu'o %s", "lo ko'a %s broda ku", "lo broda %s ku", "lo broda ku %s", "re broda %s", "re broda ku %s",
                                 "lo re ko'a %s", "ko'a doi broda %s do'u", "ko'a doi %s broda do'u", "ko'a coi djan %s do'u", "ko'a doi %s djan do'u", "ko'a doi ko'e %s do'u", "lo %s broda ku", "li pa lo'o %s", "lu broda li'u %s", "ko'a ke'e"[:4] + " %s"]).replace('%s', R).split(); continue
            o.append(w)
            if w in KOHA and rng.random() < c: o += rng.choice([['poi', "ke'a", 'broda'], ['noi', 'broda', "ke'a", "ku'o"], ['.ui'], ['poi', 'mi', 'klama', "ke'a", 'poi', "ke'a", 'brode']])
        s = ' '.join(o) + '\n'
        if parse.analyse(s)[0] == 'ok' or rng.random() < .02: return {'s': s}
def gen_gram(rng, i):
    while 1:
        s = ' '.join("ke'a" if w in KOHA and rng.random() < .5 else w for w in G.words(rng, i, budget=rng.choice([15, 25, 40, 60]), dec=.02, mut=0)) + '\n'
        if parse.analyse(s)[0] == 'ok' or rng.random() < .02: return {'s': s}
class Spans(gloss.Text):
    def __init__(self, top, m): self.span = {}; self.n = 0; super().__init__(top, m)
    def l(self, w, mode):
        super().l(w, mode); self.n += mode != gloss.ENG
    def go(self, n, mode):
        a = self.n; super().go(n, mode)
        if isinstance(n, Nt) and mode != gloss.ENG: self.span[id(n)] = (a, self.n)
    def word(self, t, mode):
        a = self.n; super().word(t, mode)
        if mode != gloss.ENG: self.span[id(t)] = (a, self.n)
    def antecedent(self, t):
        """node the ke'a stands for; None: none, False: not judged"""
        for n in self.up(t):
            if n.name == 'CHUNKS': return None
            if n.name == 'SUMTI_6' and len(n.kids) > 1: return False
            if n.name == 'RELATIVE_CLAUSE': break
        else: return None
        if not isn(n.kids[0], 'FULL_RELATIVE_CLAUSE'): return False
        while n.name != 'RELATIVE_CLAUSES': n = self.parent[id(n)]
        e = self.parent[id(n)]
        if e.name in ('SUMTI', 'SUMTI_5', 'SUMTI_TAIL_1'): return e.kids[0]
        if e.name in ('LAHE_SUMTI_6', 'NAHE_BO_SUMTI_6'): return kid(e, 'SUMTI')
        if e.name in ('NAME_SUMTI_6', 'FREE_VOCATIVE'): return e
        if e.name == 'SUMTI_TAIL': return kid(e, 'SUMTI_6') or False
        return None if e.name == 'FRAGMENT' else False
def test(ctx, c):
    s = c['s']; r = parse.analyse(s)
    if r[0] != 'ok': ctx.label('refused'); return None
    t = Spans(parse.tree(r[1]), DICT['m'])
    p = ctx.run('jbofihe', ['-l'], s, env={'JBOFIHE_DICTIONARY': DICT['d']})
    if p.rc: return 'status %d for an accepted text: %s' % (p.rc, p.err[:300])
    if re.search(r"shouldn't|unhandled context|internal error|assert", p.err, re.I): return 'a text is accepted, but jbofihe finds its own analysis impossible: %r' % p.err[:300]
    try: ev = read(p.out)
    except Ill as x: return str(x)
    n = 0; br = {}; gl = {}; tg = []
    for e in ev:
        if e[0] == 'l': n += 1
        elif e[0] == 'e': gl.setdefault(n - 1, []).append(e[1])
        elif e[0] == 'o': br[e[2]] = n
        elif e[0] == 'c': br[e[2]] = (br[e[2]], n)
        elif e[0] == 't': tg.append((n, ''.join(e[1])))
    words = [norm(e[1]) for e in ev if e[0] == 'l']; ref = [norm(e[1]) for e in t.ev if e[0] == 'l']
    if words != ref: return 'the words shown are %s instead of %s' % (words, ref)
    say = lambda x: ' '.join(words[x[0]:x[1]])
    found = 0
    for x in t.leaf.values():
        if x.t != 'CMAVO' or x.w != "ke'a": continue
        a = t.antecedent(x); i = t.span[id(x)][0]
        if a is False: ctx.label("ke'a not judged"); continue
        g = next((y for y in gl.get(i, []) if y.startswith('KEHA')), None)
        if g is None: return "no gloss for the ke'a after %r" % say((0, i))
        m = re.search(r'#(\d+)$', g)
        if a is None:
            ctx.label("ke'a without antecedent")
            if m: return "the ke'a after %r, outside all relative clauses, refers to #%s" % (say((0, i)), m.group(1))
            continue
        found += 1; ctx.label("ke'a of " + t.parent[id(a)].name if t.parent.get(id(a)) else 'x')
        want = t.span[id(a)]
        if not m: return "the ke'a after %r does not refer to %r" % (say((0, i)), say(want))
        if br.get(int(m.group(1))) != want: return "the ke'a after %r refers to #%s, %r, instead of %r" % (say((0, i)), m.group(1), say(br.get(int(m.group(1)), (0, 0))), say(want))
    if t.judged:
        n = 0; exp = []
        for e in t.ev:
            if e[0] == 'l': n += 1
            elif e[0] == 't' and id(e[1]) in t.labels: exp.append((n, t.labels[id(e[1])]))
        if [x[0] for x in exp] != [x[0] for x in tg]: return 'tags before the words %s instead of %s' % ([x[0] for x in tg], [x[0] for x in exp])
        for (i, ls), (_, x) in zip(exp, tg):
            x = x.replace(' ', ''); want = []
            for k, w, key, pos in ls:
                if k == 'me': want.append(('me%d' % pos, kid(t.parent[key], 'SUMTI')))
                elif k == 'moi': want.append(('%s%d' % (w, pos), t_kid(t, key)))
                elif k == 'num': want.append(('%d' % pos, t.leaf[key] if t.leaf[key].t == 'ZEI' else kid(t.parent[key], 'MEX_OPERATOR')))
                elif k == 'jai': want.append(('jai', kid(t_node(t, key), 'TANRU_UNIT_2')))
            if not want: continue
            got = [('me' + a, int(b)) for a, b in re.findall(r'me(\d+)\.\.\(M(\d+)M', x)]
            for a, b, d in re.findall(r"#(\d+)-([a-z'][a-z',]*\d+)\((N\d+N)?", x):
                got.append((b, int(a)))
                if d and d[1:-1] != a: return 'the tag %s calls one number #%s and #%s' % (x, a, d[1:-1])
            got += [(b, int(a)) for a, b in re.findall(r'#(\d+)-(\d+)\(', x)] + [('jai', int(a)) for a in re.findall(r'jai\+<tag>1:\([^#]*#(\d+)\)', x)]
            A = sorted((a, t.span[id(b)]) for a, b in want)
            bad = [b for a, b in got if b not in br]
            if bad: return 'the tags %s before %r refer to #%d, which is no bracket' % (x, words[i], bad[0])
            Z = sorted((a, br[b]) for a, b in got); found += len(A)
            for a, _ in A: ctx.label('tag of ' + re.sub(r'\d', '', a) if re.sub(r'\d', '', a) else "tag of zei or nu'a")
            if A != Z: return 'the tags %s before %r refer to %s instead of %s' % (x, words[i], [(a, say(b)) for a, b in Z], [(a, say(b)) for a, b in A])
    ctx.label('%d references' % min(found, 8))
    if found: ctx.nontrivial(s)
def t_node(t, key):
    for n in places.walk(t.top):
        if id(n) == key: return n
def t_kid(t, key): return t_node(t, key).kids[0]
def families(): return [Family('bridi', gen_bridi, test, 5000, 150000, jbo.shrink), Family('grammar', gen_gram, test, 2500, 80000, jbo.shrink)]
