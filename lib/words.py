"""Generators of Lojban-like word forms, and the state cover of the reference morphology automaton."""
import sys
from collections import deque
from model import morph
V = 'aeiou'; C = 'bcdfgjklmnprstvxz'
CHARS = "aeiouy'bcdfgjklmnprstvxz"
SHAPES = ['CV', 'CV', 'CVV', 'CVC', 'CVCy', 'CCV', 'CVCCV', 'CCVCV', 'V', 'VV', "CV'V", "V'V", 'Cy', 'CVCCy', 'r', 'n', 'CVVr', 'CCVCy', 'C', 'y', ',', 'iV', 'uV', 'CVVn', 'CVCCr', 'CVCCl', 'CVCr']
def fill(rng, sh): return ''.join(rng.choice(C) if c == 'C' else rng.choice(V) if c == 'V' else c for c in sh)
INITS = sorted(morph.INITIAL)
def raw_word(rng):
    k = rng.random(); n = rng.randint(1, 14)
    if k < .2: s = ''.join(rng.choice(V + C + "y'," + V + V) for _ in range(n))
    else:
        s = ''
        for _ in range(rng.choice([1, 1, 2, 2, 3, 3, 4, 5, 6])):
            sh = rng.choice(SHAPES); p = fill(rng, sh)
            if sh.startswith('CC') and rng.random() < .8: p = rng.choice(INITS) + p[2:]
            s += p
        if rng.random() < .15: s += rng.choice(C)
    if rng.random() < .12: i = rng.randrange(len(s)); s = s[:i] + s[i].upper() + s[i + 1:]
    if rng.random() < .08: i = rng.randrange(len(s) + 1); s = s[:i] + ',' + s[i:]
    if rng.random() < .1: i = rng.randrange(len(s) + 1); s = s[:i] + rng.choice(['la', 'doi', "la'i", 'lai', 'la', 'doi']) + s[i:]
    return s
_cover = None
def cover():
    """[(access word, key)] for every reachable state of front end x morphology automaton x cmene-validity automaton"""
    global _cover
    if _cover is not None: return _cover
    M = morph.nfa('morf_nfa.in'); Bc = morph.nfa('bctables.in')
    start = (('', None, 'C', 'C'), M.init, Bc.init); seen = {start: ''}; q = deque([start])
    def fe(f, c):
        L, S, p2, p1 = f
        if c in morph.VOW or c == 'y':
            t = morph.vowel_token(p2, p1, c)
            if c != 'y': L = ''; S = None
            return (L, S, p1, c), t
        if c == "'": return ('', None, p1, 'C'), 'APOS'
        return ('' if S is None else S if S in 'nr' else 'C', c, p1, 'C'), morph.cons_token(L, S, c)
    while q:
        x = q.popleft(); w = seen[x]
        for c in CHARS:
            f, t = fe(x[0], c); m = M.step(x[1], t)
            if m < 0: continue
            b = Bc.step(x[2], c.upper() if c in 'aeiouydl' else 'APOS' if c == "'" else 'OCONS') if x[2] >= 0 else -1
            if b >= 0 and Bc.result_of(b).startswith('BC_CMENE_BAD'): continue
            n = (f, m, b)
            if n not in seen: seen[n] = w + c; q.append(n)
    _cover = list(seen.values()); return _cover
