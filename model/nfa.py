"""Independent reading of the automaton description language and direct simulation of the NFA it describes."""
import re

LIMIT = 1 << 20
class SpecError(Exception): pass
class TooBig(Exception): pass

KW = {}
for canon, forms in {
    'STATE': 'STATE State state', 'ABBREV': 'ABBREV Abbrev abbrev', 'DEFINE': 'DEFINE Define define',
    'TOKENS': 'TOKENS Tokens tokens', 'PREFIX': 'PREFIX Prefix prefix', 'BLOCK': 'BLOCK Block block',
    'ENDBLOCK': 'ENDBLOCK EndBlock Endblock endblock', 'TYPE': 'TYPE Type type', 'RESULT': 'RESULT Result result',
    'EARLYRESULT': 'EARLYRESULT EarlyResult Earlyresult earlyresult',
    'ATTR': 'ATTRIBUTE ATTR Attribute Attr attribute attr', 'DEFATTR': 'DEFATTR DefAttr Defattr defattr',
    'DEFRESULT': 'DEFRESULT DefResult Defresult defresult', 'SYMBOL': 'SYMBOL Symbol symbol',
    'SYMRESULT': 'SYMRESULT SymResult Symresult symresult',
    'EARLYSYMRESULT': 'EARLYSYMRESULT EarlySymResult EarlySymresult Earlysymresult earlysymresult'}.items():
    for f in forms.split(): KW[f] = canon

def lex(src):
    src = re.sub(r'(?ms)^%\{[ \t]*\n.*?^%\}[ \t]*\n', '', src)
    out = []; i = 0
    while i < len(src):
        c = src[i]
        if c in ' \t\n': i += 1; continue
        if c == '#':
            while i < len(src) and src[i] != '\n': i += 1
            continue
        if c == '"':
            j = src.index('"', i + 1); out.append(('STRING', src[i + 1:j])); i = j + 1; continue
        m = re.match(r'[A-Za-z0-9_.]+', src[i:])
        if m:
            w = m.group(); out.append((KW[w], w) if w in KW else ('STRING', w)); i += len(w); continue
        if src.startswith('->', i): out.append(('->', '->')); i += 2; continue
        if c in '=|&~!^*?:;()<>,':
            out.append(('~' if c == '!' else c, c)); i += 1; continue
        raise SpecError('char %r' % c)
    out.append(('EOF', ''))
    return out

class Block:
    def __init__(s): s.states = {}; s.n = 0
    def st(s, name):
        if name not in s.states: s.states[name] = {'t': [], 'x': set(), 'a': set()}
        return s.states[name]
    def fresh(s):
        s.n += 1; nm = '#%d' % s.n; s.st(nm); return nm

class Evaluator:
    def __init__(s): s.results = []; s.symbols = {}; s.default = None; s.used = False; s.type = 'short'
    def evaluate(s, tags):
        """-> (ambiguous, result or None, early)"""
        any_so_far = [False]; busy = set()
        def ev(e):
            k = e[0]
            if k == 'sym':
                if e[1] in s.symbols:
                    if e[1] in busy: raise SpecError('symbol defined by itself')
                    busy.add(e[1]); v = ev(s.symbols[e[1]]); busy.discard(e[1]); return v
                return e[1] in tags
            if k == 'not': return not ev(e[1])
            if k == 'and': return ev(e[1]) and ev(e[2])
            if k == 'or': return ev(e[1]) or ev(e[2])
            if k == 'xor': return ev(e[1]) != ev(e[2])
            if k == 'cond': return ev(e[2]) if ev(e[1]) else ev(e[3])
            if k == 'wild': return any_so_far[0]
        for t in tags:
            if t in s.symbols: raise SpecError('tag is an expression: ' + t)
        m = None
        for r, e, early in s.results:
            if ev(e):
                if any_so_far[0]: return True, None, False
                any_so_far[0] = True; m = (r, early)
        return (False, None, False) if m is None else (False, m[0], m[1])

class NFA:
    def __init__(self, src):
        self.toks = lex(src); self.i = 0
        self.tokens = []; self.abbrev = {}; self.blocks = {}; self.prefix = None
        self.exit = Evaluator(); self.attr = Evaluator()
        self.start = None; self.odd = False
        self.parse()
        self.prepare()
    # --- parsing
    def peek(self, k=0): return self.toks[min(self.i + k, len(self.toks) - 1)][0]
    def next(self, want=None):
        t = self.toks[self.i]; self.i += 1
        if want and t[0] != want: raise SpecError('want %s got %r' % (want, t))
        return t[1]
    def parse(self):
        while self.peek() != 'EOF':
            k = self.peek()
            if k == 'TOKENS':
                self.next()
                if self.peek() != 'STRING': raise SpecError('tokens')
                while self.peek() == 'STRING':
                    t = self.next()
                    if t in self.tokens: raise SpecError('dup token')
                    self.tokens.append(t)
            elif k == 'PREFIX': self.next(); self.prefix = self.next('STRING')
            elif k == 'ABBREV':
                self.next(); n = self.next('STRING'); self.next('='); l = [self.next('STRING')]
                while self.peek() == '|': self.next(); l.append(self.next('STRING'))
                self.abbrev[n] = l
            elif k == 'BLOCK': self.block()
            elif k in ('RESULT', 'EARLYRESULT', 'SYMRESULT', 'EARLYSYMRESULT', 'SYMBOL', 'DEFRESULT', 'TYPE'):
                self.result(self.exit)
            elif k == 'ATTR':
                self.next()
                if self.peek() not in ('RESULT', 'SYMRESULT', 'SYMBOL', 'DEFRESULT', 'TYPE'): raise SpecError('attr')
                self.result(self.attr)
            elif k == 'DEFATTR': self.next(); self.attr.default = self.next('STRING'); self.attr.used = True
            else: raise SpecError('decl %r' % (self.toks[self.i],))
    def result(self, ev):
        k = self.peek(); self.next(); ev.used = True
        early = k.startswith('EARLY')
        if k in ('RESULT', 'EARLYRESULT'):
            e = self.expr()
            if self.peek() == '->': self.next(); ev.results.append((self.next('STRING'), e, early))
            else:
                if e[0] != 'sym': raise SpecError('result')
                ev.results.append((e[1], e, early))
        elif k in ('SYMRESULT', 'EARLYSYMRESULT'):
            e = self.expr(); self.next('->'); n = self.next('STRING')
            ev.symbols[n] = e; ev.results.append((n, e, early))
        elif k == 'SYMBOL':
            n = self.next('STRING'); self.next('='); ev.symbols[n] = self.expr()
        elif k == 'DEFRESULT': ev.default = self.next('STRING')
        elif k == 'TYPE': ev.type = self.next('STRING')
    # precedence, loosest first: ?: (right), |, ^, &, ~
    def expr(self):
        c = self.e_or()
        if self.peek() == '?':
            self.next(); a = self.expr(); self.next(':'); b = self.expr()
            return ('cond', c, a, b)
        return c
    def e_or(self):
        a = self.e_xor()
        while self.peek() == '|': self.next(); a = ('or', a, self.e_xor())
        return a
    def e_xor(self):
        a = self.e_and()
        while self.peek() == '^': self.next(); a = ('xor', a, self.e_and())
        return a
    def e_and(self):
        a = self.e_not()
        while self.peek() == '&': self.next(); a = ('and', a, self.e_not())
        return a
    def e_not(self):
        k = self.peek()
        if k == '~': self.next(); return ('not', self.e_not())
        if k == '(':
            self.next(); e = self.expr(); self.next(')'); return e
        if k == '*': self.next(); return ('wild',)
        return ('sym', self.next('STRING'))
    # --- blocks
    def expand(self, name, busy=()):
        if name in self.abbrev:
            if name in busy: raise SpecError('abbrev recursion')
            return [t for x in self.abbrev[name] for t in self.expand(x, busy + (name,))]
        if name not in self.tokens: raise SpecError('undeclared token ' + name)
        return [name]
    def instantiate(self, b, master, inst):
        if master not in self.blocks: raise SpecError('no block ' + master)
        if self.blocks[master] is b: raise SpecError('block inside itself ' + master)
        for n, s in list(self.blocks[master].states.items()):
            if inst + '.' + n in b.states: self.odd = True # two instances share a state: not judged
            d = b.st(inst + '.' + n)
            if len(b.states) > LIMIT: raise TooBig()
            d['t'] += [(t, inst + '.' + q) for t, q in s['t']]
            d['x'] |= s['x']; d['a'] |= s['a']
    def block(self):
        self.next(); name = self.next('STRING')
        if name in self.blocks: raise SpecError('dup block')
        b = Block(); self.blocks[name] = b
        self.start = None
        nin = [0]
        while self.peek() == 'STRING':
            inst = self.next(); self.next(':'); self.instantiate(b, self.next('STRING'), inst)
        while self.peek() == 'STATE':
            self.next(); cur = self.next('STRING'); b.st(cur); self.start = (name, cur)
            if self.peek() == '(':
                self.next(); b.st(cur)['a'].add(self.next('STRING')); self.next(')')
            while self.peek() not in ('STATE', 'ENDBLOCK'):
                at = cur; pend = None
                while True:
                    if pend is not None:
                        n = b.fresh(); self.link(b, at, pend, n); at = n
                    if self.peek() == '<':
                        out = b.fresh()
                        while True:
                            if self.peek() == '<':
                                self.next(); ty = self.next('STRING'); self.next(':'); i = self.next('STRING')
                                self.next('->'); o = self.next('STRING'); self.next('>')
                                nin[0] += 1; inst = '%s#%d' % (ty, nin[0])
                                self.instantiate(b, ty, inst)
                                b.st(at)['t'].append((None, inst + '.' + i)); b.st(inst + '.' + i)
                                b.st(inst + '.' + o)['t'].append((None, out))
                            else: b.st(at)['t'].append((None, out))
                            if self.peek() == '|': self.next(); continue
                            break
                        at = out; pend = [None]
                    else:
                        pend = []
                        while True:
                            if self.peek() == 'STRING': pend.append(self.next())
                            else: pend.append(None)
                            if self.peek() == '|': self.next(); continue
                            break
                    if self.peek() == ';': self.next(); continue
                    break
                if self.peek() == '->':
                    self.next(); self.link(b, at, pend, self.next('STRING'))
                    while self.peek() == ',': self.next(); self.link(b, at, pend, self.next('STRING'))
                elif self.peek() == '=':
                    self.next(); n = b.fresh(); self.link(b, at, pend, n); b.st(n)['x'].add(self.next('STRING'))
                else: raise SpecError('transition')
        self.next('ENDBLOCK')
        # destinations are created by reference
        for s in list(b.states.values()):
            for t, q in s['t']: b.st(q)
    def link(self, b, frm, opts, to):
        for o in opts:
            if o is None: b.st(frm)['t'].append((None, to))
            else:
                for t in self.expand(o): b.st(frm)['t'].append((t, to))
        b.st(to) if not to.startswith('\0') else None
    # --- simulation
    def prepare(self):
        if self.start is None: raise SpecError('no start')
        b = self.blocks[self.start[0]]; S = b.states
        self.S = S
        self.idx = {n: i for i, n in enumerate(S)}
        eps = {n: [q for t, q in s['t'] if t is None] for n, s in S.items()}
        self.clo = {}
        for n in S:
            seen = {n}; w = [n]
            while w:
                x = w.pop()
                for q in eps[x]:
                    if q not in seen: seen.add(q); w.append(q)
            self.clo[n] = seen
        self.tt = {}
        for n, s in S.items():
            d = {}
            for t, q in s['t']:
                if t is not None: d.setdefault(t, set()).update(self.clo[q])
            self.tt[n] = d
        self.dstates = {}; self.dl = []; self.dtrans = []; self.dinfo = []
        self.init = self._d(frozenset(self.clo[self.start[1]]))
    def _d(self, fs):
        if not fs: return -1
        i = self.dstates.get(fs)
        if i is None:
            i = len(self.dl); self.dstates[fs] = i; self.dl.append(fs); self.dtrans.append({})
            tags = set(); at = set()
            for n in fs: tags |= self.S[n]['x']; at |= self.S[n]['a']
            amb, r, early = self.exit.evaluate(tags)
            amb2, a, _ = self.attr.evaluate(at)
            self.dinfo.append((amb or amb2, r if r is not None else self.exit.default, early,
                               a if a is not None else self.attr.default))
        return i
    def step(self, d, tok):
        if d < 0: return -1
        t = self.dtrans[d]
        if tok not in t:
            x = set()
            for n in self.dl[d]:
                y = self.tt[n].get(tok)
                if y: x |= y
            t[tok] = self._d(frozenset(x))
        return t[tok]
    def result_of(self, d): return self.dinfo[d][1]
    def early_of(self, d): return self.dinfo[d][2]
    def attr_of(self, d): return self.dinfo[d][3]
    def explore(self, cap=None):
        """Full subset construction; returns True if any reachable state is ambiguous, None if there are more states than cap."""
        i = 0; amb = False
        while i < len(self.dl):
            if cap and len(self.dl) > cap: return None
            amb |= self.dinfo[i][0]
            if not self.dinfo[i][2]:
                for t in self.tokens: self.step(i, t)
            i += 1
        return amb
