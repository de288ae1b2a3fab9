"""Running jbofihe and reading what it prints; the reference's account of the same."""
import re
from model import parse, text as T
OUTOPTS = [[], ['-t'], ['-tf'], ['-x'], ['-H'], ['-l'], ['-x', '-b'], ['-x', '-b', '-w', '60'], ['-l', '-b'], ['-ie'], ['-ie', '-t'], ['-ie', '-x'], ['-g'], ['-cr'], ['-m'],
           ['-bt'], ['-se'], ['-sev'], ['-dd', '-x'], ['-k'], ['-ie', '-H'], ['-w', '40', '-x', '-b']]
def nowarn(o): return '\n'.join(l for l in o.split('\n') if not l.startswith('Warning'))
def squash(o): return ''.join(o.split())
def details(t):
    """how a token is named in an error report"""
    at = ' (line %d, col %d)' % (t.line, t.col)
    if t.t == 'MARKER': return 'MARKER'
    if t.t == 'CMAVO': return '%s [%s]%s' % (t.w, t.ssm, at)
    if t.t == 'ZOI': return '%s %s. %s %s.%s' % (t.form, t.term, t.w, t.term, at)
    if t.t == 'ZO': return 'zo %s%s' % (t.w, at)
    if t.t == 'LOhU': return "lo'u %s le'u%s" % (t.w, at)
    if t.t == 'ZEI': return t.w + at
    if t.t == 'BU': return '%s bu%s' % (t.w, at)
    if t.t in ('BRIVLA', 'CMENE'): return '%s [%s]%s' % (t.w, t.t, at)
    return '<Incomplete SI erasure>' + at
def expected_report(e):
    """(misparsed, [latest parsed, newest first]) for a parse.SyntaxErr"""
    mis = details(e.toks[e.idx]) if e.idx < len(e.toks) else None
    prev = [details(t) for t in e.toks[:e.idx]][::-1][:8]
    return mis, prev
def report(err):
    m = re.search(r'Misparsed token :\n  (.*)\nLatest successfully parsed tokens :\n((?:  .*\n)*)', err)
    if not m: return None
    f = lambda l: 'MARKER' if l.startswith('MARKER') else l
    mis = m.group(1); prev = [f(l[2:]) for l in m.group(2).split('\n')[:-1]]
    return (None if mis == '<End of text>' else f(mis)), prev
def forced(err): return re.findall(r'(?m)^(.*) at line (\d+) column (\d+)$', err)
def shrink(case):
    """smaller texts: chunks between blanks are removed or blanks made plain; then options are removed"""
    s = case['s']; ws = s.split()
    j = ' '.join(ws) + '\n'
    if j != s: yield dict(case, s=j)
    n = len(ws); k = max(n // 2, 1)
    while k >= 1 and n:
        for i in range(0, n, k): yield dict(case, s=' '.join(ws[:i] + ws[i + k:]) + '\n')
        k //= 2
    for key in case:
        if key != 's' and isinstance(case[key], list) and case[key]: yield dict(case, **{key: []})

KIND = {'CMAVO': 'CMV', 'BRIVLA': 'BRV', 'CMENE': 'CMN', 'ZO': 'ZO', 'ZOI': 'ZOI', 'LOhU': 'LOhU', 'ZEI': 'ZEI', 'BU': 'BU', 'BROKEN': 'BKN'}
def klist(toks): return [(KIND[t.t], t.w if t.t != 'BROKEN' else '(broken erasure)') for t in toks if t.t != 'MARKER']
def kparse(out):
    """-k output -> (words before preprocessing, units after it or None, rest)"""
    m = re.match(r'\nToken list before preprocessing\n\n(.*?)(?:-{30}\nToken list after preprocessing\n\n(.*?)-{30}\n\n(.*))?$', out, re.S)
    if not m: return None
    def f(b):
        o = []
        for l in (b or '').split('\n'):
            x = re.match(r'(\w+) *: (.*)$', l)
            if not x or x.group(1) == 'MAR': continue
            k, w = x.groups(); o.append((k, w.split(' [')[0] if k == 'CMV' else w))
        return o
    return f(m.group(1)), (f(m.group(2)) if m.group(2) is not None else None), m.group(3) or ''
def noplace(err): return re.sub(r'\(line \d+, col \d+\)|line \d+ column \d+|MARKER : \S+', '', err)
