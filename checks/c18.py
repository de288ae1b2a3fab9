"""C18: memory safety, termination and exit statuses of every program. Oracle: AddressSanitizer, UndefinedBehaviorSanitizer, MemorySanitizer, exit status, time limit."""
import os, re, random
from lib.harness import Family
from lib import gen as G, words as WD
from checks import c17
BUILDS = ('asan', 'msan')
DFASYN_ASAN = True
RULE = ("A case is one program run with generated options and input (grammatical and damaged texts, words and word soup rich in erasures, quotations and compounds, raw bytes, very long words, "
        "numbers, lists and nests, dictionary sources with odd entries and a text glossed with them, automaton descriptions) in builds instrumented for address, undefined behaviour and uninitialised "
        "memory errors; it must end by itself with a documented status. Non-trivial: the program got past its first input item (some output on either stream); distinctness is by the input.")
ASSUMPTIONS = ['inputs are at most some 20000 words; nests at most 2000 deep', 'compiled dictionary files are only those smujajgau wrote']
BAD = re.compile(r'Sanitizer|runtime error|[Aa]ssertion|An unexpected error|Internal error|Interal error|stack smashing|buffer overflow|double free|corrupted|free\(\)|malloc\(\)')
OK = {'jbofihe': {0, 1, 2, 3}, 'cmafihe': {0, 1, 2}, 'vlatai': {0, 1}, 'jvocuhadju': {0, 1, 2}, 'smujajgau': {0, 1, 2}, 'dfasyn': {0, 1, 2}}
def judge(ctx, prog, args, inp, env=None, kinds=('asan', 'msan'), path=None):
    for k in kinds:
        o = ctx.run(prog, args, inp, kind=k, env=env, timeout=30, path=path and path.replace('KIND', ctx.b.dirs[k]), binary=True)
        er = o.err.decode('latin1'); m = BAD.search(er) if prog != 'dfasyn' or o.rc not in (0, 1, 2) else re.search('Sanitizer|runtime error', er)
        if m or o.rc not in OK[prog]:
            i = m.start() if m else max(0, len(er) - 300)
            if m and prog == 'jbofihe' and o.rc in OK[prog] and 'Sanitizer' not in m.group() and m.group() in (inp if isinstance(inp, str) else inp.decode('latin1')): continue
            loc = re.findall(r'#\d+ \S+ in (\w+) \S*?/?([\w.]+:\d+)', er)[:4]
            return '%s (%s) status %d: %s %s' % (prog, k, o.rc, er[i:i + 200].replace('\n', ' '), loc)
        if o.out or o.err: ctx.nontrivial((prog, tuple(args), inp))
    return None
SOUP = "zoi la'o zo lo'u le'u lu li'u si sa su zei bu ba'e nai cai pei y fa'o to toi ku'i fu'e fu'o da'o cu ku kei vau i ni'o ni'oni'o no'i mi do broda klama la doi djan. se te jai fai fa fi'a be bei be'o co ke ke'e bo na na'e je gi ge go'i nu li pa re vei ve'o boi me'o me moi mei nu'a ju'e nuhi nu'i nu'u ce'e pe'e noi goi ku'o ge'u xi tei foi by ky lau fi'o fe'u fe'e pu ki ca ba'o vi zi roroi mo'i va ui .a ja joi ce fa'u bi'i ga'o gu'e gek".split()
def soup(rng):
    n = rng.choice([1, 2, 3, 5, 8, 12, 20, 40])
    o = [rng.choice(SOUP) if rng.random() < .75 else rng.choice(G.ALLCM) if rng.random() < .6 else G.brivla(rng) for _ in range(n)]
    return ''.join(w + rng.choice([' ', ' ', ' ', '', '.', '\n', ',', '. ']) for w in o)
def raw(rng):
    k = rng.random(); n = rng.choice([0, 1, 2, 5, 20, 100])
    if k < .4: return ''.join(chr(rng.randrange(256)) for _ in range(n))
    if k < .7: return ''.join(rng.choice("aeiouy'bcdfg klmnprstvxz.,\n\t()[]0123456789?!AEB\0\r\xe9\xff\"hqw-_/\\{}%") for _ in range(n))
    return ''.join(rng.choice([WD.raw_word(rng), rng.choice(SOUP), '(', ')', '\0', '\n', '1.5', '-', '99', "h", '%', '.', ' ', ',', '\xc3\xa9', '"']) + rng.choice(['', ' ']) for _ in range(n))
def long(rng):
    k = rng.randrange(14); n = rng.choice([50, 127, 128, 255, 256, 257, 300, 1000, 1023, 1024, 1025, 2000])
    w = rng.choice(['mi', 'do', 'klama', 'broda', 'pa', 'by', 'ui', 'djan.', 'la', "na'e", 'se', 'zo'])
    if k == 0: return w * n
    if k == 1: return (w + ' ') * n
    if k == 2: return 'la ' + 'a' * n + 'n.'
    if k == 3: return ''.join(rng.choice(['bav', 'lam', 'dei', "ma'o", 'nal', 'ci', 'kla']) for _ in range(n)) + rng.choice(['gau', 'broda', 'bix'])
    if k == 4: return 'mi cusku zoi ' + 'g' * n + 'y x ' + 'g' * n + 'y'
    if k == 5: return 'zoi gy ' + 'x' * n * 3 + ' gy'
    if k == 6: return 'li ' + ' '.join(rng.choice(['pa', 're', 'pi', 'ki\'o', 'no']) for _ in range(min(n, 200)))
    if k == 7:
        a, b = rng.choice([('lo nu mi klama ', 'kei ku '), ('ke broda ', "ke'e "), ('to mi klama ', 'toi '), ('vei pa su\'i ', "ve'o "), ('lu mi klama ', "li'u "), ('lo broda be lo ', 'be\'o ku '), ('tu\'e mi klama i ', "tu'u "), ('lo broda poi mi klama lo ', "ku'o ku "), ('ge mi klama gi ', 'broda '), ('nu\'i mi ', "nu'u "), ('se ', ''), ('na ', ''), ('mi e ', '')]); m = min(n, 300)
        return rng.choice(['', 'mi klama ']) + a * m + 'broda ' + b * rng.choice([m, 0])
    if k == 8: return "mi klama" + ' ui nai cai' * min(n, 400)
    if k == 9: return 'mi ' + 'zei klama ' * n
    if k == 10: return 'mi' + ' bu' * n + ' broda'
    if k == 11: return '(' * n + 'mi klama' + ')' * n
    if k == 12: return "ba'e " * n + 'mi klama'
    return w * n + rng.choice(['n', "'", ',', '', 'yy']) + w * 3
OPTS = [['-x'], ['-x', '-b'], ['-H'], ['-l'], ['-l', '-b'], ['-t'], ['-tf'], [], ['-x'], ['-x', '-b'], ['-g'], ['-x', '-ie'], ['-se'], ['-sev'], ['-re'], ['-bt'], ['-k']]
def options(rng):
    o = list(rng.choice(OPTS))
    for x in ('-ie', '-k', '-bt', '-cr', '-m', '-dd', '-re', '-d', '-b'):
        if rng.random() < .12: o.append(x)
    if rng.random() < .25: o += rng.choice([['-w', str(rng.choice([0, 1, 2, 5, 10, 20, 40, 79, 200, 1023, 1024, 5000, -1, -5, 99999999999]))], ['-w%d' % rng.choice([0, 1, 30, 3000, -3])], ['-wx'], ['-w', 'abc']])
    if rng.random() < .02: o.append(rng.choice(['-w', '-zz', '-v', '-h', '--help', '-?', '-', '/nonexistent', '']))
    rng.shuffle(o) if '-w' not in o else None
    return o
def gen_text(rng, i):
    k = rng.random()
    s = G.layout(rng, G.words(rng, i)) if k < .55 else soup(rng) if k < .8 else raw(rng) if k < .92 else long(rng)
    if rng.random() < .08 and s:
        j = rng.randrange(len(s)); s = s[:j] + rng.choice(['\0', '\xff', '(', '1', "'", ',', '\n', 'zoi', '\r', ' ui ']) + s[j:]
    return {'o': options(rng), 's': s}
def test_text(ctx, c):
    ctx.label(*[x for x in c['o'] if x.startswith('-') and len(x) < 5])
    return judge(ctx, 'jbofihe', [a.replace('\0', '') for a in c['o']], c['s'].encode('latin1'))
def gen_tools(rng, i):
    p = rng.choice(['vlatai', 'vlatai', 'cmafihe', 'cmafihe', 'jvocuhadju', 'jvocuhadju'])
    def w():
        k = rng.random()
        return WD.raw_word(rng) if k < .5 else raw(rng)[:40] if k < .65 else rng.choice(G.GISMU) if k < .85 else long(rng)[:1500] if k < .9 else rng.choice(G.ALLCM)
    if p == 'vlatai':
        a = rng.choice([[], ['-el'], ['-k'], ['-v'], ['-cr']])
        ws = [w() for _ in range(rng.randint(0, 4))]
        if rng.random() < .5: return {'p': p, 'o': a + [x for x in ws], 's': ''}
        return {'p': p, 'o': a, 's': '\n'.join(w() for _ in range(rng.randint(0, 12))) + rng.choice(['', '\n'])}
    if p == 'cmafihe':
        a = rng.choice([[], ['-b'], ['-l'], ['-p'], ['-b', '-w', str(rng.choice([0, 1, 10, 80, 511, 512, 513, 2000, -3]))], ['-l', '-b'], ['-w'], ['-h'], ['-zz']])
        k = rng.random(); s = ' '.join(w() for _ in range(rng.randint(0, 20))) if k < .5 else soup(rng) if k < .7 else raw(rng) if k < .85 else long(rng)
        return {'p': p, 'o': a, 's': s}
    a = [x for x in ('-a', '-l', '-b', '-S', '-A', '-R', '-q') if rng.random() < .15]
    ws = [rng.choice(G.GISMU) if rng.random() < .7 else rng.choice(['se', 'te', 'ca', 'fi\'u', 'zei']) if rng.random() < .5 else w() for _ in range(rng.choice([0, 1, 2, 2, 3, 3, 4, 5, 6]))]
    if rng.random() < .35: # long lujvo, of words with few rafsi, so that there are few forms
        from model import lujvo as L
        if not ONE: ONE.extend(w for w in L.RAFSI if len(w) == 5 and not [r for r in L.RAFSI[w] if len(r) == 3])
        ws = [rng.choice(ONE) for _ in range(rng.choice([10, 20, 30, 38, 42, 47, 48, 49, 50, 51, 60]))]
        for _ in range(rng.choice([0, 0, 1, 3])): ws[rng.randrange(len(ws))] = rng.choice(G.GISMU)
    return {'p': p, 'o': a + ws, 's': ''}
ONE = []
def test_tools(ctx, c):
    ctx.label(c['p'])
    return judge(ctx, c['p'], [a.replace('\0', '').encode('latin1') for a in c['o']], c['s'].encode('latin1'))
# dictionaries with odd entries, and a text glossed with them
DW = ['klama', 'broda', 'gerku', 'zdani', 'gerzda', 'nunkla', 'selkla', 'terkla', 'jbobau', "jvocu'adju", 'blabi', 'brivla', 'soirsai', 'bavlamdei', 'tricrbongu', 'spageti', 'pu', 'ca', 'ui', 'mi', 'e', 'bai', "seba'i", 'ba\'i', 'gasygau']
def value(rng):
    k = rng.random()
    if k < .2: return rng.choice('DESAPRI') + ';' + rng.choice(['go', 'go*', 'bring* about', '', 'a*b*c', '*', 'x' * 200, '%1n', 'be %1v of'])
    if k < .32: # redirections to any string of letters
        c = rng.choice(['mi', 'a', "mi'i", 'klama', 'jbobau', "spa'a", 'by', 'y', 'ger', 'ger', 'kla', 'zda', 'la', "cy'", 'djan', 'gerk', 'bau', 'selyle'])
        w = c * rng.choice([1, 2, 10, 63, 65, 80, 250 // len(c)]) if rng.random() < .6 else ''.join(rng.choice("aeiou'bcdfgjklmnprstvxzy") for _ in range(rng.choice([1, 5, 20, 100, 250])))
        return '@' + (w + rng.choice(['', '', 'klama', 'brkokte', 's', "'i"]))[:253] + rng.choice('12223450')
    if k < .4: return '@' + rng.choice([rng.choice(DW) + rng.choice(['', '1', '2', '3']), rng.choice('0123456789'), '', '@', 'klama1', '99', '-1'])
    if k < .55: return rng.choice(['', '-', '%', '%1', '%1v', '%2n %1q', '%0v', '%9t', '%1x', '*', ';', 'D;', '@', ' ', '&<>"', '{$_^~\\}', '%1v' * 60])
    if k < .65: return ''.join(chr(rng.randrange(32, 256)) for _ in range(rng.randint(0, 260))).replace(':', '')
    return rng.choice(['dog', 'goer', 'long gloss of many words', 'y' * 254, 'y' * 100, 'caf\xe9'])
def dline(rng):
    k = rng.random()
    if k < .1: return '%s%s%s:%s' % (rng.choice(['me', 'moi', 'mei', 'nu\'a', 'cu\'o', 'si\'e', 'va\'e', 'ke\'a', 'zei', 'jai', 'nu', 'du\'u', 'go\'i', 'number', 'moi', 'goha']), rng.choice(['', '1', '2', '3', '6']), rng.choice(['', 'n', 'v', 't', 'q']), rng.choice(['%d', '%s', '%d%d %d', 'x%dth', '%n%n%n', '%', '%%d', '%d' * 60, 'D;%d', 'A;%s-th', '@klama1', '%1$s', '%*d', '%99999d']))
    if k < .5: key = rng.choice(DW) + rng.choice(['', '1', '1', '1', '2', '3', '1n', '1v', '1q', '1t', '2t', '1a', '6', '1nn', '9'])
    elif k < .7: key = '*%d%s%s' % (rng.randrange(7), rng.choice(['+gasnu', '+klama', 'se+', 'nal+', '+', '+bau', 'sel+', 'to\'e+', '+zdani', 'ger+', 'gerku+']), rng.choice(['', '1', '2', '3', '1n', '2t', '9']))
    elif k < .8: key = '%' + rng.choice(['ger', 'zda', 'kla', "ba'u", 'bau', 'jvo'])
    elif k < .9: key = rng.choice(['pu', 'ba', 'bai', 'e', 'je', 'pu&ca', 'naje', 'ge', 'gi', 'UI', '#']) + rng.choice(['@TERM', '@NOUN', '@SELBRI', '@LINK', '@CONNECT', '@JAI', '@AFTER', '@GE', '@GI', '@'])
    else: key = raw(rng)[:30].replace('\n', '')
    return rng.choice(['', '', '', ' ', '#', '!']) + key + rng.choice([':', ':', ':', ':', ':', '', '::']) + value(rng) + rng.choice(['', '', '', ':c'])
def gen_dict(rng, i):
    t = rng.choice(['mi X do', 'lo X Y cu Z', 'X Y', 'mi pu X ba Y', 'lo X be do bei mi cu se Y', 'mi klama gi\'e X', 'ui mi X e do', 'mi jai bai X fai do', 'lo nu X kei cu Y', 'lo me la djan moi ku re moi X do', 'mi pa mei gi\'e me do X gi\'e nu\'a su\'i do', 'lo X poi ke\'a Y ku\'o ci cu\'o do', 'lo du\'u X kei te Y do fi lo re si\'e be mi', 'mi bai do pu lo X na je Y', 'X zei Y broda'])
    # the text is about words that have entries, where there are any
    runs = [[dline(rng) for _ in range(rng.choice([0, 1, 5, 20, 60]))] for _ in range(rng.choice([1, 1, 2]))]; ws = [w for w in DW if len(w) > 4]
    have = [w for w in ws if any(l.lstrip().startswith(w) for r in runs for l in r)] or ws
    for c in 'XYZ': t = t.replace(c, rng.choice(have if rng.random() < .8 else ws))
    return {'runs': runs, 's': t, 'o': rng.choice([['-x'], ['-x', '-b'], ['-H'], ['-l']]), 'nl': rng.random() < .8}
def test_dict(ctx, c):
    d = ctx.tmp('o.dat')
    for k in ('asan', 'msan'):
        if os.path.exists(d): os.remove(d)
        for r in c['runs']:
            f = ctx.tmp('o.txt'); open(f, 'wb').write(('\n'.join(r) + ('\n' if c['nl'] else '')).encode('latin1'))
            m = judge(ctx, 'smujajgau', [d, f], b'', kinds=(k,))
            if m: return m
        if not os.path.exists(d): continue
        m = judge(ctx, 'jbofihe', c['o'], c['s'].encode(), {'JBOFIHE_DICTIONARY': d}, kinds=(k,)) or judge(ctx, 'cmafihe', [], c['s'].encode(), {'JBOFIHE_DICTIONARY': d}, kinds=(k,))
        if m: return m
    ctx.nontrivial(repr(c))
def gen_dfa(rng, i):
    c = rng.choice([c17.gen, c17.gen, c17.gen_bad])(rng, i)
    return {'t': c['t'], 'o': rng.choice(c17.OPTS) + rng.choice([[], ['-v'], ['-r', '/dev/null']]), 'p': rng.random() < .7}
def test_dfa(ctx, c):
    from model.nfa import NFA, TooBig, SpecError
    try:
        # a legal description whose DFA has very many states takes dfasyn exponentially long: not a violation, not run
        if NFA('\n'.join(c['t'])).explore(3000) is None: return
    except TooBig: return
    except Exception: pass
    return judge(ctx, 'dfasyn', c['o'], ('Prefix p\n' if c['p'] else '') + '\n'.join(c['t']) + '\n', path='KIND/dfasyn/dfasyn')
def families():
    return [Family('text', gen_text, test_text, 3500, 120000), Family('tools', gen_tools, test_tools, 1500, 40000), Family('dictionaries', gen_dict, test_dict, 3200, 60000), Family('descriptions', gen_dfa, test_dfa, 400, 10000)]
