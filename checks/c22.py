"""C22: faults in the files the programs use. Damaged dictionaries, writes that fail part-way, sources that are not there; oracle: the exact bytes of the dictionary model, or a refusal that says so."""
import os, re, struct, random
from lib.harness import Family
from model import dictm as D
from checks import c12, c18
PROGS = ['smujajgau', 'cmafihe', 'jbofihe', 'vlatai', 'jvocuhadju']
BUILDS = ('plain', 'asan')
RULE = ("damaged: a dictionary compiled from random lines is cut short at a random byte, or gets bytes changed, bytes more, another count, or is another file altogether (empty, text, random bytes, a source); jbofihe, cmafihe and smujajgau "
        "(plain with bounded memory, and with ASan) must end by themselves with status 0 or 1; for a file cut short, or with a count greater than what it holds, status 1, a message on stderr, and smujajgau must leave the file as it is; bytes after the end or no damage must not change the result. "
        "writes: the dictionary is written under a file size limit of every kind (or to a full device, a directory, a place that does not exist): status 0 only if the file is byte for byte the model's dictionary, otherwise non-zero and a message. "
        "killed: smujajgau is killed while it writes, at a random byte: what it leaves is the old dictionary, the new one, or refused by all three programs. sources: some of the sources or the text file do not exist, or fail when read (directories): each is named on stderr, and the dictionary is that of the others. output: each program (dfasyn too, with -o and -r) writes its output to a file limited to a random size, a full device or a closed descriptor: status 0 only if all of it is there, and the usual status if it is. Non-trivial: the damage changed the file, the limit was less than what is to be written, or a file was missing; distinct by case.")
ASSUMPTIONS = ['the file system reports errors as Linux does; power loss is not modelled', 'with bytes changed inside, only the absence of crashes, memory errors and endless running is judged']
def model(lines):
    m = {}
    for l in lines: D.apply(m, l)
    return m
def image(m):
    ks = sorted(m, key=lambda k: k.encode('latin1')); b = struct.pack('>I', len(ks))
    for k in ks: b += bytes([len(k), len(m[k])])
    for k in ks: b += k.encode('latin1') + b'\0' + m[k].encode('latin1') + b'\0'
    return b
REAL = ['klama1:S;go', 'klama:come', 'broda1:S;broda', 'mlatu1:cat', 'mlatu1n:cats', 'lo:the', 'mi:me', 'cu:[is]', 'nelci1:S;lik*e', 'nelci2:@mlatu1', 'do:you', '*klama1:%s-go', 'i:and']
def lines(rng):
    l = c12.gen_map(rng)['lines'] if rng.random() < .7 else []
    l = l + rng.sample(REAL, rng.randint(0, len(REAL))); rng.shuffle(l)
    return l
HOW = ['cut'] * 6 + ['count'] * 3 + ['bytes'] * 4 + ['more'] * 2 + ['none', 'empty', 'text', 'random', 'zeros', 'lengths', 'lengths']
def gen_damaged(rng, i):
    return {'lines': lines(rng), 'how': rng.choice(HOW), 'k': rng.randrange(1 << 30), 'extra': rng.choice([[], ['klama1:S;go'], ['abc:d', 'mlatu1:cat']])}
def damage(c, b):
    rng = random.Random(c['k']); h = c['how']; n = struct.unpack('>I', b[:4])[0]
    if h == 'cut': return b[:rng.choice([rng.randrange(len(b)), rng.randrange(len(b)), len(b) - 1, rng.randrange(min(len(b), 4 + 2 * n + 1)), 4 + 2 * n - (n == 0)])] if len(b) > 1 else b''
    if h == 'count': return struct.pack('>I', rng.choice([n + 1, n + rng.randint(1, 10), 0xffffffff, 0x7fffffff, 0x80000000, rng.randrange(n + 1, 1 << 32), 65536 + n, 10 ** 8])) + b[4:]
    if h == 'bytes':
        x = bytearray(b)
        for _ in range(rng.choice([1, 1, 2, 5, 20])): x[rng.randrange(len(x)) if rng.random() < .6 else rng.randrange(min(len(x), 4 + 2 * n))] = rng.choice([0, 1, 255, 128, rng.randrange(256)])
        return bytes(x)
    if h == 'lengths':
        x = bytearray(b)
        for _ in range(rng.choice([1, 2, 5])):
            if n: x[4 + rng.randrange(2 * n)] = rng.choice([0, 255, rng.randrange(256)])
        return bytes(x)
    if h == 'more': return b + bytes(rng.randrange(256) for _ in range(rng.choice([1, 2, 100, 5000])))
    if h == 'empty': return b''
    if h == 'text': return ('\n'.join(c['lines']) + '\n').encode('latin1') * rng.choice([1, 1, 50])
    if h == 'random': return bytes(rng.randrange(256) for _ in range(rng.choice([1, 3, 4, 5, 10, 1000])))
    if h == 'zeros': return b'\0' * rng.choice([4, 5, 100])
    return b
TEXT = 'mi klama lo mlatu .i do nelci lo broda ku noi se klama .i le nunklama cu blaci\n'
def bounded(ctx, prog, args, inp, env):
    return ctx.run('sh', ['-c', 'ulimit -v 2000000; exec "$0" "$@"', ctx.b.path(prog)] + args, inp, env=env, path='/bin/sh')
def test_damaged(ctx, c):
    d = ctx.tmp('dmg.dat'); m = model(c['lines']); b = image(m); x = damage(c, b); ctx.label(c['how'])
    if x != b: ctx.nontrivial(c)
    src = ctx.tmp('more.txt'); open(src, 'w', encoding='latin1').write(''.join(l + '\n' for l in c['extra']))
    n = struct.unpack('>I', b[:4])[0]; must = c['how'] in ('cut', 'count')
    good = None
    if x[:len(b)] == b:
        open(d, 'wb').write(b); good = [ctx.run(p, a, TEXT, env={'JBOFIHE_DICTIONARY': d}) for p, a in (('jbofihe', ['-x']), ('cmafihe', []))]
    for kind in ('plain', 'asan'):
        for j, (p, a) in enumerate((('jbofihe', ['-x']), ('cmafihe', []))):
            open(d, 'wb').write(x); e = {'JBOFIHE_DICTIONARY': d}
            o = bounded(ctx, p, a, TEXT, e) if kind == 'plain' else ctx.run(p, a, TEXT, kind=kind, env=e)
            if o.rc not in (0, 1) or c18.BAD.search(o.err): return '%s (%s) with a dictionary file damaged (%s): status %d, %r' % (p, kind, c['how'], o.rc, o.err[-600:])
            if open(d, 'rb').read() != x: return '%s changed the dictionary file' % p
            if must and (o.rc != 1 or not o.err.strip()): return '%s (%s) says nothing of a dictionary file that is damaged (%s, %d of %d bytes): status %d' % (p, kind, c['how'], len(x), len(b), o.rc)
            if must: ctx.label('refused')
            if good and (o.rc, o.out, o.err) != (good[j].rc, good[j].out, good[j].err): return '%s (%s): other result with bytes after the end of the dictionary' % (p, kind)
        open(d, 'wb').write(x)
        o = bounded(ctx, 'smujajgau', [d, src], '', {}) if kind == 'plain' else ctx.run('smujajgau', [d, src], '', kind=kind)
        if o.rc not in (0, 1) or c18.BAD.search(o.err): return 'smujajgau (%s) with a database damaged (%s): status %d, %r' % (kind, c['how'], o.rc, o.err[-600:])
        y = open(d, 'rb').read()
        if must and c['how'] == 'cut' and not x: must2 = False
        else: must2 = must
        if must2 and (o.rc != 1 or not re.search('damaged|corrupt|truncated|bad|invalid|short|not a|could not|cannot', o.err, re.I)): return 'smujajgau (%s) takes a damaged database (%s, %d of %d bytes) as it is: status %d, %r' % (kind, c['how'], len(x), len(b), o.rc, o.err[-300:])
        if o.rc and y != x: return 'smujajgau (%s) refuses a damaged database but changes it' % kind
        if x[:len(b)] == b or (not x and not o.rc):
            mm = dict(m) if x else {}
            for l in c['extra']: D.apply(mm, l)
            if o.rc or y != image(mm): return 'smujajgau (%s): status %d, or not the expected database, from %d bytes (%s)' % (kind, o.rc, len(x), c['how'])
def gen_write(rng, i):
    return {'lines': lines(rng), 'to': rng.choice(['limit'] * 8 + ['full', 'dir', 'nodir', 'limit0']), 'k': rng.randrange(1 << 30), 'old': rng.random() < .5, 'big': rng.random() < .15}
def test_write(ctx, c):
    ls = list(c['lines'])
    if c['big']: ls += ['bl%s%sa:%s' % (chr(97 + i % 26), chr(97 + i // 26 % 26) * (1 + i // 676), 'v' * 40) for i in range(20 * len(c['lines']))]
    rng = random.Random(c['k']); old = ls[:len(ls) // 2] if c['old'] else None
    src = ctx.tmp('w.txt'); open(src, 'w', encoding='latin1').write(''.join(l + '\n' for l in (ls if old is None else ls[len(ls) // 2:])))
    want = image(model(ls)); d = ctx.tmp('w.dat'); to = c['to']; ctx.label(to)
    if os.path.exists(d): os.remove(d)
    if old is not None and to in ('limit', 'limit0'): open(d, 'wb').write(image(model(old)))
    lim = None
    if to == 'limit': lim = rng.choice([rng.randrange(len(want) + 1), len(want) - 1, len(want), len(want) + 1, rng.randrange(len(want) + 50), 4096, 8192])
    elif to == 'limit0': lim = 0
    elif to == 'full': d = '/dev/full'
    elif to == 'dir':
        d = ctx.tmp('wd'); os.makedirs(d, exist_ok=True)
    else: d = ctx.tmp('none') + '/x/y'
    if to in ('full', 'dir', 'nodir') and old is not None: open(src, 'w', encoding='latin1').write(''.join(l + '\n' for l in ls))
    o = ctx.run('sh', ['-c', 'trap "" XFSZ; exec prlimit --fsize=%s "$0" "$@"' % ('unlimited' if lim is None else lim), ctx.b.path('smujajgau'), d, src], '', path='/bin/sh')
    if lim is None or lim < len(want): ctx.nontrivial(c)
    if o.rc < 0 or o.rc > 2: return 'smujajgau status %d when writing fails (%s)' % (o.rc, to)
    y = open(d, 'rb').read() if to in ('limit', 'limit0') and os.path.exists(d) else None
    if o.rc == 0:
        if y is None: return 'smujajgau reports success writing to %s' % to
        if y != want: return 'smujajgau reports success, but only %d of the %d bytes of the dictionary were written (limit %s)' % (len(y), len(want), lim)
        ctx.label('written')
    else:
        if lim is not None and lim >= len(want): return 'smujajgau status %d, although %d bytes can be written' % (o.rc, lim)
        last = o.err.strip().split('\n')[-1]
        if not re.search(r"could ?n[o']t|can ?n[o']t|unable|error|fail|full|damaged|too large", last, re.I): return 'smujajgau fails (%d) without a message: %r' % (o.rc, last)
        ctx.label('refused')
def gen_killed(rng, i):
    c = gen_write(rng, i); c['to'] = 'limit'; return c
def test_killed(ctx, c):
    """smujajgau dies in the middle of writing (a file size limit that kills): whatever it leaves is the old dictionary, the new one, or refused"""
    ls = list(c['lines']); rng = random.Random(c['k']); cut = len(ls) // 2 if c['old'] else 0
    if c['big']: ls += ['bl%s%sa:%s' % (chr(97 + i % 26), chr(97 + i // 26 % 26) * (1 + i // 676), 'v' * 40) for i in range(20 * len(c['lines']))]
    old = image(model(ls[:cut])) if c['old'] else None; want = image(model(ls)); d = ctx.tmp('k.dat'); src = ctx.tmp('k.txt')
    open(src, 'w', encoding='latin1').write(''.join(l + '\n' for l in ls[cut:]))
    if os.path.exists(d): os.remove(d)
    if old is not None: open(d, 'wb').write(old)
    o = ctx.run('prlimit', ['--fsize=%d' % rng.choice([rng.randrange(len(want)), rng.randrange(len(want)), len(want) - 1, 4, 0]), '--core=0', ctx.b.path('smujajgau'), d, src], '', path='/usr/bin/prlimit')
    y = open(d, 'rb').read() if os.path.exists(d) else None
    if o.rc == 0 and y != want: return 'smujajgau reports success, but wrote %s of %d bytes' % (y and len(y), len(want))
    if y is None or y in (old, want): return
    ctx.nontrivial(c); ctx.label('died' if o.rc < 0 else 'failed')
    for p, a in (('jbofihe', ['-x']), ('cmafihe', [])):
        r = bounded(ctx, p, a, TEXT, {'JBOFIHE_DICTIONARY': d})
        if r.rc != 1 or not r.err.strip(): return '%s takes the part of a dictionary that a killed smujajgau left (%d of %d bytes): status %d, %r' % (p, len(y), len(want), r.rc, r.err)
    if y:
        r = bounded(ctx, 'smujajgau', [d, src], '', {})
        if r.rc != 1 or open(d, 'rb').read() != y: return 'smujajgau builds on the part of a dictionary that a killed run left (%d of %d bytes): status %d' % (len(y), len(want), r.rc)
def gen_sources(rng, i):
    return {'files': [lines(rng) if rng.random() < .7 else rng.choice([None, 'dir']) for _ in range(rng.randint(1, 5))], 'txt': rng.random() < .5}
def test_sources(ctx, c):
    fs = []; d = ctx.tmp('s.dat')
    if os.path.exists(d): os.remove(d)
    for j, f in enumerate(c['files']):
        p = ctx.tmp('src%d%s' % (j, '.dir' if isinstance(f, str) else '.txt'))
        if isinstance(f, str): os.makedirs(p, exist_ok=True)
        elif os.path.exists(p): os.remove(p)
        if isinstance(f, list): open(p, 'w', encoding='latin1').write(''.join(l + '\n' for l in f))
        fs.append(p)
    o = ctx.run('smujajgau', [d] + fs); gone = [p for p, f in zip(fs, c['files']) if not isinstance(f, list)]
    if o.rc not in (0, 1) or (o.rc and not gone): return 'smujajgau status %d' % o.rc
    if gone: ctx.nontrivial(c)
    ctx.label('%d missing' % len(gone))
    for p in gone:
        if not any(p in l and re.search(r"could ?n[o']t|can ?n[o']t|no such|unable", l, re.I) for l in o.err.split('\n')): return 'smujajgau does not say that it could not read %s: %r' % (p, o.err)
    for p in set(fs) - set(gone):
        if re.search(r"could ?n[o']t[^\n]*" + re.escape(p), o.err, re.I): return 'smujajgau says that it could not read %s' % p
    if o.rc == 0:
        m = model([l for f in c['files'] if isinstance(f, list) for l in f])
        if open(d, 'rb').read() != image(m): return 'the dictionary is not that of the sources that could be read'
    if c['txt']:
        p = ctx.tmp('notext'); o = ctx.run('jbofihe', ['-x', p], TEXT)
        if o.rc == 0 or o.out.strip() or p not in o.err: return 'jbofihe with a text file that does not exist: status %d, %r, %r' % (o.rc, o.out, o.err)
        p = ctx.tmp('text.dir'); os.makedirs(p, exist_ok=True)
        for q, a in (('jbofihe', ['-x', p]), ('jbofihe', ['-x']), ('cmafihe', [p]), ('cmafihe', []), ('vlatai', []), ('dfasyn', []), ('dfasyn', [p])):
            o = ctx.run('sh', ['-c', 'exec "$0" "$@" <"%s"' % p, os.path.join(ctx.b.src, 'dfasyn', 'dfasyn') if q == 'dfasyn' else ctx.b.path(q)] + a, path='/bin/sh')
            if o.rc < 1 or o.rc > 3 or not o.err.strip(): return '%s, when its input cannot be read (a directory): status %d, %r, %r' % (q, o.rc, o.out, o.err)
    e = {'JBOFIHE_DICTIONARY': ctx.tmp('nodict')}; z = ctx.tmp('zero.dat'); open(z, 'wb').write(b'\0\0\0\0')
    for p, a in (('jbofihe', ['-x']), ('cmafihe', [])):
        u, v = ctx.run(p, a, TEXT, env=e), ctx.run(p, a, TEXT, env={'JBOFIHE_DICTIONARY': z})
        if (u.rc, u.out) != (v.rc, v.out): return '%s without a dictionary and with an empty one: %r and %r' % (p, u, v)
def gen_output(rng, i):
    k = rng.random()
    if k < .2:
        c = c18.gen_dfa(rng, i); c['p'] = 'dfasyn'
        c = {'p': 'dfasyn', 'o': [x for x in c['o'] if x not in ('-v', '-r', '/dev/null')], 's': 'Prefix p\n' + '\n'.join(c['t']) + '\n', 'own': rng.random() < .5, 'rep': rng.random() < .4}
    elif k < .55:
        c = c18.gen_tools(rng, i); c['s'] = c['s'][:3000]; c['o'] = c['o'][:12]
    else:
        s = c18.G.layout(rng, c18.G.words(rng, i)) if rng.random() < .8 else c18.soup(rng)
        c = {'p': 'jbofihe', 'o': c18.options(rng), 's': s * rng.choice([1, 1, 1, 5])}
    c['o'] = [a.replace('\0', '') for a in c['o']]
    c.update(to=rng.choice(['limit'] * 8 + ['full', 'closed']), k=rng.randrange(1 << 30)); return c
def test_output(ctx, c):
    from model.nfa import NFA, TooBig
    rng = random.Random(c['k']); p = c['p']; path = os.path.join(ctx.b.src, 'dfasyn', 'dfasyn') if p == 'dfasyn' else ctx.b.path(p); a = list(c['o']); rep = None; ctx.label(p, c['to'])
    f, r = ctx.tmp('out.txt'), ctx.tmp('rep.txt'); inp = c['s'].encode('latin1')
    if p == 'dfasyn':
        try:
            if NFA('\n'.join(c['s'].split('\n')[1:])).explore(1000) is None: return
        except TooBig: return
        except Exception: pass
        if c['rep']: a += ['-r', r]
        if c['own']: a += ['-o', f]
    a = [x.encode('latin1') if isinstance(x, str) else x for x in a]; own = p == 'dfasyn' and c['own']
    def go(lim, to):
        for x in (f, r):
            if os.path.exists(x): os.remove(x)
        dest = '' if own else {'full': '>/dev/full', 'closed': '>&-'}.get(to, '>"%s"' % f)
        o = ctx.run('sh', ['-c', 'trap "" XFSZ; exec prlimit --fsize=%s "$0" "$@" %s' % ('unlimited' if lim is None else lim, dest), path] + a, inp, path='/bin/sh', binary=True)
        return o, [open(x, 'rb').read() if os.path.exists(x) else b'' for x in (f, r)]
    o, want = go(None, ''); rc = o.rc; to = c['to'] if c['to'] in ('full', 'closed') else 'limit'
    if to == 'closed' and p == 'dfasyn': to = 'full'
    if own and to != 'limit': to = 'limit'
    n = len(want[0]); lim = None
    if to == 'limit': lim = rng.choice([rng.randrange(n + 1), rng.randrange(n + 1), max(n - 1, 0), n, n + 1, 0, 4096, n // 4096 * 4096, rng.randrange(max(map(len, want)) + 1)])
    o, got = go(lim, to)
    whole = got == want if to == 'limit' else not want[0]
    if not whole: ctx.nontrivial(c)
    if c18.BAD.search(o.err.decode('latin1')) or o.rc < 0 or o.rc >= 124: return '%s: status %d when its output cannot be written' % (p, o.rc)
    if whole:
        if o.rc != rc: return '%s: status %d although all the output (%d bytes) has been written; %d without a limit' % (p, o.rc, n, rc)
        return
    if o.rc == 0: return '%s reports success, but of the %d bytes of its output %s' % (p, n, 'none could be written (%s)' % to if to != 'limit' else '%d were written%s' % (len(got[0]), ' (report: %d of %d)' % (len(got[1]), len(want[1])) if want[1] else ''))
    if rc == 0 and not re.search(r"could ?n[o']t|can ?n[o']t|unable|error|fail|full", o.err.decode('latin1').strip().split('\n')[-1], re.I): return '%s fails (%d) without saying that its output could not be written: %r' % (p, o.rc, o.err[-200:])
    ctx.label('refused')
def families(): return [Family('damaged', gen_damaged, test_damaged, 1500, 40000), Family('write', gen_write, test_write, 3000, 60000), Family('killed', gen_killed, test_killed, 1000, 20000), Family('sources', gen_sources, test_sources, 800, 15000), Family('output', gen_output, test_output, 3000, 60000)]
