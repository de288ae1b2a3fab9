"""Property-based testing driver: seeded generation in parallel, replay, shrinking, evidence."""
import os, sys, json, time, threading, random, subprocess, multiprocessing as mp, traceback, hashlib, signal, argparse
from collections import Counter
from . import build as B
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

class Timeout(Exception): pass

class Out:
    __slots__ = ('rc', 'out', 'err')
    def __init__(s, rc, out, err): s.rc, s.out, s.err = rc, out, err
    def __repr__(s): return 'rc=%r out=%r err=%r' % (s.rc, s.out[:2000], s.err[:2000])

ASAN_ENV = {'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0',
            'MSAN_OPTIONS': 'exitcode=99:allocator_may_return_null=1',
            'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=99'}

class Ctx:
    """what a case sees: run programs, label the case"""
    def __init__(self, builds, scratch):
        self.b = builds; self.scratch = scratch; self.labels = []; self.key = None; self._n = 0; self.execs = 0
        self.env = dict(B.ENV, JBOFIHE_DICTIONARY=builds.dict, **ASAN_ENV)
    def label(self, *l): self.labels.extend(l)
    def nontrivial(self, key): self.key = key
    patience = 1
    def run(self, prog, args=(), inp=b'', kind='plain', env=None, cwd=None, timeout=20, path=None, binary=False):
        if isinstance(inp, str): inp = inp.encode('utf-8', 'surrogateescape')
        e = self.env if env is None else dict(self.env, **env)
        self.execs += 1
        exe = path or self.b.path(prog, kind)
        p = subprocess.Popen([exe, *args], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=cwd or self.scratch)
        try: o, er = p.communicate(inp, timeout=timeout * self.patience)
        except subprocess.TimeoutExpired:
            p.kill(); p.communicate(); raise Timeout('%s %s' % (prog, ' '.join(args)))
        if binary: return Out(p.returncode, o, er)
        return Out(p.returncode, o.decode('latin1'), er.decode('latin1'))
    def tmp(self, name=None):
        self._n += 1
        d = os.path.join(self.scratch, 'w%d' % os.getpid()); os.makedirs(d, exist_ok=True)
        return os.path.join(d, name or 'f%d' % self._n)

class Family:
    """One generator + oracle. gen(rng)->case (JSON-able); test(ctx, case)->None or a message; n: cases per tier."""
    def __init__(self, name, gen, test, quick, thorough, shrink=None, batch=1):
        self.name, self.gen, self.test, self.n, self.shrinker = name, gen, test, {'quick': quick, 'thorough': thorough}, shrink

def cands(x):
    """generic shrink candidates of a JSON-able case, smaller first"""
    if isinstance(x, str):
        n = len(x); k = n // 2
        while k >= 1:
            for i in range(0, n, k): yield x[:i] + x[i + k:]
            k //= 2
    elif isinstance(x, list):
        n = len(x); k = max(n // 2, 1)
        while k >= 1 and n:
            for i in range(0, n, k): yield x[:i] + x[i + k:]
            k //= 2
        for i, e in enumerate(x):
            for c in cands(e): yield x[:i] + [c] + x[i + 1:]
    elif isinstance(x, dict):
        for k in x:
            for c in cands(x[k]): yield dict(x, **{k: c})
    elif isinstance(x, bool):
        if x: yield False
    elif isinstance(x, int):
        for c in (0, x // 2, x - 1):
            if 0 <= c < x: yield c

_G = {}
def _one(fam, ctx, case):
    """-> (message or None, inconclusive?)"""
    ctx.labels = []; ctx.key = None
    try: return fam.test(ctx, case), False
    except Timeout as e:
        if ctx.patience > 1: return 'never ends: ' + str(e), False
        return None, True
    except (LookupError, ValueError, TypeError, AttributeError, AssertionError):
        # what the program printed has not the form it always has
        return 'the output cannot be understood: ' + traceback.format_exc(limit=-3), False

def _work(job):
    fi, lo, hi = job
    fam = _G['fams'][fi]; ctx = _G['ctx'](); seed = _G['seed']
    lab = Counter(); keys = set(); bad = None; inc = 0; n = 0; samples = []; x0 = ctx.execs; err = None; late = None
    for i in range(lo, hi):
        if time.time() > _G['deadline'] or _G['stop'].value: break
        rng = random.Random('%d:%s:%d' % (seed, fam.name, i))
        try:
            case = fam.gen(rng, i) if fam.gen.__code__.co_argcount == 2 else fam.gen(rng)
            msg, ic = _one(fam, ctx, case)
        except Exception:
            err = traceback.format_exc() + '\ncase %d of %s' % (i, fam.name)
            try: err += ': ' + json.dumps(case)[:3000]
            except Exception: pass
            break
        if ic and not late: late = (fi, i, case)
        n += 1; inc += ic; lab.update(ctx.labels)
        if ctx.key is not None:
            keys.add(hashlib.md5((fam.name + repr(ctx.key)).encode()).digest()[:8])
            if len(samples) < 2: samples.append({'family': fam.name, 'case': case})
        if msg: bad = (fi, i, case, msg); break
    return fi, n, lab, keys, bad, inc, samples, ctx.execs - x0, err, late

def shrink(fam, ctx, case, msg, budget=120):
    end = time.time() + budget; gen = fam.shrinker or cands; progress = True
    while progress and time.time() < end:
        progress = False
        for c in gen(case):
            if time.time() > end: break
            try: m, ic = _one(fam, ctx, c)
            except Exception: continue
            if m and m[:8] == msg[:8]: case, msg, progress = c, m, True; break # the same kind of failure
    return case, msg

def known():
    try: return json.load(open(os.path.join(VERIF, 'known_findings.json')))
    except FileNotFoundError: return []

class Pool:
    """a pool whose end cannot hang: the workers die of SIGTERM at once, and of SIGKILL if that does not help"""
    def __init__(self, n): self.pool = mp.Pool(n, initializer=signal.signal, initargs=(signal.SIGTERM, signal.SIG_DFL))
    def __enter__(self): return self.pool
    def __exit__(self, *x):
        def kill():
            for w in list(self.pool._pool):
                try: os.kill(w.pid, signal.SIGKILL)
                except (OSError, TypeError): pass
        t = threading.Timer(15, kill); t.daemon = True; t.start()
        self.pool.terminate(); t.cancel()
def main(pid, mod, argv):
    ap = argparse.ArgumentParser()
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--replay'); ap.add_argument('--seed', type=int)
    ap.add_argument('--family'); ap.add_argument('--n', type=int); ap.add_argument('--case'); ap.add_argument('--jobs', type=int, default=8)
    a = ap.parse_args(argv)
    seed = a.seed if a.seed is not None else int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time(); scratch = B.scratch_dir()
    signal.signal(signal.SIGTERM, lambda *x: sys.exit(3))
    builds = B.build(getattr(mod, 'BUILDS', ('plain',)), scratch, getattr(mod, 'PROGS', B.PROGS), getattr(mod, 'DFASYN_ASAN', False))
    wd = os.path.join(scratch, 'work'); os.makedirs(wd)
    tb = time.time() - t0
    if hasattr(mod, 'setup'): mod.setup(Ctx(builds, wd), a.tier)
    fams = [f for f in mod.families() if not a.family or f.name == a.family]
    mk = lambda: Ctx(builds, wd)
    if a.replay or a.case:
        r = json.load(open(a.replay)) if a.replay else {'family': fams[0].name, 'case': json.loads(a.case)}
        fam = [f for f in fams if f.name == r['family']][0]
        msg, ic = _one(fam, mk(), r['case'])
        print(msg or ('INCONCLUSIVE' if ic else 'holds')); return 1 if msg else 0
    _G.update(stop=mp.Value('i', 0, lock=False), fams=fams, ctx=mk, seed=seed, deadline=t0 + {'quick': 420, 'thorough': 7200}[a.tier])
    jobs = []
    for fi, f in enumerate(fams):
        n = a.n or f.n[a.tier]; ch = max(1, min(50, n // 32))
        jobs += [(fi, lo, min(n, lo + ch)) for lo in range(0, n, ch)]
    random.Random(seed).shuffle(jobs)
    lab = Counter(); keys = set(); n = inc = ex = 0; samples = []; bads = []; perfam = Counter(); err = None; lates = []
    with Pool(a.jobs) as pool:
        for fi, cn, l, k, bad, ic, sm, x, er, lt in pool.imap_unordered(_work, jobs):
            n += cn; perfam[fams[fi].name] += cn; inc += ic; ex += x; keys |= k
            for q, v in l.items(): lab[fams[fi].name + ':' + q] += v
            if len([s for s in samples if s['family'] == fams[fi].name]) < 3: samples += sm[:1]
            if er and not err: err = er
            if lt: lates.append(lt)
            if len(lates) > 40: _G['stop'].value = 1
            if bad:
                bads.append(bad)
                if len(bads) >= 3: _G['stop'].value = 1
            if err and not bads: _G['stop'].value = 1
    viol = []; ctx = mk()
    if err and not bads:
        print('ERROR in check:\n' + err); return 2
    for fi, i, case, msg in sorted(bads, key=lambda b: (b[0], b[1])):
        fam = fams[fi]
        again = [_one(fam, ctx, case)[0] for _ in range(3)]
        if not all(again):
            inc += 1; print('not reproduced 3 times, ignored: %s case %d: %s' % (fam.name, i, msg)); continue
        case, msg = shrink(fam, ctx, case, again[0])
        viol.append((fam, case, msg)); break
    if lates and not viol:
        # cases that ran out of time are tried again with five times the time before they count as endless
        fi, i, case = min(lates, key=lambda x: (x[0], x[1])); ctx.patience = 5
        msg, _ = _one(fams[fi], ctx, case)
        if msg: viol.append((fams[fi], case, msg))
        ctx.patience = 1
    rc = 0
    for fam, case, msg in viol:
        d = os.path.join(VERIF, 'replays'); os.makedirs(d, exist_ok=True)
        p = os.path.join(d, '%s-%s.json' % (pid, hashlib.md5(json.dumps(case, sort_keys=True).encode()).hexdigest()[:10]))
        json.dump({'property': pid, 'family': fam.name, 'case': case, 'message': msg, 'seed': seed,
                   'how': '/verif/check %s --replay %s' % (pid, p)}, open(p, 'w'), indent=1)
        print('family %s: %s\ncase: %s' % (fam.name, msg, json.dumps(case)[:4000]))
        print('VIOLATION property=%s replay=%s' % (pid, p)); rc = 1
    for k in known():
        if k.get('property') == pid and k.get('status') == 'known': print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    ev = {'property': pid, 'tier': a.tier, 'seed': seed, 'level': 'exploration', 'wall_s': round(time.time() - t0, 2), 'violations': len(viol),
          'coverage': {'evaluations': n, 'distinct_nontrivial': len(keys), 'rule': mod.RULE, 'samples': samples[:12], 'program_runs': ex,
                       'cases_per_family': dict(perfam), 'classes': dict(sorted(lab.items())), 'inconclusive_timeouts': inc,
                       'planned': sum((a.n or f.n[a.tier]) for f in fams), 'build_s': round(tb, 2)},
          'assumptions': getattr(mod, 'ASSUMPTIONS', [])}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s %s seed=%d: %d cases (%d distinct non-trivial, %d inconclusive), %d program runs, %.1f s, violations=%d' %
          (pid, a.tier, seed, n, len(keys), inc, ex, time.time() - t0, len(viol)))
    return rc
