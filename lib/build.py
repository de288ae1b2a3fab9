"""Builds the programs of /repo's current working tree in a scratch directory (never in /repo)."""
import os, subprocess, shutil, hashlib, tempfile, atexit, sys, time
REPO = os.environ.get('VERIF_REPO', '/repo')
ENV = {'PATH': '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin', 'LC_ALL': 'C', 'HOME': '/tmp'}
PROGS = ['jbofihe', 'cmafihe', 'jvocuhadju', 'smujajgau', 'vlatai']
SAN = '-O1 -g -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=all -fno-sanitize=alignment'
FLAGS = {'plain': '-O1', 'asan': SAN + ' -DEXPOSE_SIGNALS', 'msan': '-O1 -g -w -fno-omit-frame-pointer -fsanitize=memory -fno-sanitize-memory-param-retval -DEXPOSE_SIGNALS',
         # other ways to configure the programs: another compiler, other optimisation, dictionary read by fread / built into the program
         'alt': '-O3', 'embed': '-O2 -DEMBEDDED_DICTIONARY'}
GEN = ['rpc2x_act.tab.c', 'rpc_tab.c', 'rpc_full.c', 'trctabs.c', 'trcftabs.c', 'elitabs.c', 'morf_lex.c', 'morfvlex.c', 'morf_enc.c', 'morf_dfa.c',
       'bctables.c', 'stag_dfa.c', 'canonluj.inc', 'cm_scan.c', 'version.h', 'gismu_cmavo.dict']

class BuildError(Exception): pass

def sh(cmd, cwd, log):
    p = subprocess.run(cmd, cwd=cwd, env=ENV, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
    if p.returncode: raise BuildError('%s: exit %d\n%s' % (cmd, p.returncode, p.stdout.decode('latin1')[-3000:]))
    return p.stdout

def files():
    o = subprocess.run(['git', '-c', 'safe.directory=*', 'ls-files', '-z', '-co', '--exclude-standard'], cwd=REPO, stdout=subprocess.PIPE, check=True).stdout
    return sorted(f for f in set(o.decode().split('\0')) if f and os.path.isfile(os.path.join(REPO, f)) and not f.startswith('testing/'))

class Builds:
    def __init__(self, scratch): self.scratch = scratch; self.dirs = {}
    def path(self, prog, kind='plain'): return os.path.join(self.dirs[kind], prog)
    @property
    def src(self): return self.dirs['gen']
    @property
    def dict(self): return os.path.join(self.dirs['gen'], 'smujmaji.dat')

def scratch_dir():
    base = os.environ.get('TMPDIR', '/tmp')
    d = tempfile.mkdtemp(prefix='jbovp-', dir=base)
    pid = os.getpid()
    def clean():
        if os.getpid() == pid: shutil.rmtree(d, ignore_errors=True)
    atexit.register(clean)
    return d

def build(kinds=('plain',), scratch=None, progs=PROGS, dfasyn_asan=False):
    """kinds: 'plain', 'asan'. Returns a Builds object; .path(prog, kind) is the executable."""
    scratch = scratch or scratch_dir()
    B = Builds(scratch)
    cache = os.environ.get('VERIF_BUILD_CACHE'); fl = files()
    if cache:
        h = hashlib.sha256()
        for f in fl: h.update(f.encode() + b'\0' + open(os.path.join(REPO, f), 'rb').read())
        root = os.path.join(cache, h.hexdigest()[:16])
    else: root = os.path.join(scratch, 'build')
    gen = os.path.join(root, 'gen'); log = None
    if not os.path.exists(gen + '.ok'):
        shutil.rmtree(gen, ignore_errors=True); os.makedirs(gen)
        for f in fl:
            if f.startswith('tests/'): continue
            d = os.path.join(gen, f); os.makedirs(os.path.dirname(d), exist_ok=True)
            shutil.copy(os.path.join(REPO, f), d)
        sh('perl config.pl --prefix=/usr/local && (cd dfasyn && make all) && make ' + ' '.join(GEN), gen, log)
        sh('make smujajgau dictionary', gen, log)
        open(gen + '.ok', 'w').close()
    B.dirs['gen'] = gen
    for k in kinds:
        d = os.path.join(root, k)
        if not os.path.exists(d + '.ok'):
            shutil.rmtree(d, ignore_errors=True)
            shutil.copytree(gen, d)
            sh('find . -maxdepth 1 -name "*.o" ! -name uncom.o -delete; rm -f ' + ' '.join(PROGS), d, log)
            cf = '-fcommon %s%s -DDEFAULT_DICTIONARY=\\"%s/smujmaji.dat\\"' % (FLAGS[k], '' if k == 'alt' else ' -DHAVE_MMAP=1', gen)
            # all files get one time, so that make takes the generated ones as they are: their rules are not safe with -j
            sh("find . -type f -print0 | xargs -0 touch -d @1000000000", d, log)
            if k == 'embed': sh('make dictdata.c', d, log)
            cc = 'clang' if k in ('msan', 'alt') else 'gcc'
            todo = sh("make -n CC=%s CFLAGS='%s' %s" % (cc, cf, ' '.join(progs)), d, log).decode('latin1')
            j = '-j8' if all(l.startswith(cc + ' ') for l in todo.split('\n') if l) else '-j1'
            sh("make %s CC=%s CFLAGS='%s' %s" % (j, cc, cf, ' '.join(progs)), d, log)
            if k != 'plain' and dfasyn_asan:
                sh("cd dfasyn && rm -f *.o dfasyn && make CC=%s CFLAGS='%s' dfasyn" % (cc, FLAGS[k]), d, log)
            open(d + '.ok', 'w').close()
        B.dirs[k] = d
    return B
