"""Shared infrastructure of the hob3l runtime monitors: build of /repo's working
tree, process runner, known findings, evidence and verdict discipline."""
import hashlib, json, os, random, resource, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ProcessPoolExecutor, ThreadPoolExecutor
from multiprocessing import Value, get_context

_hangs = Value('i', 0)     # confirmed hangs in this check: after a few, no more time is spent
MAXHANG = 4

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('HOB_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
NCPU = min(8, os.cpu_count() or 1)

BASEFLAGS = ['-std=c11', '-g', '-w', '-fwrapv', '-fno-delete-null-pointer-checks',
             '-D_FILE_OFFSET_BITS=64']
VARIANTS = {
    # plain: what a user runs (assertions on, as in the default build mode)
    'plain': ('gcc', ['-O1'], []),
    # asan: memory and undefined behaviour monitors, reports are fatal.
    # signed overflow is defined here by -fwrapv; the -fsanitize list leaves out
    # checks that flag idioms which are not misbehaviour of the tool.
    'asan': ('gcc', ['-O1', '-fno-omit-frame-pointer', '-fsanitize=address,undefined',
                     '-fno-sanitize=nonnull-attribute', '-fno-sanitize-recover=all', '-DHOB_SAN=1'],
             ['-fsanitize=address,undefined']),
    # msan: use of uninitialised values
    'msan': ('clang', ['-O1', '-fno-omit-frame-pointer', '-fsanitize=memory', '-fsanitize-memory-track-origins=1', '-DHOB_SAN=1'],
             ['-fsanitize=memory']),
    # release: assertions off, as in the optimised build mode
    'release': ('gcc', ['-O2', '-DNDEBUG'], []),
    # count: the amount of work done and the heap used
    'count': ('clang', ['-O1', '-DNDEBUG', '-fsanitize-coverage=trace-pc-guard'],
              [os.path.join(VERIF, 'harness', 'count_rt.c')] +
              ['-Wl,--wrap=' + f for f in 'malloc calloc realloc free memcpy memmove memset memcmp strlen strchr strcmp strncmp'.split()]),
}


class HarnessError(Exception):
    pass


def tree_hash():
    h = hashlib.sha256()
    for m in sorted(os.listdir(REPO)):
        if m.endswith('.mk'):
            with open(os.path.join(REPO, m), 'rb') as fh:
                h.update(fh.read())
    for top in ('src', 'include', 'script'):
        for d, ds, fs in sorted(os.walk(os.path.join(REPO, top))):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode() + b'\0')
                try:
                    with open(p, 'rb') as fh:
                        h.update(hashlib.sha256(fh.read()).digest())
                except OSError:
                    pass
    return h.hexdigest()[:20]


def _sources():
    """library sources and main.c, as listed by the project's own makefiles"""
    libs, main = [], None
    for m in ('hob3lbase', 'hob3lmat', 'hob3lop', 'hob3l'):
        with open(os.path.join(REPO, m + '.mk')) as f:
            t = f.read().replace('\\\n', ' ')
        for line in t.split('\n'):
            w = line.split()
            if len(w) > 1 and w[0] == 'MOD_C.lib%s.a' % m:
                libs += [os.path.join(REPO, 'src', x) for x in w[2:]]
            elif len(w) > 1 and w[0] == 'MOD_C.hob3l.x':
                main = os.path.join(REPO, 'src', w[2])
    if len(libs) < 10 or main is None:
        raise HarnessError('cannot read the source lists of the makefiles')
    return libs, main


def _gen(dst):
    os.makedirs(dst, exist_ok=True)
    s = os.path.join(REPO, 'src', 'hob3l')
    for f in sorted(os.listdir(s)):
        n, e = os.path.splitext(f)
        if e == '.sieve':
            tool = 'mksieve'
        elif e == '.switch':
            tool = 'mkswitch'
        else:
            continue
        os.makedirs(os.path.join(dst, 'hob3l'), exist_ok=True)
        r = subprocess.run(['perl', os.path.join(REPO, 'script', tool), os.path.join('src', 'hob3l', f)],
                           cwd=REPO, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if r.returncode:
            raise HarnessError('generator %s %s: %s' % (tool, f, r.stderr[-2000:]))
        for out in (os.path.join(dst, n + '.inc'), os.path.join(dst, 'hob3l', n + '.inc')):
            with open(out, 'wb') as fh:
                fh.write(r.stdout)


def _compile(args):
    cmd, cwd = args
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return r.returncode, cmd, r.stdout.decode(errors='replace')


def build(variant='plain', harness=None):
    """Build /repo's working tree; returns path of hob3l.x, or of the harness
    program compiled from /verif/harness/<harness>.c and the library sources."""
    cc, cfl, ldf = VARIANTS[variant]
    key = tree_hash() + '-' + variant + '-' + hashlib.sha256(repr(
        (cc, cfl, ldf, BASEFLAGS, [open(f).read() for f in ldf if f.endswith('.c')])).encode()).hexdigest()[:6]
    d = os.path.join(BUILD, key)
    lib = os.path.join(d, 'lib.a')
    os.makedirs(BUILD, exist_ok=True)
    import fcntl
    with open(os.path.join(BUILD, 'lock-' + variant), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        exe = os.path.join(d, 'hob3l.x')
        if not (os.path.exists(lib) and os.path.exists(exe)):
            # drop older builds of this variant
            olds = sorted((p for p in os.listdir(BUILD) if ('-' + variant + '-') in p),
                          key=lambda p: os.path.getmtime(os.path.join(BUILD, p)))
            for p in olds[:-5]:
                shutil.rmtree(os.path.join(BUILD, p), ignore_errors=True)
            tmp = d + '.tmp'
            shutil.rmtree(tmp, ignore_errors=True)
            gen = os.path.join(tmp, 'gen')
            _gen(gen)
            libs, main = _sources()
            inc = ['-I', os.path.join(REPO, 'include'), '-I', os.path.join(REPO, 'src', 'hob3l'),
                   '-I', gen]
            jobs, objs = [], []
            for p in libs + [main]:
                o = os.path.join(tmp, os.path.relpath(p, os.path.join(REPO, 'src')).replace('/', '__') + '.o')
                objs.append(o)
                jobs.append(([cc] + BASEFLAGS + cfl + inc + ['-c', '-o', o, p], REPO))
            # big ones first
            jobs.sort(key=lambda j: -os.path.getsize(j[0][-1]))
            with ThreadPoolExecutor(NCPU) as ex:
                for rc, cmd, out in ex.map(_compile, jobs):
                    if rc:
                        raise HarnessError('compile failed: %s\n%s' % (' '.join(cmd), out[-3000:]))
            subprocess.run(['ar', 'rcs', os.path.join(tmp, 'lib.a')] + objs[:-1], check=True)
            rc, cmd, out = _compile(([cc] + cfl + ldf + ['-o', os.path.join(tmp, 'hob3l.x'), objs[-1],
                                     os.path.join(tmp, 'lib.a'), '-lm'], REPO))
            if rc:
                raise HarnessError('link failed: ' + out[-3000:])
            shutil.rmtree(d, ignore_errors=True)
            os.rename(tmp, d)
        os.utime(d)
        if harness is None:
            return exe
        src = os.path.join(VERIF, 'harness', harness + '.c')
        with open(src, 'rb') as fh:
            hh = hashlib.sha256(fh.read()).hexdigest()[:10]
        hx = os.path.join(d, harness + '-' + hh + '.x')
        if not os.path.exists(hx):
            inc = ['-I', os.path.join(REPO, 'include'), '-I', os.path.join(d, 'gen'), '-I', REPO]
            rc, cmd, out = _compile(([cc] + BASEFLAGS + cfl + inc + [src] + ldf + ['-o', hx + '.tmp', lib, '-lm'], REPO))
            if rc:
                raise HarnessError('harness %s: %s' % (harness, out[-4000:]))
            os.rename(hx + '.tmp', hx)
        return hx


SAN_ENV = dict(ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=0:'
               'max_allocation_size_mb=4096:handle_abort=0',
               MSAN_OPTIONS='exitcode=77:handle_abort=0', UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1:exitcode=77')


class Run:
    __slots__ = ('rc', 'out', 'err', 'timeout', 'wall')

    def __init__(self, rc, out, err, timeout, wall):
        self.rc, self.out, self.err, self.timeout, self.wall = rc, out, err, timeout, wall

    @property
    def etext(self):
        return self.err.decode(errors='replace')


def run(cmd, cwd=None, timeout=60, stdin=None, env=None, limit_mb=None, preexec=None, stdout=None):
    e = {'PATH': '/usr/local/bin:/usr/bin:/bin', 'LC_ALL': 'C', 'HOME': '/nonexistent'}
    e.update(SAN_ENV)
    if env:
        e.update(env)

    def pre():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if limit_mb:
            resource.setrlimit(resource.RLIMIT_AS, (limit_mb << 20, limit_mb << 20))
        resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 30, 1 << 30))
        if preexec:
            preexec()
    t0 = time.time()
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                         stdout=stdout if stdout is not None else subprocess.PIPE, stderr=subprocess.PIPE,
                         preexec_fn=pre, start_new_session=True)
    try:
        o, er = p.communicate(stdin, timeout=timeout)
        to = False
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        o, er = p.communicate()
        to = True
    return Run(p.returncode, o or b'', er or b'', to, time.time() - t0)


def load_known():
    """known-findings.txt: lines 'finding: property=<id> key=<key> <text>'
    and 'fixed: property=<id> <commit> <text>' (the latter suppress nothing)"""
    known = {}
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line.startswith('finding: '):
                continue
            w = line.split(None, 3)
            known[(w[1].split('=', 1)[1], w[2].split('=', 1)[1])] = w[3] if len(w) > 3 else ''
    return known


class Check:
    """One property's check: collects observations, decides, writes evidence."""

    def __init__(self, prop, level='exploration', rule=''):
        self.prop, self.level, self.rule = prop, level, rule
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        tier = os.environ.get('VERIF_TIER', 'quick')
        if '--thorough' in sys.argv:
            tier = 'thorough'
        elif '--quick' in sys.argv:
            tier = 'quick'
        self.tier = tier if tier in ('quick', 'thorough') else 'quick'
        self.t0 = time.time()
        self.evaluations = 0
        self.nontrivial = set()
        self.more_nontrivial = 0    # counted by harness programs, one distinct seed each
        self.samples = []
        self.stats = {}
        self.viol = []          # (key, text, replay)
        self.inconclusive = 0
        self.assumptions = []
        self.known = load_known()
        self.rng = random.Random(self.seed * 1000003 + int(hashlib.sha256(prop.encode()).hexdigest()[:6], 16))
        self.tmp = tempfile.mkdtemp(prefix='hobv-%s-' % prop)

    def n(self, quick, thorough):
        return thorough if self.tier == 'thorough' else quick

    def stat(self, k, v=1):
        self.stats[k] = self.stats.get(k, 0) + v

    def case(self, ident=None, nontrivial=True):
        self.evaluations += 1
        if nontrivial and ident is not None:
            self.nontrivial.add(hashlib.sha256(str(ident).encode()).hexdigest()[:16])

    def sample(self, x):
        if len(self.samples) < 4:
            self.samples.append(x if len(str(x)) < 1500 else str(x)[:1500])

    def violation(self, key, text, files=None):
        """files: {name: bytes/str} kept as the replay"""
        rd = os.path.join(VERIF, 'replay', self.prop)
        replay = '-'
        if (self.prop, key) not in self.known and len(self.viol) < 12:
            os.makedirs(rd, exist_ok=True)
            base = 'v%02d' % len(self.viol)
            replay = os.path.join(rd, base + '.txt')
            with open(replay, 'w') as f:
                f.write('property %s seed %d tier %s key %s\n%s\n' % (self.prop, self.seed, self.tier, key, text))
            for n, c in (files or {}).items():
                with open(os.path.join(rd, base + '-' + n.replace('/', '%')[-80:]), 'wb') as f:
                    f.write(c if isinstance(c, bytes) else c.encode())
        self.viol.append((key, text, replay))

    def finish(self, min_nontrivial=1):
        shutil.rmtree(self.tmp, ignore_errors=True)
        new = [v for v in self.viol if (self.prop, v[0]) not in self.known]
        old = [v for v in self.viol if (self.prop, v[0]) in self.known]
        cov = dict(evaluations=self.evaluations, distinct_nontrivial=len(self.nontrivial) + self.more_nontrivial, rule=self.rule,
                   samples=self.samples or ['(none)'])
        cov.update({'observed_' + k: v for k, v in sorted(self.stats.items())})
        cov['inconclusive'] = self.inconclusive
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(new))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        for k in sorted(set(v[0] for v in old)):
            print('KNOWN-FINDING: property=%s %s' % (self.prop, self.known[(self.prop, k)] or k))
        for key, text, replay in new[:12]:
            print('VIOLATION property=%s replay=%s' % (self.prop, replay))
            print('  [%s] %s' % (key, text.strip().replace('\n', '\n  ')[:1500]))
        print('%s tier=%s seed=%d evaluations=%d distinct_nontrivial=%d inconclusive=%d violations=%d wall=%.1fs' % (
            self.prop, self.tier, self.seed, self.evaluations, len(self.nontrivial) + self.more_nontrivial, self.inconclusive, len(new),
            time.time() - self.t0))
        print('observed: ' + json.dumps(self.stats, sort_keys=True, default=str))
        sys.stdout.flush()
        if new:
            sys.exit(1)
        if len(self.nontrivial) + self.more_nontrivial < min_nontrivial:
            print('ERROR: too few observations (%d < %d): no verdict' % (len(self.nontrivial) + self.more_nontrivial, min_nontrivial))
            sys.exit(3)
        if self.inconclusive > max(3, self.evaluations // 10):
            print('ERROR: too many inconclusive cases: no verdict')
            sys.exit(3)
        sys.exit(0)


def pmap(fn, items, procs=NCPU, chunk=1):
    items = list(items)
    if procs <= 1 or len(items) <= 1:
        return [fn(x) for x in items]
    # (unlike multiprocessing.Pool this does not wait forever for a worker that was ended from outside)
    with ProcessPoolExecutor(min(procs, len(items)), mp_context=get_context('fork')) as p:
        return list(p.map(fn, items, chunksize=chunk))


def hob(exe, src, args=(), timeout=20, cwd=None, name='m.scad', files=None, out=None, keep=False):
    """Run hob3l on the given SCAD source in a fresh scratch directory; returns
    (Run, output bytes or None)."""
    d = tempfile.mkdtemp(prefix='hobr-', dir=cwd)
    try:
        os.makedirs(os.path.dirname(os.path.join(d, name)), exist_ok=True)
        with open(os.path.join(d, name), 'wb') as f:
            f.write(src if isinstance(src, bytes) else src.encode())
        for n, c in (files or {}).items():
            p = os.path.join(d, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'wb') as f:
                f.write(c if isinstance(c, bytes) else c.encode())
        cmd = [exe, name] + list(args)
        if out:
            cmd += ['-o', out]
        r = patient(cmd, d, timeout)
        data = None
        if out and os.path.exists(os.path.join(d, out)):
            with open(os.path.join(d, out), 'rb') as f:
                data = f.read()
        return r, data
    finally:
        if not keep:
            shutil.rmtree(d, ignore_errors=True)


def patient(cmd, cwd, timeout, **kw):
    """run with a watchdog; a timeout is repeated once with a longer limit before it counts as a hang"""
    if _hangs.value >= MAXHANG:
        timeout = 5
    r = run(cmd, cwd=cwd, timeout=timeout, **kw)
    if r.timeout:
        if _hangs.value < MAXHANG:
            r = run(cmd, cwd=cwd, timeout=timeout * 3, **kw)
        if r.timeout:
            with _hangs.get_lock():
                _hangs.value += 1
    return r


def crash_kind(r):
    """None, or what kind of misbehaviour of the process was observed"""
    if r.timeout:
        return 'hang'
    if r.rc == 77 or b'ERROR: AddressSanitizer' in r.err or b'runtime error:' in r.err:
        return 'sanitizer'
    if r.rc < 0:
        return 'signal%d' % -r.rc
    if r.rc not in (0, 1):
        return 'exit%d' % r.rc
    return None
