"""Exit status and diagnostics tell the truth about the output: injected faults, and an oracle of the place of planted errors."""
from common import main, hob
import models
import errno as E
import os, random, re, resource, shutil, signal, subprocess, tempfile

EXT = ['stl', 'stl', 'stlb', 'js', 'scad', 'ps']
DUMP = ['--dump-syn', '--dump-scad', '--dump-csg3', '--dump-stl', '--dump-js', '--dump-ps', '--dump-csg2']
RERR = [E.EIO, E.EISDIR, E.EINTR, E.ENXIO, E.ESTALE]
WERR = [E.ENOSPC, E.EIO, E.EFBIG, E.EDQUOT, E.EPIPE]
OERR = [E.EMFILE, E.ENFILE, E.ENOENT, E.EACCES, E.EIO, E.ENOMEM, E.EINTR]
STL = b'solid t\nfacet normal 0 0 0\nouter loop\nvertex 0 0 0\nvertex 0 4 0\nvertex 4 0 0\nendloop\nendfacet\nfacet normal 0 0 0\nouter loop\nvertex 0 0 0\nvertex 4 0 0\nvertex 0 0 4\nendloop\nendfacet\n' \
      b'facet normal 0 0 0\nouter loop\nvertex 0 0 0\nvertex 0 0 4\nvertex 0 4 0\nendloop\nendfacet\nfacet normal 0 0 0\nouter loop\nvertex 4 0 0\nvertex 0 4 0\nvertex 0 0 4\nendloop\nendfacet\nendsolid t\n'
SVG = b'<svg><rect x="1" y="2" width="5" height="4"/></svg>'


def preloader():
    """the fault injector as a shared object"""
    import hashlib
    src = os.path.join(hob.VERIF, 'harness', 'fault_preload.c')
    so = os.path.join(hob.BUILD, 'fault-%s.so' % hashlib.sha256(open(src, 'rb').read()).hexdigest()[:10])
    if not os.path.exists(so):
        os.makedirs(hob.BUILD, exist_ok=True)
        r = subprocess.run(['gcc', '-O1', '-w', '-shared', '-fPIC', '-o', so + '.tmp%d' % os.getpid(), src, '-ldl'], stderr=subprocess.PIPE)
        if r.returncode:
            raise hob.HarnessError('fault injector: %s' % r.stderr.decode()[-1000:])
        os.rename(so + '.tmp%d' % os.getpid(), so)
    return so


def put(d, files, r=None):
    for n, c in files.items():
        p = os.path.join(d, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as f:
            f.write(c if isinstance(c, bytes) else c.encode())


def message(err):
    """the lines that report something other than information"""
    return [l for l in err.decode(errors='replace').split('\n') if l.strip() and 'Info:' not in l]


def model(r, seed):
    for k in range(10):
        m = models.source(seed * 10 + k, models._names + ['P17', 'P18'])
        if m and len(m['src']) < 9000 and all(len(v) < 200000 for v in (m['files'] or {}).values()):
            break
    else:
        return None
    files = dict(m['files'] or {})
    top = ''
    if r.random() < .6:
        files['sub/a.scad'] = '// part\ntranslate([50,0,%s]) import("t.stl");\n%s' % (float(m['bb'][0][2]), 'include <b.scad>\n' if r.random() < .5 else '')
        files['sub/b.scad'] = 'translate([60,0,%s])\nlinear_extrude(height=3) import("../g.svg");\n' % float(m['bb'][0][2])
        files['sub/t.stl'], files['g.svg'] = STL, SVG
        top = 'include <sub/a.scad>\n'
    k = r.random()
    files['m.scad'] = (top + m['src']) if k < .6 else (m['src'] + '\n' + top)
    if r.random() < .3:
        files['m.scad'] += '\n/*' + 'x' * r.randint(0, 9000) + '*/'
    lo, hi = float(m['bb'][0][2]), float(m['bb'][1][2])
    return files, m['args'] + ['--min=%.9g' % lo, '--max=%.9g' % hi, '--step=%.9g' % max(1e-3, (hi - lo) / r.choice([1, 2, 3, 6]))]


def call(exe, d, args, env=None, pre=None, stdout=None, so=None, fds=()):
    """run with the injector; -> Run, what was delivered"""
    log = os.path.join(d, '.log')
    fd = os.open(log, os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND)
    e = dict(env or {})
    if so:
        e.update(LD_PRELOAD=so, FAULT_LOG='9')

    def p():
        os.dup2(fd, 9)
        os.set_inheritable(9, True)
        if pre:
            pre()
    try:
        # (close_fds would close 9; the log is passed through pass_fds)
        r = _run([exe] + args, d, e, p, stdout)
    finally:
        os.close(fd)
    with open(log, 'rb') as f:
        lines = f.read().decode(errors='replace').split('\n')[:-1]
    os.unlink(log)
    return r, lines


def _run(cmd, cwd, env, pre, stdout):
    import time
    e = {'PATH': '/usr/local/bin:/usr/bin:/bin', 'LC_ALL': 'C', 'HOME': '/nonexistent'}
    e.update(env)

    def p():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 30, 1 << 30))
        pre()
    q = subprocess.Popen(cmd, cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=stdout if stdout is not None else subprocess.PIPE, stderr=subprocess.PIPE,
                         preexec_fn=p, start_new_session=True, close_fds=False)
    try:
        o, er = q.communicate(timeout=60)
        to = False
    except subprocess.TimeoutExpired:
        os.killpg(q.pid, signal.SIGKILL)
        o, er = q.communicate()
        to = True
    return hob.Run(q.returncode, o or b'', er or b'', to, 0)


def judge(kind, variant, q, want_fail, names=(), anyfail=False):
    """oracle of one run; -> None or text"""
    if q.timeout:
        return 'does not end'
    ok = q.rc == 0
    if variant == 'release':
        if q.rc not in (0, 1):
            return 'exit status %s' % q.rc
    elif q.rc not in (0, 1, -signal.SIGABRT):
        return 'exit status %s' % q.rc
    if ok and want_fail:
        return 'exit status 0 in spite of the fault'
    if not ok:
        m = message(q.err)
        if not m:
            return 'exit status %s without a message' % q.rc
        for n in names:
            if not any(n in l for l in m):
                return 'the message does not name %r: %s' % (n, '|'.join(m)[:300])
    return None


def one(job):
    seed, exes, so = job
    r = random.Random(seed * 104729 + 5)
    M = model(r, seed)
    if M is None:
        return []
    files, args = M
    base = tempfile.mkdtemp(prefix='hobp02-')
    res = []
    try:
        put(base, files)
        exe0 = exes['release']
        ext = r.choice(EXT)
        o = ['m.scad', '-o', 'o.' + ext] + args
        dump = r.choice(DUMP)
        s = ['m.scad', dump] + args
        q0, _ = call(exe0, base, o)
        if q0.rc != 0:
            return [('clean', 'model-rejected', 'release', None, q0.etext[-200:], None, ())]
        with open(os.path.join(base, 'o.' + ext), 'rb') as f:
            ref = f.read()
        qs, _ = call(exe0, base, s)
        sref = qs.out if qs.rc == 0 else None
        nf = len(files)

        def fault(kind, env=None, pre=None, variant=None, transparent=False, exact=False, args_=o, cond=None, names=None):
            v = variant or r.choice(['release', 'release', 'plain'])
            p = os.path.join(base, 'o.' + ext)
            if os.path.exists(p):
                os.unlink(p)
            q, log = call(exes[v], base, args_, env, pre, so=so)
            hit = bool(log)
            nm = []
            for l in log:
                w = l.split(' ', 1)
                if w[0] in ('open', 'read') and w[1]:
                    nm.append(w[1])
            t = judge(kind, v, q, hit and not transparent, nm[:1])
            if t is None and q.rc == 0:
                if not os.path.exists(p):
                    t = 'exit status 0 without an output file'
                else:
                    with open(p, 'rb') as f:
                        if f.read() != ref:
                            t = 'exit status 0 with an output that differs from that of an undisturbed run'
            if t is None and q.rc != 0 and not hit and not cond:
                t = 'fails without any fault: %s' % q.etext[-200:]
            res.append((kind, 'hit' if hit else 'not-hit', v, t, 'args %s env %s\ndelivered %s\nstderr %s' % (args_, env, log, q.etext[-300:]), (kind, seed, str(env)), files))
            return q

        for _ in range(2):
            k = r.randint(1, nf + 1)
            fault('open', dict(FAULT_FOPEN='%d,%d' % (k, r.choice(OERR))))
            k = r.randint(1, nf)
            n = r.choice([0, 1, 100, 4095, 4096, 4097, r.randint(0, 1 << r.randint(1, 14))] + [len(c) for c in files.values()])
            fault('read', dict(FAULT_READ='%d,%d,%d,%d' % (k, n, r.choice(RERR), r.random() < .5)))
            n = r.choice([0, 1, len(ref) - 1, len(ref), 4096, 4095, len(ref) // 4096 * 4096, r.randint(0, len(ref)), r.randint(0, len(ref))])
            fault('write', dict(FAULT_WRITE='%d,%d' % (max(0, n), r.choice(WERR))))
            fault('malloc', dict(FAULT_MALLOC='%d,%d' % (r.choice([r.randint(1, 40), r.randint(1, 400), r.randint(1, 4000)]), r.random() < .5)), transparent=True)
        fault('close', dict(FAULT_CLOSE='%d' % r.choice(WERR)))
        fault('short-reads', dict(FAULT_RSHORT='%d' % r.randint(1, 1 << 20)))

        # limits of the real system
        n = r.choice([0, 1, len(ref) - 1, r.randint(0, len(ref)), r.randint(0, len(ref)), len(ref), len(ref) + 1])
        n = max(0, n)

        def lim():
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (n, n))
        v = r.choice(['release', 'plain'])
        q, _ = call(exes[v], base, o, pre=lim)
        t = judge('fsize', v, q, n < len(ref))
        if t is None and n >= len(ref) and q.rc != 0:
            t = 'fails although the limit of %d bytes is not exceeded (%d)' % (n, len(ref))
        res.append(('fsize', 'hit' if n < len(ref) else 'not-hit', v, t, 'limit %d of %d bytes, args %s\nstderr %s' % (n, len(ref), o, q.etext[-300:]), ('fsize', seed, n), files))

        def simple(kind, a, want, pre=None, stdout=None, names=(), files_=files):
            v = r.choice(['release', 'release', 'plain'])
            fo = open(stdout, 'wb') if isinstance(stdout, str) else stdout
            q, _ = call(exes[v], base, a, pre=pre, stdout=fo)
            if isinstance(stdout, str):
                fo.close()
            t = judge(kind, v, q, want, names)
            if t is None and want is False and q.rc != 0:
                t = 'fails without reason'
            res.append((kind, 'hit', v, t, 'args %s\nstderr %s' % (a, q.etext[-300:]), (kind, seed), files_))

        dk = dict(stl='--dump-stl', stlb='--dump-stlb', js='--dump-js', scad='--dump-scad', ps='--dump-ps')[ext]
        if ref:
            simple('dev-full', ['m.scad', '-o', '/dev/full', dk] + args, True)
        if sref:
            simple('stdout-full', s, True, stdout='/dev/full')
            simple('stdout-closed', s, True, pre=lambda: os.close(1))
            k = r.randint(0, len(sref) - 1)

            def lim2():
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (k, k))
            simple('stdout-fsize', s, True, pre=lim2, stdout=os.path.join(base, 'sout'))
            # a pipe nobody reads
            rd, wr = os.pipe()
            os.close(rd)
            simple('pipe', s, True, pre=lambda: signal.signal(signal.SIGPIPE, signal.SIG_IGN), stdout=wr)
            os.close(wr)
        if seed % 7 == 0:
            h = [r.choice(['--help', '-h', '-?', '--h'])]
            simple('help-full', h, True, stdout='/dev/full')
            simple('help-closed', h, True, pre=lambda: os.close(1))
            kh = r.randint(0, 1000)

            def lim3():
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (kh, kh))
            simple('help-fsize', h, True, pre=lim3, stdout=os.path.join(base, 'hout'))
        k = r.randrange(12)
        os.makedirs(os.path.join(base, 'dir'), exist_ok=True)
        os.makedirs(os.path.join(base, 'dir.stl'), exist_ok=True)
        if not os.path.islink(os.path.join(base, 'loop.stl')):
            os.symlink('loop.stl', os.path.join(base, 'loop.stl'))
        if k == 0:
            simple('out-missing-dir', ['m.scad', '-o', 'nodir/o.stl'] + args, True, names=['nodir/o.stl'])
        elif k == 1:
            simple('out-directory', ['m.scad', '-o', 'dir.stl'] + args, True, names=['dir.stl'])
        elif k == 2:
            simple('out-suffix', ['m.scad', '-o', r.choice(['o.xyz', 'o', 'o.stl.', 'stl', 'o.STLX', 'ostl', 'o.st', 'o.jsx'])] + args, True)
        elif k == 3:
            simple('out-loop', ['m.scad', '-o', 'loop.stl'] + args, True, names=['loop.stl'])
        elif k == 4:
            simple('in-missing', ['nofile.scad', '-o', 'o.stl'] + args, True, names=['nofile.scad'])
        elif k == 5:
            simple('in-directory', ['dir', '-o', 'o.stl'] + args, True, names=['dir'])
        elif k == 6:
            simple('in-mem', ['/proc/self/mem', '-o', 'o.stl'] + args, True, names=['/proc/self/mem'])
        elif k == 7:
            simple('in-two', ['m.scad', 'm.scad', '-o', 'o.stl'] + args, True)
        elif k == 8:
            simple('in-none', ['-o', 'o.stl'] + args, True)
        elif k == 9:
            simple('nofile', o, True, pre=lambda: resource.setrlimit(resource.RLIMIT_NOFILE, (4, 4)))
        elif k == 10:
            simple('in-empty-name', ['', '-o', 'o.stl'] + args, True)
        else:
            simple('out-empty-name', ['m.scad', '-o', ''] + args, True)
        for x in ('nodir', 'no-such'):
            if os.path.exists(os.path.join(base, x)):
                res.append(('stray', 'hit', '', 'created %s' % x, '', None, ()))
        return res
    finally:
        shutil.rmtree(base, ignore_errors=True)


# --- the place that messages name -------------------------------------------------
# '@' marks the place; P: prefix of the message part looked for (None: any)
D3 = ['cube(@"a");', 'cube(@1;'.replace('@1;', '1@;'), 'cube(1@]);', 'cube([1,2@);', 'cube(1 @2);', '@)', '@]', 'cube(1)@]', '@sphere(r=1,d=2);', '@sphere(r=1,\n  d=2\n);', '@sphere(0);', '@sphere(r=-3);', '@cylinder(h=0,r=1);',
      '@cylinder(h=3,r=2,d=1);', '@cylinder(h=3,r1=2,d1=1,r2=1);', '@scale([1,0,1])\ncube(1);', '@scale([0,1,1]) { cube(1); }', '@mirror([0,0,0])\n cube(1);', '@circle(1);', '@square(2);', '@polygon([[0,0],[1,1],[0,1]]);',
      'linear_extrude(height=1) @cube(1);', 'linear_extrude(height=1)\n union() {\n square(1);\n @sphere(2);\n}', 'rotate_extrude() translate([4,0]) @cylinder(h=1,r=1);', '@linear_extrude(height=0) circle(1);',
      '@linear_extrude(height=-2)\ncircle(1);', '@linear_extrude(height=2,scale=-1) circle(1);', '@rotate_extrude(angle=0) translate([3,0]) circle(1);', 'color(@"nosuch")\ncube(1);', 'color(@"#12345") cube(1);', '@use <x.scad>',
      'import(@"nofile.stl");', 'import(file=@"nofile.stl");', 'linear_extrude(1) import(@"nofile.svg");', 'include @<nofile.scad>', 'include\n @<nofile.scad>', 'linear_extrude(1) polygon([[0,0],[1,0],[0,1]],[[0,1,@5]]);',
      'linear_extrude(1)\npolygon([[0,0],[1,0],\n[0,1]],\n[[0,1,@3]]);', 'polyhedron(points=[[0,0,0],[1,0,0],[0,1,0],[0,0,1]],faces=[[0,1,2],[0,3,1],[0,2,3],\n[1,3,@9]]);', 'translate(@"x") cube(1);', 'translate(@1,2) cube(1);',
      'cube(@[1,2]);', 'cube(@undef);', '@multmatrix([[1,0,0,0],[2,0,0,0],[0,0,1,0]]) cube(1);', '@text();' , 'linear_extrude(1) @text();', 'cylinder(h=@"a",r=1);', 'cylinder(h=1,r=@[1]);', 'sphere(r=@"1");', 'import(@7);',
      'color([1,0,@"x"]) cube(1);', 'rotate(@"a") cube(1);', 'difference(){\n cube(3);\n translate(@"q") sphere(1);\n}', '@"abc', '@/* not closed', 'cube(1)\n@"x";', 'union() { cube(1); @= }', 'cube(@=3);',
      'cube(size=@;', 'cube(size@:3);', 'linear_extrude(1) hull() {\n  circle(1);\n  @sphere(1);\n }', '@rotate(a=30,v=[0,0,0]) cube(1);', 'polyhedron(points=[[0,0,0],[1,0,@"q"]],faces=[]);']
WARN = ['@foo();', '@minkowski() cube(1);', '@echo("x");', 'cube(1,nosuch=@3);', 'translate([1,2,3])\n@resize([1,2,3]) cube(1);', 'sphere(r=1,\n zz=@4);', '@surfac("x");', '@module_x(1,2,3);', 'linear_extrude(1)\n\n@offset(r=1) circle(2);']
POL = [('@foo();', ['--unknown-functor=error', '--unsupported-functor=error']), ('@minkowski() cube(1);', ['--unsupported-functor=error']), ('cube(1,nosuch=@3);', ['--unknown-param=error']),
       ('@sphere(0);', ['--empty=warn']), ('@scale([1,0,1]) cube(1);', ['--collapse=warn']), ('linear_extrude(1) @cube(1);', ['--outside-3d=warn']), ('@circle(1);', ['--outside-2d=warn']),
       ('@cylinder(h=0,r=1);', ['--empty=warning']), ('@linear_extrude(height=0) circle(2);', ['--empty=warn'])]
DIRS = ['', 'sub', 'sub/deep', 'other']
FILL = ['cube(1);\n', '\n', '/* \n*/\n', '// x \n', 'translate([1,2,3])\n  sphere(r=2,\n  $fn=5);\n', 'difference() {\n cube(2);\n cube(1);\n}\n', '\r\n', 'cube(2); \t\n', '// include <nofile>\n', '/*' + 'y' * 3000 + '*/\n',
        'linear_extrude(height=2) square(1);\n', '// ' + 'long ' * 900 + '\n']


def place(job):
    exe, seed, n = job
    r = random.Random(seed * 31 + 7)
    res = []
    for _ in range(n):
        depth = r.choice([0, 0, 1, 2, 4])
        names = ['m.scad' if i == 0 else os.path.join(r.choice(DIRS), 'f%d.scad' % i) for i in range(depth + 1)]
        files = {}
        for i in range(depth):
            rel = os.path.relpath(names[i + 1], os.path.dirname(names[i]) or '.')
            t = ''.join(r.choice(FILL) for _ in range(r.randint(0, 6)))
            if r.random() < .3:
                t += 'translate([1,0,0])\n '
            t += 'include <%s>\n' % rel
            files[names[i]] = t + ''.join(r.choice(FILL) for _ in range(r.randint(0, 3)))
        k = r.random()
        args, warn, efile = [], False, names[depth]
        if k < .62:
            s = r.choice(D3)
        elif k < .72:
            s, warn = r.choice(WARN), True
        elif k < .82:
            s, args = r.choice(POL)
            args = list(args)
            warn = 'warn' in args[0]
        else:
            s = None
        pre = ''.join(r.choice(FILL) for _ in range(r.randint(0, 8)))
        ind = r.choice(['', '', ' ', '\t', 'cube(3); ', '\t \t', 'translate([5,5,5]) ', 'union() {\n cube(1);\n', 'translate([0,0,1])\n\t'])
        opened = '{' in ind
        if s is not None and (s[0] in '@)]"=' and s[1:2] in ')]"=/' or s.startswith('include') or s.startswith('@use')):
            ind = r.choice(['', ' ', '\t', 'cube(3); '])
            opened = False
        post = r.choice(['', '\n', '\ncube(2);\n', ' sphere(1);\n\n'])
        if s is not None:
            if s.startswith('@/*') or s.startswith('@"') or '"x";' in s:
                post = '\n'
            t = pre + ind + s + ('}' if opened else '') + post
            p = t.index('@')
            t = t[:p] + t[p + 1:]
            files[names[depth]] = t
        else:
            kind = r.choice(['stl-word', 'stl-num', 'stl-count', 'svg-tag', 'svg-attr', 'svg-warn'])
            warn = kind == 'svg-warn'
            efile = os.path.join(r.choice(DIRS), 'bad.' + kind[:3])
            rel = os.path.relpath(efile, os.path.dirname(names[depth]) or '.')
            tri = 'facet normal 0 0 1\nouter loop\nvertex 0 0 0\nvertex 1 0 0\nvertex 0 1 0\nendloop\nendfacet\n'
            head = 'solid x\n' + ''.join(tri.replace('1 0 0', '1 %d 0' % q) for q in range(r.randint(0, 5)))
            S = '<svg>\n' + ''.join(r.choice(['<rect width="3"\n height="4"/>\n', '\n', '<!-- \n -->\n', '<g>\n<circle r="3"/></g>\n']) for _ in range(r.randint(0, 5)))
            e = dict([('stl-word', head + r.choice([tri.replace('outer', '@inner'), tri.replace('endloop', '@endlop'), tri.replace('facet normal', '@face normal', 1), tri.replace('endfacet', '@endface')]) + 'endsolid\n'),
                      ('stl-num', head + r.choice([tri.replace('vertex 1 0 0', 'vertex 1 @x 0'), tri.replace('vertex 1 0 0', 'vertex 1 @1e 0'), tri.replace('vertex 1 0 0', 'vertex 1 0 @-')]) + 'endsolid\n'),
                      ('stl-count', head + r.choice([tri.replace('vertex 0 1 0\n', '').replace('endloop', '@endloop'), tri.replace('endloop', '@vertex 3 3 3\nendloop'), tri.replace('1 0 0\n', '1 0 0 @7\n')]) + 'endsolid\n'),
                      ('svg-tag', S + r.choice(['<rect width="3" height="4"></@g></svg>', '<rect width="3" height="4"@</svg>', '<rect width="3" @=4/></svg>', '</svg><@g/>', '<g @&x; /></svg>'])),
                      ('svg-attr', S + r.choice(['<rect width="3" height=@4/></svg>', '<g\n a="@&x;"/></svg>', '<circle r=@3 /></svg>'])),
                      ('svg-warn', S + r.choice(['<path d="M 0 0 L 3 3\n L 4 @x"/></svg>', '<path d="M 0 0 L 3 3 A 1 2 3 @5 0 3 3"/></svg>', '<path d="M 1 2 3 @Z"/></svg>', '<path d="M 1 2 3 4 @K"/></svg>',
                                                 '<rect width="3" height="4"\ntransform="@foo(3)"/></svg>']))])[kind]
            p = e.index('@')
            t = e[:p] + e[p + 1:]
            s = kind
            files[efile] = t
            files[names[depth]] = pre + ind + ('linear_extrude(1)\n' if kind[:3] == 'svg' else '') + 'import("%s");' % rel + ('}' if opened else '') + post
        line = t.count('\n', 0, p) + 1
        end = t.find('\n', p)
        src = t[t.rfind('\n', 0, p) + 1:end if end >= 0 else len(t)]
        col = p - (t.rfind('\n', 0, p) + 1)
        out = r.choice(['o.stl', 'o.js', 'o.scad', 'o.ps'])
        d = tempfile.mkdtemp(prefix='hobp02p-')
        try:
            put(d, files)
            q = hob.patient([exe, 'm.scad', '-o', out, '--step=1'] + args, d, 30)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        tx = None
        e = q.etext
        want = 'Warning' if warn else 'Error'
        L = e.split('\n')
        hit = [i for i, l in enumerate(L) if re.match(r'(.*?):\d+:(\d+:)? %s: ' % want, l)]
        if q.timeout or q.rc not in (0, 1):
            tx = 'exit status %s' % q.rc
        elif (q.rc == 0) != warn:
            tx = 'exit status %d with %s' % (q.rc, 'a mere warning' if warn else 'an error in the input')
        elif not hit:
            tx = 'no %s with a place' % want.lower()
        else:
            def at(l):
                x = re.match(r'(.*?):(\d+):', l)
                return os.path.normpath(x.group(1)) == os.path.normpath(efile) and int(x.group(2)) == line
            here = [i for i in hit if at(L[i])]
            if not here:
                tx = 'the place is %s, but the message names %s' % ('%s:%d' % (efile, line), L[hit[0]][:100])
            elif not warn and len(hit) > 1:
                tx = 'several errors'
            else:
                # the excerpt and the mark below it
                i = here[0] + 1
                while i + 1 < len(L) and L[i + 1].strip() != '^':
                    i += 1
                x = 0
                pos = None
                exp = ''
                for j, ch in enumerate(src):
                    if j == col:
                        pos = len(exp)
                    exp += ' ' * (4 - len(exp) % 4) if ch == '\t' else ch
                if pos is None:
                    pos = len(exp)
                if i + 1 >= len(L):
                    tx = 'no excerpt'
                elif L[i].rstrip('\r') != ' ' + exp.rstrip('\r'):
                    tx = 'the excerpt is not line %d: %r' % (line, L[i][:200])
                # (a string may be marked at the quote or behind it)
                elif L[i + 1] not in [' ' + ' ' * x + '^' for x in (pos, pos + (src[col:col + 1] == '"'))]:
                    tx = 'the mark is at %d, not at %d' % (len(L[i + 1]) - 2, pos)
                elif ':%d:%d:' % (line, len(L[i + 1]) - 1) not in L[here[0]]:
                    tx = 'the column is not %d: %s' % (pos + 1, L[here[0]][:100])
        res.append(('place', want.lower(), 'release', tx, 'planted: %s in %s line %d\nstderr: %s' % (s, efile, line, e[:600]), ('place', s, depth, efile, line, ind), {k.replace('/', '%'): v for k, v in files.items()}))
    return res


def truth(job):
    """any input: status 0 exactly without errors, a message otherwise; a complete file with status 0"""
    import P01
    exe, seed = job
    kind, src, files, args, out = P01.gen(seed)
    a = list(args) + (['-o', out] if out[0] != '-' else [out])
    a = [y.encode('latin-1').decode('utf-8', 'surrogateescape').replace('\0', '') for y in a]
    if any('help' in y or y.lstrip('-') in ('h', '?') or re.match(r'-*(h|\?)=', y) for y in a):
        return []
    d = tempfile.mkdtemp(prefix='hobp02t-')
    try:
        put(d, dict(files, **{'m.scad': src}))
        q = hob.patient([exe, 'm.scad'] + a, d, 30)
        p = os.path.join(d, out)
        data = open(p, 'rb').read() if out[0] != '-' and os.path.exists(p) else None
    finally:
        shutil.rmtree(d, ignore_errors=True)
    t = None
    err = [l for l in q.etext.split('\n') if re.search(r'(^|: )(Fatal )?Error: ', l)]
    if q.timeout or q.rc not in (0, 1):
        t = 'exit status %s' % q.rc
    elif q.rc == 0 and err:
        t = 'exit status 0 with: %s' % err[0][:200]
    elif q.rc == 1 and not message(q.err):
        t = 'exit status 1 without a message'
    elif q.rc == 0 and out[0] != '-':
        dumps = [y for y in a if y.lstrip('-').startswith('dump-')]
        if data is None:
            if not any(y in ('-o',) or y.lstrip('-').startswith('o=') for y in a[:-2]):
                t = 'exit status 0 without an output file'
        elif not dumps and not any(y.lstrip('-').startswith('stl') for y in a) and not any('STL' in y for y in a):
            e = dict(stl=rb'endsolid [^\n]*\n\Z', js=rb'(\A|\n)\Z', scad=rb'(\}|\n)\s*\Z', ps=rb'%%EOF\n\Z', stlb=None)[out.split('.')[1]]
            if e and not re.search(e, data):
                t = 'exit status 0 with an incomplete output: ...%r' % data[-60:]
            if e is None and len(data) != 84 + 50 * int.from_bytes(data[80:84], 'little'):
                t = 'exit status 0 with an incomplete output: %d bytes' % len(data)
    return [('truth-' + ('ok' if q.rc == 0 else 'error'), 'hit', 'release', t, 'args %s\nstderr %s' % (a, q.etext[-300:]), ('truth', seed), dict({k.replace('/', '%'): v for k, v in files.items()}, **{'m.scad': src}))]


def dispatch(j):
    return dict(one=one, place=place, truth=truth)[j[0]](j[1])


def run():
    c = hob.Check('P02', rule='a run of the real program with a fault delivered by the injector or by a limit of the system, or with an error planted at a known place; distinct by fault, point and model, or by error, file and line')
    so = preloader()
    exes = dict(release=hob.build('release'), plain=hob.build('plain'))
    b = c.seed * 1000000
    jobs = [('one', (b + i, exes, so)) for i in range(c.n(140, 6000))]
    jobs += [('place', (exes['release'], b + i, 20)) for i in range(c.n(50, 1500))]
    jobs += [('truth', (exes['release'], b * 10 + 5000000 + i)) for i in range(c.n(900, 40000))]
    for (what, _), L in zip(jobs, hob.pmap(dispatch, jobs, chunk=4)):
        for kind, hit, v, text, detail, ident, files in L:
            if ident is None:
                c.stat('models_skipped')
                if text:
                    c.violation(kind, '%s\n%s' % (text, detail))
                continue
            c.case(ident, hit != 'not-hit')
            c.stat('%s_%s' % (kind, hit))
            if text:
                c.violation(kind, '%s (%s build): %s\n%s' % (kind, v, text, detail), files if isinstance(files, dict) else None)
            elif hit == 'hit' and len(c.samples) < 3 and kind in ('read', 'write', 'malloc'):
                c.sample(dict(kind=kind, detail=detail[:500]))
    c.finish(min_nontrivial=300)


if __name__ == '__main__':
    main(run)
