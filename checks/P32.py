"""File names resolve relative to the including file and data is read whole."""
from common import main, hob
import scadsyn as S
import models
import P20
import big
import os, random, re, sys

sys.setrecursionlimit(20000)

DIRS = ['', 'a', 'a/b', 'lib dir', 'a/b/c', 'x.y', 'ü', '..x', 'lib dir/z', 'L' * 180, 'M' * 120 + '/' + 'N' * 120]


def rel(r, frm, to):
    """a relative (sometimes roundabout) name of file `to` seen from the directory of file `frm`"""
    p = os.path.relpath(to, os.path.dirname(frm) or '.')
    k = r.random()
    if k < .15:
        p = './' + p
    elif k < .25:
        p = p.replace('/', '//') if '/' in p else './/' + p
    elif k < .3:
        p = '../%s/' % os.path.basename(os.path.dirname(frm)) + p if os.path.dirname(frm) else p
    elif k < .32 and getattr(r, 'longs', 0) < 2:
        # long, but not beyond what the system can open
        r.longs = getattr(r, 'longs', 0) + 1
        p = './' * big.size(r, 16, 350) + p
    return p


def escape(r, t):
    """as it stands in a string"""
    for a, b in (('\\', '\\\\'), ('"', '\\"'), ('\t', '\\t'), ('\n', '\\n'), ('\r', '\\r')):
        t = t.replace(a, b if a in '\\"\n\r' or r.random() < .6 else a)
    return t


class Split:
    """distribute an AST over several files"""

    def __init__(self, r, files, p=.2, absdir=None):
        self.r, self.files, self.p = r, dict(files or {}), p
        self.out = {}
        self.n = 0
        self.depth = 0
        self.style = r.choice(['plain', 'plain', 'wild'])

    def newname(self):
        self.n += 1
        return os.path.join(self.r.choice(DIRS), 'i%d%s' % (self.n, self.r.choice(['.scad', '.inc', '', ' x.scad', '.SCAD', "'q"])))

    def imports(self, item, fn):
        """move imported files and name them relative to fn"""
        if item[0] != 'f' or not item[2].startswith('import'):
            return item
        args = []
        for k, v in item[3]:
            if v[0] == 'str' and k in (None, 'file') and v[1].decode() in self.files:
                old = v[1].decode()
                odd = self.r.choice(['"', '\\', '\t', ' ', '\n', '\r', "a\\n'", '%s', '\\\\"']) if self.r.random() < .2 else ''
                new = os.path.join(self.r.choice(DIRS), 'd%d%s%s' % (len(self.out), odd, os.path.splitext(old)[1]))
                self.out[new] = self.files[old]
                v = ('str', escape(self.r, rel(self.r, fn, new)).encode())
            args.append((k, v))
        return ('f', item[1], item[2], args, item[4])

    def items(self, L, fn, depth):
        """list of items as they appear in file fn: ('inc', path) items allowed"""
        out = []
        i = 0
        while i < len(L):
            if self.r.random() < self.p and depth < 8:
                j = min(len(L), i + self.r.choice([0, 1, 1, 2, 5]))
                out.append(('inc', self.file(L[i:j], fn, depth + 1)))
                i = j
                if j == i and self.r.random() < .5:
                    continue
                continue
            x = L[i]
            i += 1
            if x[0] == 'b':
                out.append(('b', self.items(x[1], fn, depth)))
            elif x[0] == 'f':
                x = self.imports(x, fn)
                out.append(('f', x[1], x[2], x[3], self.items(x[4], fn, depth)))
            else:
                out.append(x)
        return out

    def file(self, L, frm, depth):
        fn = self.newname()
        self.depth = max(self.depth, depth)
        self.out[fn] = None
        self.out[fn] = self.text(self.items(L, fn, depth))
        return rel(self.r, frm, fn)

    def text(self, L):
        t = emit(L, self.r, self.style).encode('utf8', 'surrogateescape')
        k = self.r.random()
        if k < .1:       # sizes around multiples of usual buffers
            n = self.r.choice([4096, 8192, 65536] * 6 + [1 << 20]) + self.r.choice([-1, 0, 1]) - len(t)
            if n > 2:
                t = (b'//' + b'x' * (n - 3) + b'\n' + t) if self.r.random() < .5 else t + b'\n' * n
        elif k < .2:
            t += b'//' + b'y' * self.r.choice([0, 1, 5000])
        return t


def emit(L, r, style):
    """like scadsyn.emit with includes"""
    out = []

    def one(x):
        if x[0] == 'inc':
            return S.gap(r, style) + 'include' + S.gap(r, style) + '<' + x[1] + '>'
        if x[0] == 'b':
            return S.gap(r, style) + '{' + ''.join(one(y) for y in x[1]) + S.gap(r, style) + '}'
        if x[0] == 'use':
            return S.emit([x], r, style)
        head = S.emit([('f', x[1], x[2], x[3], [])], random.Random(1), 'min')
        head = head[:-1] if head.endswith(';') else head[:-2]
        k = x[4]
        if not k:
            return S.gap(r, style) + head + ';'
        if len(k) == 1 and k[0][0] in ('inc', 'f') and r.random() < .6:
            return S.gap(r, style) + head + one(k[0])
        return S.gap(r, style) + head + '{' + ''.join(one(y) for y in k) + '}'

    for x in L:
        out.append(one(x))
    out.append(S.gap(r, style))
    return ''.join(out)


def has_use(L):
    return any(x[0] == 'use' or (x[0] != 'use' and has_use(x[-1])) for x in L)


def _tree(a):
    exe, seed, n = a
    r = random.Random(seed)
    bads, st, ids = [], dict(files=0, deepest=0, trees=0), []
    for _ in range(n):
        A = P20.ast(r)
        if has_use(A):
            continue
        r.longs = 0
        large = r.random() < .06
        pre = P20.scale_up(r, A) if large else b''
        if has_use(A):
            continue
        s = Split(r, {}, r.choice([.1, .3, .6]))
        name = os.path.join(r.choice(DIRS), 'm.scad')
        s.out[name] = None
        if large and r.random() < .5:
            # a long chain of files
            fn, chain = name, []
            r.longs = 2
            for i in range(big.size(r, 8, 90)):
                fn = os.path.join(r.choice(['', 'a', 'a/b']), 'ch%d' % i)
                chain.append(fn)
            s.out[fn] = None
            s.out[fn] = s.text(s.items(A, fn, 0 if len(chain) < 80 else 7))
            for i in range(len(chain) - 1, -1, -1):
                up = chain[i - 1] if i else name
                s.out[up] = s.text([('inc', rel(r, up, chain[i]))])
            st['deepest'] = max(st['deepest'], len(chain))
            t = s.out[name]
        else:
            s.out[name] = t = pre + s.text(s.items(A, name, 0))
            s.out[name] = t
        q, _ = hob.hob(exe, t, ['--dump-syn'], name=name, files={k: v for k, v in s.out.items() if k != name})
        files = {k.replace('/', '%'): v for k, v in s.out.items()}
        ids.append(repr(sorted(s.out.items())))
        st['files'] += len(s.out)
        st['deepest'] = max(st['deepest'], s.depth)
        ck = hob.crash_kind(q)
        if ck or q.rc != 0:
            bads.append((ck or 'include-rejected', 'rc=%s %s' % (q.rc, q.etext[-400:]), files))
        else:
            try:
                got = S.parse(q.out)[0]
            except (S.Reject, S.Unknown) as e:
                bads.append(('dump', '%r' % e, files))
                continue
            st['trees'] += 1
            if not S.same(S.norm(A), S.norm(got)):
                bads.append(('include-tree', 'included text is read as another tree:\n%s' % q.out.decode(errors='replace')[:2000], files))
        if len(bads) > 2:
            break
    return bads, st, ids


def _stl(a):
    exe, seed = a
    m = models.source(seed, models._names + ['P17', 'P18', 'P17', 'P18'])
    if m is None:
        return None
    src = m['src'].encode() if isinstance(m['src'], str) else m['src']
    r = m['rng']
    try:
        A = S.parse(src)[0]
    except (S.Reject, S.Unknown) as e:
        return dict(kind='own-source', msg='%r' % e, files={'m.scad': src}, st={})
    lo, hi = float(m['bb'][0][2]), float(m['bb'][1][2])
    args = m['args'] + ['--step=%r' % round(max(.05, (hi - lo) / 3), 4)]
    q0, d0 = hob.hob(exe, src, args, files=m['files'], out='o.stl')
    s = Split(r, {k: (v if isinstance(v, bytes) else v.encode()) for k, v in (m['files'] or {}).items()}, r.choice([.15, .4]))
    name = os.path.join(r.choice(DIRS), 'm.scad')
    s.out[name] = None
    s.out[name] = t = s.text(s.items(A, name, 0))
    q1, d1 = hob.hob(exe, t, args, name=name, files={k: v for k, v in s.out.items() if k != name}, out='o.stl')
    st = dict(stl=1, stl_files=len(s.out), stl_imports=len(m['files'] or {}))
    if (q0.rc, d0) != (q1.rc, d1):
        return dict(kind='include-stl', msg='the same text in several files has another result: exit status %s and %s\n%s' % (q0.rc, q1.rc, q1.etext[-400:]),
                    files={k.replace('/', '%'): v for k, v in s.out.items()}, st=st)
    return dict(kind=None, st=st, id=repr(sorted(s.out.items())))


CUBE = b'cube(1);\n'


def _err(a):
    """errors in included and imported files"""
    exe, seed, n = a
    r = random.Random(seed)
    bads, st = [], {}
    for _ in range(n):
        depth = r.randint(0, 5) if r.random() < .95 else big.size(r, 6, 90)
        # (names add up from file to file, they must stay below the system's limit)
        r.longs = 0 if depth < 6 else 2
        names = [os.path.join(r.choice(DIRS if depth < 6 else DIRS[:7]), 'f%d.scad' % i) for i in range(depth + 1)]
        files, lines = {}, []
        kind = r.choice(['missing', 'missing', 'directory', 'dangling', 'syntax', 'syntax', 'functor', 'import-missing', 'import-directory', 'self', 'parent', 'stl', 'svg',
                         'unterminated', 'nopath', 'selflink', 'slash'])
        for i in range(depth):
            pre = r.randint(0, 6) if r.random() < .97 else big.size(r, 30, 5000)
            files[names[i]] = b''.join(r.choice([CUBE, b'\n', b'/* \n*/\n', b'// include <x>\n']) for _ in range(pre)) \
                + b'include <' + rel(r, names[i], names[i + 1]).encode() + b'>\n' + CUBE * r.randint(0, 2)
        pre = b''.join(r.choice([CUBE, b'\n', b'/* \n*/\n']) for _ in range(r.randint(0, 6) if r.random() < .95 else big.size(r, 30, 40000)))
        last = names[depth]
        links, dirs = {}, []
        efile, eline = last, pre.count(b'\n') + 1
        no = 'no/such' if r.random() < .5 else 'nofile.x'
        if kind == 'missing':
            t = b'include <%s>' % no.encode()
        elif kind == 'directory':
            dirs.append(os.path.join(os.path.dirname(last), 'dd'))
            t = b'include <dd>'
        elif kind == 'slash':
            files[os.path.join(os.path.dirname(last), 'ok.scad')] = CUBE
            t = b'include <ok.scad/>'
        elif kind == 'dangling':
            links[os.path.join(os.path.dirname(last), 'll')] = 'nofile'
            t = b'include <ll>'
        elif kind == 'selflink':
            links[os.path.join(os.path.dirname(last), 'll')] = 'll'
            t = b'include <ll>'
        elif kind == 'syntax':
            t = b'cube(1'+ r.choice([b';', b'}', b']', b'|'])
        elif kind == 'functor':
            t = b'cube(h=1, h=7, "x");'
        elif kind == 'unterminated':
            t = b'/* cube(1);'
        elif kind == 'nopath':
            t = b'include %s;' % r.choice([b'"a"', b'', b'a', b'(a)', b'= a', b'; <a>'])
        elif kind == 'import-missing':
            t = b'import("%s.%s");' % (no.encode(), b'stl')
        elif kind == 'import-directory':
            dirs.append(os.path.join(os.path.dirname(last), 'dd.stl'))
            t = b'import("dd.stl");'
        elif kind == 'self':
            t = b'include <%s>' % os.path.basename(last).encode()
            efile = None
        elif kind == 'parent':
            t = b'include <%s>' % rel(r, last, names[r.randint(0, depth)]).encode()
            efile = None
        elif kind == 'stl':
            efile = os.path.join(r.choice(DIRS), 'bad.stl')
            k = r.randint(0, 5)
            tri = b'facet normal 0 0 1\nouter loop\nvertex 0 0 0\nvertex 1 0 0\nvertex 0 1 0\nendloop\nendfacet\n'
            files[efile] = b'solid x\n' + tri * k + tri.replace(b'outer', b'inner')
            eline = 1 + 7 * k + 2
            t = b'import("%s");' % rel(r, last, efile).encode()
        else:
            efile = os.path.join(r.choice(DIRS), 'bad.svg')
            k = r.randint(0, 5)
            files[efile] = b'<svg>\n' + b'<g>\n</g>\n' * k + b'</g>\n</svg>'
            eline = 2 * k + 2
            t = b'linear_extrude(1) import("%s");' % rel(r, last, efile).encode()
        if r.random() < .5:
            t += b'\n' + CUBE
        files[last] = pre + t

        def setup(d):
            for p in dirs:
                os.makedirs(os.path.join(d, p), exist_ok=True)
            for p, to in links.items():
                os.makedirs(os.path.dirname(os.path.join(d, p)), exist_ok=True)
                if not os.path.lexists(os.path.join(d, p)):
                    os.symlink(to, os.path.join(d, p))
        q = go(exe, files, names[0], setup, [])
        st[kind] = st.get(kind, 0) + 1
        rep = {k.replace('/', '%'): v for k, v in files.items()}
        ck = hob.crash_kind(q)
        if ck:
            bads.append((kind + '-' + ck, 'rc=%s %s' % (q.rc, q.etext[-400:]), rep))
        elif q.rc != 1:
            bads.append((kind + '-accepted', 'expected an error (%s) but exit status is %s: %s' % (kind, q.rc, q.etext[-300:]), rep))
        else:
            m = re.search(r'^(.*?):(\d+):(?:\d+:)? Error: \S', q.etext, re.M)
            if not m:
                bads.append((kind + '-message', 'the error message names no file and line: %s' % q.etext[-300:], rep))
            elif efile and (os.path.normpath(m.group(1)), int(m.group(2))) != (os.path.normpath(efile), eline):
                bads.append((kind + '-place', 'error reported at %s:%s, expected %s:%d (%s)\n%s' % (m.group(1), m.group(2), efile, eline, kind, q.etext[-300:]), rep))
        if len(bads) > 2:
            break
    return bads, st


def go(exe, files, name, setup=None, args=(), out='o.stl', timeout=30):
    import tempfile, shutil
    d = tempfile.mkdtemp(prefix='hobr-')
    try:
        for n, c in files.items():
            p = os.path.join(d, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'wb') as f:
                f.write(c)
        if setup:
            setup(d)
        return hob.patient([exe, name, '-o', out] + list(args), d, timeout)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run():
    chk = hob.Check('P32', rule='random models and syntax trees distributed over include files in random directories, at random positions and depths, with imported data '
                    'moved along, must be read as the tree and give the STL of the single file; errors at any depth must be reported with the file and line; counts '
                    'per distinct set of files')
    exe = hob.build('plain')
    n = chk.n(2400, 100000)
    for bads, st, ids in hob.pmap(_tree, [(exe, chk.seed * 7919 + i, 20) for i in range(n // 20)]):
        for k, v in st.items():
            if k == 'deepest':
                chk.stats[k] = max(v, chk.stats.get(k, 0))
            else:
                chk.stat(k, v)
        for t in ids:
            chk.case(t)
        for k, msg, files in bads:
            chk.violation(k, msg, files)
    for R in hob.pmap(_stl, [(exe, chk.seed * 100003 + i) for i in range(chk.n(350, 10000))], chunk=2):
        if R is None:
            continue
        for k, v in R['st'].items():
            chk.stat(k, v)
        if R['kind']:
            chk.case(None, False)
            chk.violation(R['kind'], R['msg'], R['files'])
        else:
            chk.case(R['id'])
    for bads, st in hob.pmap(_err, [(exe, chk.seed * 31337 + i, 20) for i in range(chk.n(60, 1500))]):
        for k, v in st.items():
            chk.stat('error_' + k, v)
            chk.evaluations += v
        for k, msg, files in bads:
            chk.violation(k, msg, files)
    # many files: no resource runs out
    k = 1500
    files = {'m.scad': b''.join(b'include <d/i%d.scad>\n' % i for i in range(k))}
    for i in range(k):
        files['d/i%d.scad' % i] = b'translate([%d,0,0])cube(1);' % (2 * i)
    q = go(exe, files, 'm.scad', None, ['--dump-syn'], timeout=60)
    chk.case('many')
    if q.rc != 0:
        chk.violation('many', '%d include files: rc=%s %s' % (k, q.rc, q.etext[-300:]))
    # absolute names
    import tempfile, shutil
    d = tempfile.mkdtemp(prefix='hobr-')
    try:
        os.mkdir(d + '/s')
        open(d + '/s/a.scad', 'w').write('include <b.scad> cube(3);')
        open(d + '/s/b.scad', 'w').write('sphere(2);')
        for a, b in (('m.scad', '<%s/s/a.scad>' % d), (d + '/m.scad', '<s/a.scad>'), (d + '/m.scad', '<%s/s/a.scad>' % d), ('./m.scad', '<./s/../s/a.scad>')):
            open(d + '/m.scad', 'w').write('include %s;' % b)
            q = hob.run([exe, a, '--dump-syn'], cwd=d)
            chk.case((a.replace(d, ''), b.replace(d, '')))
            if q.rc != 0 or q.out.split() != b'sphere(2); cube(3);'.split():
                chk.violation('absolute', '%s includes %s: rc=%s %s %s' % (a, b, q.rc, q.out, q.etext))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    chk.sample('trees %s over %s files, deepest %s' % (chk.stats.get('trees'), chk.stats.get('files'), chk.stats.get('deepest')))
    chk.assumptions += ['file permissions are not exercised (the checks run as root); directories, dangling and circular links stand in for unreadable files']
    chk.finish(chk.n(1500, 60000))


if __name__ == '__main__':
    main(run)
