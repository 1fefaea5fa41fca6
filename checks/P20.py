"""Input syntax: layout, comments, numbers and errors."""
from common import main, hob
import scadsyn as S
import models
import big
import random, re, sys

sys.setrecursionlimit(20000)

NAMES = ['cube', 'sphere', 'translate', 'union', 'difference', '_x', '$fn', 'a1', 'B_2c', 'usex', 'includes', 'modul', 'function_', 'group', 'f', '$', '_']
KEYN = ['size', '$fn', 'center', 'r', 'h', 'v', '_a', 'use', 'module', 'include', 'function', 'x1']


def ast(r, depth=0):
    def val(d=0):
        k = r.random()
        if k < .25:
            return ('int', r.choice([0, 1, -1, 7, 12, -300, 2**31, -2**31 - 1, 2**53 + 1, 2**63 - 1, -2**63, r.randrange(-10**6, 10**6)]))
        if k < .45:
            return ('flt', r.choice([0.5, -0.25, 1e-9, 3.0, 1.5e300, -2.5e-300, 0.1, r.uniform(-100, 100), r.uniform(-1, 1) * 10 ** r.randint(-30, 30)]))
        if k < .6:
            return ('id', r.choice(['true', 'false', 'undef', 'PI', 'x', '$t', 'use', 'module', 'include']))
        if k < .75:
            s = ''.join(r.choice(['a', ' ', '//', '/*', '*/', "'", ';', '{', '\\"', '\\\\', '\\n', '\\t', 'ü', '\n', '<', '>', '(', '\t', '0', '#', '\r\n'])
                        for _ in range(r.choice([0, 1, 3, 6])))
            return ('str', s.encode())
        if d > 3:
            return ('arr', [])
        if k < .92:
            return ('arr', [val(d + 1) for _ in range(r.choice([0, 1, 2, 3, 3, 4]))])
        return ('rng', val(d + 1), val(d + 1) if r.random() < .5 else None, val(d + 1))

    def item(d):
        if r.random() < .08:
            return ('b', kids(d + 1))
        m = frozenset() if r.random() < .8 else frozenset([r.choice('*!#%')])
        return ('f', m, r.choice(NAMES), [(r.choice(KEYN) if r.random() < .4 else None, val()) for _ in range(r.choice([0, 1, 1, 2, 3]))], kids(d + 1))

    def kids(d):
        if d > 4:
            return []
        return [item(d) for _ in range(r.choice([0, 0, 1, 1, 2, 3]))]

    top = []
    for _ in range(r.choice([1, 1, 2, 3, 4])):
        top.append(('use', r.choice([b'a.scad', b'x y/z', b'', b'\xc3\xbc "//'])) if r.random() < .05 else item(0))
    return top


def scale_up(r, A):
    """make the tree large in one respect"""
    fs = []

    def walk(l):
        for x in l:
            if x[0] == 'f':
                fs.append(x)
            if x[0] != 'use':
                walk(x[-1])
    walk(A)
    if not fs:
        A.append(('f', frozenset(), 'f', [], []))
        fs.append(A[-1])
    f = r.choice(fs)
    num = lambda: r.choice([('int', r.randrange(1000)), ('flt', r.choice([.5, -1.25, 1e-3]))])
    one = lambda: ('f', frozenset(), r.choice(['a', 'b2', 'cube']) if r.random() < .9 else r.choice(NAMES), [(None, num())] if r.random() < .5 else [], [])
    k = r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 8, 9, 9])
    if k == 9:
        # of all kinds
        B = f[4] if r.random() < .5 else A
        for _ in range(big.size(r, 8, 150)):
            B.extend(x for x in ast(r) if B is A or x[0] != 'use')
    elif k == 0:
        at = r.randrange(len(A) + 1)
        A[at:at] = [one() for _ in range(big.size(r, 16, 1200))]
    elif k == 1:
        f[4].extend(one() for _ in range(big.size(r, 16, 1200)))
    elif k == 2:
        f[3].extend((r.choice(KEYN + [None, None]), num()) for _ in range(big.size(r, 6, 500)))
    elif k == 3:
        v = [num() for _ in range(big.size(r, 16, 2000))]
        f[3].append((None, ('arr', v if r.random() < .5 else [('arr', v[i:i + 3]) for i in range(0, len(v), 3)])))
    elif k == 4:
        n = r.choice('a_$Z') + ''.join(r.choice('abcXYZ_0189') for _ in range(big.size(r, 16, 3000)))
        q = r.randrange(3)
        if q == 0:
            A.append(('f', frozenset(), n, [], []))
        else:
            f[3].append((None, ('id', n)) if q == 1 else (n, num()))
    elif k == 5:
        b = ''.join(r.choice(['a', ' ', '//', '\\"', 'ü', '\n', '{', '0']) for _ in range(big.size(r, 16, 3000))).encode()
        if r.random() < .2:
            A.append(('use', b.replace(b'\n', b'')))
        else:
            f[3].append((None, ('str', b)))
    elif k == 6:
        v = num()
        for _ in range(big.size(r, 8, 350)):
            v = ('arr', [v])
        f[3].append((None, v))
    elif k == 7:
        x = one()
        for _ in range(big.size(r, 8, 350)):
            x = ('f', frozenset(), 'g', [], [x]) if r.random() < .8 else ('b', [x])
        A.append(x)
    else:
        m = r.choice([(b'/*', b'*/'), (b'//', b'\n')])
        n = big.size(r, 16, 20000)
        return (m[0] + (b'x' if r.random() < .5 else b'; ') * n + m[1]) if r.random() < .6 else r.choice([b' ', b'\n', b'\t', b' \r\n', b'//\n', b'\n']) * (n * r.choice([4, 30]) if n < 9000 else 65536 + r.choice([-1, 0, 1, n]))
    return b''


FRAG = ['(', ')', '{', '}', '[', ']', ',', ';', ':', '=', '<', '>', '"', '\\', '/', '//', '/*', '*/', '*', '!', '#', '%', '.', '+', '-', 'e', '1', '0', '5mm',
        '9.9.9', '1e5', '1e', '-', 'a', 'true', '$', '_', '?', '@', '&', '|', '^', '~', "'", '`', '\x80', 'ü', '\ufeff', '\x0c', '\x0b', '\x00', '\x7f', '\x01',
        '\n', '\r', ' ', '\t', 'cube(1);', 'f()', '[1:2]', '[1:2:3:4]', '[,]', '[1,,2]', '(,)', '""', '"x', '/*x', '//x', 'a$b', 'use <x>', 'use x', 'use', '{}',
        '==', '>=', '0x10', '1 2', 'a b', '}{', '()', '[1:]', '[:1]', 'x=', '=x', 'f();;', '#{}', '<x>']


def mutate(r, b):
    b = bytearray(b)
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        n = len(b)
        k = r.randrange(9)
        p = r.randrange(n + 1)
        if k <= 2:
            f = r.choice(FRAG).encode('latin-1', 'replace') if r.random() < .1 else r.choice(FRAG).encode()
            b[p:p] = f
        elif k == 3 and n:
            p = r.randrange(n)
            del b[p:p + r.choice([1, 1, 2, 5])]
        elif k == 4:
            del b[p:]
        elif k == 5 and n:
            q = min(n, p + r.choice([1, 3, 10]))
            b[q:q] = b[p:q]
        elif k == 6 and n > 1:
            p = r.randrange(n - 1)
            b[p], b[p + 1] = b[p + 1], b[p]
        elif k == 7:
            sym = [i for i, c in enumerate(b) if c in b'(){}[],;:="<>*/']
            if sym:
                del b[r.choice(sym)]
        else:
            sym = [i for i, c in enumerate(b) if c in b'(){}[],;:="<>*/']
            if sym:
                b[r.choice(sym)] = r.choice(b'(){}[],;:="<>*/')
    return bytes(b)


LOC = re.compile(rb'^m\.scad:(\d+):(?:(\d+):)? Error: \S', re.M)


def column(data, off):
    """(column, source line) as displayed with tabs of 4; None if unprintable characters are in the way"""
    a = data.rfind(b'\n', 0, off) + 1
    e = data.find(b'\n', off)
    line = data[a:] if e < 0 else data[a:e]
    out, x = b'', None
    for i, c in enumerate(line):
        if a + i == off:
            x = len(out)
        if c == 9:
            out += b' ' * (4 - len(out) % 4)
        elif c == 13 or 32 <= c <= 126:
            out += bytes([c])
        else:
            return None
    return (len(out) if x is None else x) + 1, out


def judge(exe, data, info):
    """compare acceptance, tree and error line with the reference"""
    try:
        want, ext, ntok = S.parse(data)
        verdict = 'accept' if not ext else 'free'
    except S.Reject as e:
        want, off, ext, ntok, verdict = None, e.off, e.ext, e.tokens, 'reject'
    except S.Unknown:
        want, off, ext, ntok, verdict = None, 0, (), 0, 'unknown'
    q, _ = hob.hob(exe, data, ['--dump-syn'])
    ck = hob.crash_kind(q)
    if ck:
        return ck, 'died: rc=%s %s' % (q.rc, q.etext[-500:])
    info[verdict] = info.get(verdict, 0) + 1
    info['tokens'] = info.get('tokens', 0) + ntok
    if q.rc not in (0, 1):
        return 'status', 'exit status %s' % q.rc
    if verdict == 'accept':
        if q.rc != 0:
            return 'rejects-valid', 'valid text rejected: %s' % q.etext[-500:]
    if verdict == 'reject':
        if q.rc == 0:
            return 'accepts-invalid', 'text outside the syntax (error at line %d) accepted as:\n%s' % (data.count(b'\n', 0, off) + 1, q.out.decode(errors='replace')[:1500])
        ls = [int(a) for a, b in LOC.findall(q.err)]
        if not ls:
            return 'no-location', 'the error message does not name file and line: %s' % q.etext[-500:]
        if not ext:
            line = data.count(b'\n', 0, off) + 1
            ok = {line}
            if off == len(data) and data.endswith(b'\n'):
                ok.add(line - 1)
            info['lines'] = info.get('lines', 0) + 1
            if ls[0] not in ok:
                return 'line', 'error reported in line %d instead of %d: %s' % (ls[0], line, q.etext[-500:])
            c = column(data, off) if off < len(data) else None
            if c and len(c[1]) < 20000:
                info['columns'] = info.get('columns', 0) + 1
                g = LOC.search(q.err).group(2)
                if g is None or int(g) != c[0]:
                    return 'column', 'error reported in column %r instead of %d: %s' % (g and int(g), c[0], q.etext[-500:])
                if b'\n ' + c[1] + b'\n ' + b' ' * (c[0] - 1) + b'^' not in q.err:
                    return 'excerpt', 'the error does not show the line with a mark below column %d: %s' % (c[0], q.etext[-1500:])
    if q.rc == 0 and want is not None and 'odd number' not in ext and 'modifier before block' not in ext:
        try:
            got, _, _ = S.parse(q.out)
        except (S.Reject, S.Unknown) as e:
            return 'dump', 'dump not readable: %r\n%s' % (e, q.out.decode(errors='replace')[:1500])
        info['trees'] = info.get('trees', 0) + 1
        if not S.same(S.norm(want), S.norm(got)):
            return 'tree', 'read as another tree:\n%s' % q.out.decode(errors='replace')[:2500]
    return None


def _syn(a):
    exe, seed, n = a
    r = random.Random(seed)
    info, bads, ids = {}, [], []
    for i in range(n):
        A = ast(r)
        pre = b''
        large = i % 25 == 11
        if large:
            pre = scale_up(r, A)
        t = S.emit(A, r, r.choice(['min', 'plain', 'wild', 'wild'])).encode('utf8', 'surrogateescape')
        if r.random() < (.4 if large else .7):
            t = mutate(r, t)
        if large:
            info['large'] = info.get('large', 0) + 1
            t = pre + t
            if t.count(b'\n') > 30000 and r.random() < .8:
                # an error far down
                t += r.choice([b' )', b'x', b'\n  cube(1', b'a b;', b'\t@'])
        e = judge(exe, t, info)
        ids.append(t)
        if e:
            bads.append((e[0], e[1], t))
            if len(bads) > 3:
                break
    return info, bads, ids


def _layout(a):
    """the result does not depend on the layout"""
    exe, seed = a
    m = models.source(seed, models._names)
    if m is None:
        return None
    src = m['src'].encode() if isinstance(m['src'], str) else m['src']
    r = m['rng']
    try:
        A, ext, _ = S.parse(src)
    except (S.Reject, S.Unknown) as e:
        return dict(kind='own-source', msg='%r' % e, src=src, n=0)
    bb = m['bb']
    lo, hi = float(bb[0][2]), float(bb[1][2])
    zs = ['--step=%r' % round(max(.05, (hi - lo) / 3), 4)]
    args = m['args'] + zs

    def stl(t):
        q, d = hob.hob(exe, t, args, files=m['files'], out='o.stl')
        return q.rc, d, q.etext

    a = stl(src)
    n = 0
    for style in ('min', 'wild', 'wild'):
        t = S.emit(A, r, style).encode('utf8', 'surrogateescape')
        b = stl(t)
        n += 1
        if a[:2] != b[:2]:
            return dict(kind='layout', msg='another layout (%s) has another result (exit status %s and %s)\n%s' % (style, a[0], b[0], b[2][-300:]), src=src, alt=t, n=n)
    return dict(kind=None, n=n, id=src)


def _warn(a):
    """messages about a construct name the line it stands in"""
    exe, seed, n = a
    r = random.Random(seed)
    bads, cnt = [], 0
    for _ in range(n):
        A = [('f', frozenset(), 'cube', [(None, ('int', 1))], [])]
        for _ in range(r.randint(1, 6)):
            k = r.random()
            one = ('f', frozenset(), 'cube', [(None, ('flt', 1.5))], [])
            bogus = ('f', frozenset(), 'bogus%d' % r.randrange(1000), [(None, ('int', 3))], [])
            if k < .3:
                A.append(one)
            elif k < .7:
                A.append(bogus)
            else:
                A.append(('f', frozenset(), 'translate', [(None, ('arr', [('int', 1), ('int', 2), ('int', 3)]))], [bogus, one, bogus]))
        if r.random() < .1:
            at = r.randrange(len(A) + 1)
            A[at:at] = [('f', frozenset(), 'cube', [(None, ('int', 1))], []) for _ in range(big.size(r, 30, 1000))]
        marks = []
        t = S.emit(A, r, r.choice(['plain', 'wild', 'wild']), marks).encode()
        want = sorted((t.count(b'\n', 0, o) + 1, nm) for nm, o in marks if nm.startswith('bogus'))
        q, _ = hob.hob(exe, t, ['--dump-scad'])
        got = sorted((int(a), b.decode()) for a, b in re.findall(rb"^m\.scad:(\d+):(?:\d+:)? [^\n]*'(bogus\d+)'", q.err, re.M))
        cnt += len(want)
        if q.rc != 0:
            bads.append(('warn-status', 'rc=%s %s' % (q.rc, q.etext[-300:]), t))
        elif want != got:
            bads.append(('warn-line', 'unknown functors in lines %r reported as %r' % (want, got), t))
        if len(bads) > 2:
            break
    return cnt, bads


def run():
    chk = hob.Check('P20', rule='random syntax trees written with random white space, comments, braces and line ends, two thirds then damaged at character and token '
                    'level; acceptance, the tree read and the line of the error are compared with a reference recognizer of the documented grammar; the same model in '
                    'several layouts has the same STL; warnings name the right line; counts per distinct text')
    exe = hob.build('plain')
    n = chk.n(14000, 600000)
    for info, bads, ids in hob.pmap(_syn, [(exe, chk.seed * 7919 + i, 50) for i in range(n // 50)], chunk=2):
        for k, v in info.items():
            chk.stat('syntax_' + k, v)
        for t in ids:
            chk.case(t)
        for k, msg, t in bads:
            chk.violation(k, msg + '\n--- input\n' + t.decode(errors='replace')[:1500], {'m.scad': t})
    for R in hob.pmap(_layout, [(exe, chk.seed * 100003 + i) for i in range(chk.n(260, 8000))], chunk=2):
        if R is None:
            continue
        chk.stat('layouts', R['n'])
        if R['kind']:
            chk.case(None, False)
            chk.violation(R['kind'], R['msg'], {'m.scad': R['src'], 'alt.scad': R.get('alt', b'')})
        else:
            chk.case(R['id'])
    for c, bads in hob.pmap(_warn, [(exe, chk.seed * 50021 + i, 20) for i in range(chk.n(40, 1500))]):
        chk.stat('located_warnings', c)
        chk.evaluations += c
        for k, msg, t in bads:
            chk.violation(k, msg, {'m.scad': t})
    chk.sample('accepted %s, rejected %s (line of the error compared %s times, its column and the excerpt %s times), trees compared %s' % tuple(chk.stats.get('syntax_' + k) for k in
                                                                                                     ('accept', 'reject', 'lines', 'columns', 'trees')))
    chk.assumptions += ['trailing commas, repeated modifiers, empty statements, numbers without digits, the words module/function/include as functors, and NUL or '
                        'unprintable characters in strings and paths are not judged (the document does not decide them)']
    chk.finish(chk.n(9000, 300000))


if __name__ == '__main__':
    main(run)
