"""Numbers are read with their value in every notation."""
from common import main, hob
import random, re, struct
from fractions import Fraction

NUM = re.compile(r'(?<![\w$])[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?(?![\w$])')


def decimal(r, big=True):
    """(sign, digit string, exponent): value = sign * 0.digits * 10^exponent"""
    k = r.random()
    if k < .4:
        d = str(r.randrange(0, 10 ** r.randint(1, 6)))
        e = r.randint(-2, 6)
    elif k < .6:
        v = abs(r.uniform(0, 10 ** r.randint(-3, 4)))
        m, e = ('%.16e' % v).split('e')
        d, e = m.replace('.', ''), int(e) + 1
    elif k < .75:        # between two doubles: many digits decide the rounding
        v = struct.unpack('<d', struct.pack('<Q', r.randrange(0x3ff0000000000000, 0x4100000000000000)))[0]
        w = struct.unpack('<d', struct.pack('<Q', struct.unpack('<Q', struct.pack('<d', v))[0] + 1))[0]
        m = (Fraction(v) + Fraction(w)) / 2 + r.choice([-1, 0, 1]) * Fraction(1, 10 ** 60)
        n = m * 10 ** 80
        d = str(n.numerator // n.denominator)
        e = len(d) - 80
    elif k < .9 and big:
        d = str(r.randrange(1, 10 ** 17))
        e = r.randint(-330, 300)
    else:
        d = str(r.randrange(0, 10 ** 9)) + '0' * r.randint(0, 30) + str(r.randrange(10))
        e = r.randint(-5, 5)
    return r.choice(['', '-']), d, e


def spell(r, dec, plus=True, lead=True, trail=True, style=None):
    """one of the notations of the decimal"""
    sg, d, e = dec
    d = '0' * r.choice([0, 0, 0, 1, 3]) + d if False else d
    x = r.choice([0, 0, 0, r.randint(-6, 6), e, e - len(d)]) if abs(e) < 40 else r.choice([e, e - 1, e + r.randint(-3, 3)])
    p = e - x                  # position of the point
    if p <= 0:
        a, b = '', '0' * -p + d
    elif p >= len(d):
        a, b = d + '0' * (p - len(d)), ''
    else:
        a, b = d[:p], d[p:]
    if r.random() < .3 and lead:
        a = '0' * r.choice([1, 2, 20]) + a
    if r.random() < .3 and b:
        b += '0' * r.choice([1, 3, 40])
    if not a and (not lead or r.random() < .5 or not b):
        a = '0'
    s = a
    if b:
        s += '.' + b
    elif r.random() < .3 and trail:
        s += '.'
    if x or r.random() < .2:
        s += r.choice('eE') + (r.choice(['', '+']) if x >= 0 else '-') + r.choice(['', '', '0', '000']) + str(abs(x))
    if not sg and plus and r.random() < .15:
        sg = '+'
    return sg + s


def close(a, b):
    return a == b or abs(a - b) <= 6e-16 * max(abs(a), abs(b)) + 1e-320


def numbers(text):
    return [float(t) for t in NUM.findall(text)]


def _scad(a):
    """tokens: the syntax tree shows the values; 60 numbers per file"""
    exe, seed, n = a
    r = random.Random(seed)
    bads, vals = [], 0
    ids = []
    for _ in range(n):
        T = []
        for _ in range(60):
            t = spell(r, decimal(r))
            if not any(c in t for c in '.eE') and not -2 ** 63 <= int(t) < 2 ** 63:
                t += '.'
            if abs(float(t)) == float('inf'):
                t = '1.5'
            T.append(t)
        T += [str(r.choice([2 ** 63 - 1, -2 ** 63, 2 ** 53 + 1, r.randrange(-2 ** 63, 2 ** 63)])) for _ in range(4)]
        src = 'f([%s]);' % ','.join(T)
        q, _ = hob.hob(exe, src, ['--dump-syn'])
        ids.append(src)
        if q.rc != 0:
            bads.append(('scad-rejected', 'rc=%s %s' % (q.rc, q.etext[-400:]), src))
            continue
        got = NUM.findall(q.out.decode())
        vals += len(T)
        if len(got) != len(T):
            bads.append(('scad-count', '%d numbers became %d' % (len(T), len(got)), src))
            continue
        for t, g in zip(T, got):
            if re.fullmatch(r'[+-]?\d+', t):
                if int(t) != (int(g) if re.fullmatch(r'[+-]?\d+', g) else None):
                    bads.append(('scad-int', 'integer %s read as %s' % (t, g), src))
                    break
            elif not close(float(t), float(g)):
                bads.append(('scad-float', 'number %s = %r read as %s' % (t, float(t), g), src))
                break
    return bads, vals, ids


def small(r, lo=.3, hi=30., sign=False):
    v = r.choice([float(r.randint(1, 25)), r.randint(1, 50) / 2, r.randint(1, 99) / 8, round(r.uniform(lo, hi), r.randint(1, 6)), r.uniform(lo, hi)])
    m, e = ('%.17e' % v).split('e')
    d = m.replace('.', '').rstrip('0') or '0'
    return ('-' if sign and r.random() < .4 else '', d, int(e) + 1)


def val(dec):
    return float('%s0.%se%d' % dec)


def _geo(a):
    """the same model with its numbers in two notations: dumps of all stages and the output agree"""
    exe, seed = a
    r = random.Random(seed)
    D = [small(r) for _ in range(3)] + [small(r, sign=True) for _ in range(6)]
    k = r.randrange(6)
    form = ['translate([%s,%s,%s]) cube([%s,%s,%s]);', 'rotate([%s,%s,%s]) translate([%s,%s,%s]) cylinder(r=%s,h=%s,$fn=7);', 'multmatrix([[1,%s,0,%s],[0,1,0,%s]]) cube([%s,%s,%s]);',
            'linear_extrude(height=%s,scale=%s) polygon([[0,0],[%s,0],[%s,%s]]);', 'cylinder(r1=%s,r2=%s,h=%s,$fn=5,center=true);',
            'scale([%s,%s,%s]) sphere(%s,$fn=8);'][k]
    n = form.count('%s')
    D = ([small(r, sign=True) for _ in range(3)] + [small(r) for _ in range(9)])[:n] if k < 3 else [small(r) for _ in range(n)]

    def scad(d):
        t = spell(r, d)
        return t if any(c in t for c in '.eE') or len(t) < 18 else t + '.0'
    s1 = form % tuple(repr(val(d)) for d in D)
    s2 = form % tuple(scad(d) for d in D)
    if r.random() < .15:
        # the constant
        j = r.randrange(n)
        D[j] = ('', '3141592653589793', 1)
        s1 = form % tuple(repr(val(d)) for d in D)
        s2 = form % tuple('PI' if i == j else scad(d) for i, d in enumerate(D))
    s3 = form % tuple((str(int(val(d))) if val(d) == int(val(d)) else repr(val(d))) for d in D)
    bads = []
    for x, out in ((['--dump-scad'], None), (['--dump-csg3'], None), (['--step=1.7'], 'o.stl')):
        R = []
        for s in (s1, s2, s3):
            q, d = hob.hob(exe, s, x, out=out)
            R.append((q.rc, d if out else q.out))
            e = q.etext
        if R[0][0] != 0 or R[0] != R[1] or R[0] != R[2]:
            if k < 1 or R[0][0] == 0 or any(a[0] != R[0][0] for a in R):
                bads.append(('geometry', 'the notation of numbers changes the result (%s): status %s\n%s\n%s\n%s\n%s' % (x, [a[0] for a in R], s1, s2, s3, e[-300:]), s2))
                break
        elif x == ['--dump-scad']:
            # the values arrive
            got = numbers(R[0][1].decode())
            for d in D:
                if not any(close(g, val(d)) for g in got):
                    bads.append(('value', 'value %r is not in the dump of %s\n%s' % (val(d), s1, R[0][1].decode()), s1))
                    break
    return bads, s2


def _opt(a):
    """options: any notation of a value is the same as the decimal"""
    exe, seed = a
    r = random.Random(seed)
    src = 'translate([1,2,.3]) cylinder(r1=7,r2=3,h=9.7);'

    def notation():
        """(text, value)"""
        k = r.randrange(7)
        if k == 0:
            n, m = r.randint(1, 30), r.randint(1, 30)
            return '%d/%d' % (n, m), n / m
        if k == 1:
            n, m = small(r), small(r)
            return spell(r, n) + '/' + spell(r, m), val(n) / val(m)
        if k == 2:
            e = r.randint(-3, 3)
            return '2^%d' % e, 2. ** e
        if k == 3:
            b, e = small(r, .5, 4), r.choice([-1, 0, 1, 2, .5])
            return '%s^%s' % (spell(r, b), repr(e)), val(b) ** e
        if k == 4:
            m, e = r.randint(1, 0xff), r.randint(-8, 2)
            return r.choice(['0x%xp%d', '0X%XP%d']) % (m, e), m * 2. ** e
        if k == 5:
            m, e = r.randint(1, 0xfff), r.randint(-4, 3)
            return '0x%x.%xp%d' % (m & 15, m >> 4 & 15, e), (m & 15) * 2. ** e + (m >> 4 & 15) * 2. ** e / 16
        d = small(r, .2, 9)
        return spell(r, d), val(d)
    t, v = notation()
    for _ in range(50):
        if .15 < v < 9:
            break
        t, v = notation()
    else:
        t, v = '1/2', .5
    o = r.choice(['step', 'step', 'min', 'max', 'z', 'layer-gap', 'gran', 'grid'])
    if o == 'gran':
        x = r.randint(3, 9)
        t, v = r.choice([('1/%d' % 2 ** x, 2. ** -x), ('2^-%d' % x, 2. ** -x), ('0x1p-%d' % x, 2. ** -x), (repr(2. ** -x), 2. ** -x)])
    if o == 'grid':
        x = r.randint(3, 9)
        t, v = r.choice([('2^%d' % x, 2. ** x), ('0x1p%d' % x, 2. ** x), ('%d/2' % 2 ** (x + 1), 2. ** x), ('%de0' % 2 ** x, 2. ** x)])
    neg = ''
    if o in ('min', 'max', 'z') and r.random() < .2 and not t.startswith('+') and '^' not in t:
        neg = '-'
        v = -v
    rest = [] if o == 'step' else ['--step=1.3']
    dash = r.choice(['-', '--'])

    def way(t):
        return r.choice([[dash + o, t], ['%s%s=%s' % (dash, o, t)]])
    A = hob.hob(exe, src, way(repr(v)) + rest, out='o.stl')
    B = hob.hob(exe, src, rest + way(neg + t), out='o.stl')
    C = hob.hob(exe, src, way('7/3') + rest + way(neg + t), out='o.stl') if o != 'z' else A
    e = None
    if hob.crash_kind(A[0]) or hob.crash_kind(B[0]):
        e = 'died: %s %s' % (A[0].rc, B[0].rc)
    elif (A[0].rc, A[1]) != (B[0].rc, B[1]):
        e = 'differs from %r: status %s and %s' % (v, A[0].rc, B[0].rc)
    elif A[0].rc == 0 and A[0].err != B[0].err:
        e = 'differs from %r: %r and %r' % (v, A[0].err, B[0].err)
    elif (C[0].rc, C[1]) != (A[0].rc, A[1]):
        e = 'the last of two settings does not win: status %s and %s' % (A[0].rc, C[0].rc)
    else:
        # the layers are where the value says
        m = re.search(r'min=([^,]+), step=([^,]+), layer_cnt=(\d+)', A[0].etext)
        if A[0].rc == 0 and m and o in ('step', 'min', 'z'):
            g = float(m.group(2) if o == 'step' else m.group(1))
            if abs(g - v) > 2e-5 * abs(v):
                e = 'value %r read as %r' % (v, g)
    return ((('option-' + o, 'option %s=%s%s: %s' % (o, neg, t, e), src) if e else None), (o, t))


BADNUM = ['', ' ', 'x', '1x', '1e', '1e+', '.', '-', '+', '--1', '1..2', '1.2.3', '1,5', '1/', '/2', '1/x', '1//2', '1/2/3', '1^', '^2', '2^x', '1/0', '0/0', '0^-1', 'nan', 'inf', '-inf',
          'infinity', '1e999', '-1e999', '10^999', '-1^0.5', '(-1)^.5', '1 2', '1mm', '0x', '0xg', '1/inf/2', '2**3', '1;', '1\n2', '1e5.5', 'NaN(1)', '1/nan', "1'0", '1_000']
BADCNT = ['', 'x', '-1', '-0x1', '1.5', '1e2', '99999999999999999999', '-18446744073709551611', '3/1', '2^3', '5x', '0x10', '1 2', '-', '+', 'nan', '18446744073709551616', '5 ']
BADRGB = ['', 'x', 'ggg', '1000000', '-1', 'fffffffff', '#fff', 'red', '12345g', '-ff0000', '99999999999999999999', 'ff ff', 'ff,0,0']


def tetra(T):
    """text STL with the 12 coordinate texts"""
    V = [T[0:3], T[3:6], T[6:9], T[9:12]]
    s = 'solid x\n'
    for f in ((0, 2, 1), (0, 1, 3), (1, 2, 3), (0, 3, 2)):
        s += 'facet normal 0 0 0\nouter loop\n' + ''.join('vertex %s\n' % ' '.join(V[i]) for i in f) + 'endloop\nendfacet\n'
    return s + 'endsolid x\n'


def _stl(a):
    exe, seed = a
    r = random.Random(seed)
    base = [0, 0, 0, 10, 0, 0, 0, 10, 0, 0, 0, 10]
    D = []
    for b in base:
        v = b + r.choice([0., r.randint(-8, 8) / 8, r.uniform(-1, 1), round(r.uniform(-1, 1), 3)])
        if v == 0:
            D.append(('', '0', 1))
            continue
        m, e = ('%.17e' % abs(v)).split('e')
        D.append(('-' if v < 0 else '', m.replace('.', '').rstrip('0'), int(e) + 1))
    T = [spell(r, d) for d in D]
    src = 'import("x.stl");'
    q, _ = hob.hob(exe, src, ['--dump-csg3'], files={'x.stl': tetra(T)})
    if q.rc != 0:
        return ('stl-rejected', 'rc=%s %s' % (q.rc, q.etext[-400:]), tetra(T)), T
    m = re.search(r'points=\[(.*?)\]\s*\]', q.out.decode(), re.S)
    P = [tuple(float(x) for x in t.split(',')) for t in re.findall(r'\[([^\[\]]*)\]', m.group(1) + ']')] if m else []
    V = [val(d) for d in D]
    V = [tuple(V[3 * i:3 * i + 3]) for i in range(4)]
    for v in V:
        if not any(all(close(x, y) for x, y in zip(v, p)) for p in P):
            return ('stl-value', 'vertex %r (%s) is read as one of %r' % (v, ' '.join(T), P), tetra(T)), T
    bad = r.choice(['1e', '1e+', '.', '-', '+', '--1', '1..2', '1.2.3', '1,5', 'nan', 'inf', '1e999', '-1e999', '0x10', '1/2', 'x', '1x', '1e5.5', '+-1', '.e1', 'e1'])
    i = r.randrange(12)
    q, _ = hob.hob(exe, src, ['--dump-csg3'], files={'x.stl': tetra(T[:i] + [bad] + T[i + 1:])})
    if q.rc != 1 or b'Error' not in q.err or b'x.stl' not in q.err:
        return ('stl-malformed', 'coordinate %r: rc=%s %s' % (bad, q.rc, q.etext[-300:]), tetra(T[:i] + [bad] + T[i + 1:])), T
    return None, T


def _svg(a):
    exe, seed = a
    r = random.Random(seed)
    D = [small(r, 1, 30) for _ in range(10)]
    form = ('<svg viewBox="0 0 %s %s" width="%smm" height="%smm"><rect x="%s" y="%s" width="%s" height="%s"/><polygon points="%s,%s 40 0 0,50"/></svg>')

    def svgnum(d):
        return spell(r, d, trail=False)
    t1 = form % tuple(repr(val(d)) for d in D)
    t2 = form % tuple(svgnum(d) for d in D)
    R = [hob.hob(exe, 'linear_extrude(1) import("x.svg",$fn=12);', ['--step=.5'], files={'x.svg': t}, out='o.stl') for t in (t1, t2)]
    if R[0][0].rc != 0 or R[1][0].rc != 0 or R[0][1] != R[1][1]:
        return ('svg', 'the notation of numbers changes the result: status %s %s %s\n%s\n%s' % (R[0][0].rc, R[1][0].rc, R[1][0].etext[-300:], t1, t2), t2), t2
    return None, t2


def run():
    chk = hob.Check('P33', rule='random decimals, also half-way between doubles and near the range limits, in all notations, read from SCAD (value in the dumps of the '
                    'syntax tree and later stages), text STL (value in the dump), SVG and options (same output as for the plain decimal); malformed and out of '
                    'range numbers must be rejected; counts per distinct set of texts')
    exe = hob.build('plain')
    for bads, v, ids in hob.pmap(_scad, [(exe, chk.seed * 911 + i, 10) for i in range(chk.n(60, 3000))]):
        chk.stat('scad_numbers', v)
        for i in ids:
            chk.case(i)
        for k, msg, src in bads[:2]:
            chk.violation(k, msg, {'m.scad': src})
    for bads, s in hob.pmap(_geo, [(exe, chk.seed * 7717 + i) for i in range(chk.n(350, 20000))], chunk=4):
        chk.case(s)
        chk.stat('models')
        for k, msg, src in bads:
            chk.violation(k, msg, {'m.scad': src})
    for b, i in hob.pmap(_opt, [(exe, chk.seed * 3313 + i) for i in range(chk.n(900, 30000))], chunk=4):
        chk.case(i)
        chk.stat('options')
        if b:
            chk.violation(b[0], b[1], {'m.scad': b[2]})
    for b, i in hob.pmap(_stl, [(exe, chk.seed * 4447 + i) for i in range(chk.n(700, 30000))], chunk=4):
        chk.case(i)
        chk.stat('stl_files')
        if b:
            chk.violation(b[0], b[1], {'x.stl': b[2]})
    for b, i in hob.pmap(_svg, [(exe, chk.seed * 5557 + i) for i in range(chk.n(400, 20000))], chunk=4):
        chk.case(i)
        chk.stat('svg_files')
        if b:
            chk.violation(b[0], b[1], {'x.svg': b[2]})
    bad = [(o, b) for o in ('step', 'min', 'max', 'z', 'layer-gap', 'grid', 'eps', 'ps-scale', 'ps-rot-x', 'gran', 'ps-line-width') for b in BADNUM] \
        + [(o, b) for o in ('max-simultaneous', 'max-fn', 'js-color-rand') for b in BADCNT] + [('ps-color-fill', b) for b in BADRGB] + [('ps-color-tri', b) for b in BADRGB] \
        + [('max-simultaneous', '1'), ('max-simultaneous', '0'), ('js-color-rand', '256'), ('max-fn', '4294967296')]

    for (o, b), q in zip(bad, hob.pmap(_bad, [(exe, o, b) for o, b in bad], chunk=8)):
        chk.case((o, b))
        chk.stat('malformed_options')
        if q[0] != 1 or not q[1].startswith(b'Error'):
            chk.violation('malformed-' + o, 'malformed number %r for option %s: status %s %s' % (b, o, q[0], q[1][-300:].decode(errors='replace')))
    for t in ('9223372036854775808', '-9223372036854775809', '99999999999999999999999', '1e309', '-1.8e308', '1e99999', '1' + '0' * 400 + '.', '179769313486231580793728971405303415e274'):
        q, _ = hob.hob(exe, '\ncube(\n%s);' % t, ['--dump-syn'])
        chk.case(t)
        if q.rc != 1 or b'm.scad:3:' not in q.err:
            chk.violation('scad-range', 'number %s: status %s %s' % (t, q.rc, (q.out + q.err)[-300:]))
    chk.sample('SCAD number texts compared: %s' % chk.stats.get('scad_numbers'))
    chk.assumptions += ['numbers without digits are not judged in SCAD, malformed SVG numbers are judged by P18']
    chk.finish(chk.n(2000, 60000))


def _bad(a):
    exe, o, b = a
    q, _ = hob.hob(exe, 'cube(1);', ['--%s=%s' % (o, b)], out='o.stl')
    return q.rc, q.err


if __name__ == '__main__':
    main(run)
