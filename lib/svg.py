"""Random SVG documents together with the region they outline (even-odd), in mm."""
import math
import numpy as np
import big
import geom as g

NS = 'http://www.w3.org/2000/svg'
PX = {'in': 96.0, 'mm': 96 / 25.4, 'cm': 960 / 25.4, 'pt': 96 / 72.0, 'pc': 16.0, 'px': 1.0}


def mul(a, b):
    return a @ b


def xl(x, y=0.0):
    return np.array([[1, 0, x], [0, 1, y], [0, 0, 1.0]])


def sc(x, y=None):
    return np.diag([x, x if y is None else y, 1.0])


def rot(a):
    c, s = math.cos(math.radians(a)), math.sin(math.radians(a))
    return np.array([[c, -s, 0], [s, c, 0], [0, 0, 1.0]])


class Num:
    """number spellings"""

    def __init__(self, r):
        self.r = r

    def __call__(self, x):
        r = self.r
        x = x + 0.0 if x else 0.0
        k = r.randrange(12)
        s = '%.10g' % x
        if 'e' in s:
            s = '%.10f' % x
        if k == 0 and x and abs(x) < 1 and s.lstrip('-').startswith('0.'):
            s = s.replace('0.', '.', 1)
        elif k == 1 and x >= 0:
            s = '+' + s
        elif k == 2:
            s = '%.9ge1' % (x / 10)
        elif k == 3:
            s = '%.9gE-2' % (x * 100)
        elif k == 4:
            s = '%.9ge+1' % (x / 10)
        elif k == 5 and '.' not in s:
            s += '.0'
        elif k == 6 and '.' not in s:
            s += '.'
        elif k == 7 and x >= 0:
            s = '00' + s
        if s.count('e') + s.count('E') > 1:
            s = '%.10f' % x
        return s


def join(r, toks):
    """join number tokens with any separator that keeps them apart"""
    out = toks[0]
    for t in toks[1:]:
        need = True
        if t[0] in '+-':
            need = False
        elif t[0] == '.' and ('.' in out.split(' ')[-1].split(',')[-1].split('-')[-1].split('+')[-1] or
                              'e' in out.split(' ')[-1].lower().split(',')[-1]):
            # '1.5.5' is 1.5 followed by .5
            need = False
        seps = [' ', ',', ' , ', ', ', '\n', '\t ', ' ,']
        if not need:
            seps.append('')
            seps.append('')
        out += r.choice(seps) + t
    return out


def arc_pts(p0, rx, ry, phi, fa, fs, p1, n):
    """points along the elliptical arc, excluding p0 and including p1 (SVG 2, 9.5.1 and B.2)"""
    x1, y1 = p0
    x2, y2 = p1
    if (x1, y1) == (x2, y2):
        return []
    rx, ry = abs(rx), abs(ry)
    if rx == 0 or ry == 0:
        return [p1]
    c, s = math.cos(math.radians(phi)), math.sin(math.radians(phi))
    # into the frame where the ellipse is the unit circle
    def into(x, y):
        return (c * x + s * y) / rx, (-s * x + c * y) / ry
    ax, ay = into(x1, y1)
    bx, by = into(x2, y2)
    dx, dy = bx - ax, by - ay
    d = math.hypot(dx, dy)
    R = max(1.0, d / 2)
    h = math.sqrt(max(0.0, R * R - d * d / 4))
    mx, my = (ax + bx) / 2, (ay + by) / 2
    # the small arc in positive angle direction has its centre to the left of a->b
    sgn = 1 if (fa != fs) else -1
    cx, cy = mx - sgn * (-dy / d) * -h, my - sgn * (dx / d) * -h
    t0 = math.atan2(ay - cy, ax - cx)
    t1 = math.atan2(by - cy, bx - cx)
    dt = t1 - t0
    if fs:
        while dt <= 0:
            dt += 2 * math.pi
    else:
        while dt >= 0:
            dt -= 2 * math.pi
    out = []
    for i in range(1, n):
        t = t0 + dt * i / n
        u, v = (cx + R * math.cos(t)) * rx, (cy + R * math.sin(t)) * ry
        out.append((c * u - s * v, s * u + c * v))
    return out + [p1], abs(dt), R * max(rx, ry)


class Path:
    """builds subpaths; err: bound of the chord error in user units"""

    def __init__(self, frames):
        self.sub = []
        self.cur = []
        self.frames = frames          # dict kind -> number of chords the tool uses
        self.err = 0.0

    def start(self, p):
        if len(self.cur) > 1:
            self.sub.append(self.cur)
        self.cur = [p]

    def add(self, pts):
        self.cur.extend(pts)

    def done(self):
        if len(self.cur) > 1:
            self.sub.append(self.cur)
        return self.sub


N = 240


def quad(p0, p1, p2):
    t = np.arange(1, N + 1)[:, None] / N
    a, b, c = (np.array(x, float) for x in (p0, p1, p2))
    return [tuple(q) for q in (1 - t) ** 2 * a + 2 * t * (1 - t) * b + t * t * c]


def cubic(p0, p1, p2, p3):
    t = np.arange(1, N + 1)[:, None] / N
    a, b, c, d = (np.array(x, float) for x in (p0, p1, p2, p3))
    return [tuple(q) for q in (1 - t) ** 3 * a + 3 * t * (1 - t) ** 2 * b + 3 * t * t * (1 - t) * c + t ** 3 * d]


def chords(fn, max_fn):
    def f(cap):
        return cap if not fn or fn > cap else max(2, fn)
    return dict(q=f(2 + (max_fn + 3) // 4), c=f(2 + (max_fn + 1) // 2), a=f(max_fn))


def rnd(r, a, b, dig=2):
    if abs(b - a) < 3:
        dig += 3
    return round(r.uniform(a, b), dig)


def rnd2(x):
    return round(x, 2)


def gen_path(r, S, ch, many=0):
    """path data text, subpaths, chord error.  S: size of the drawing area; many: about this number of segments"""
    nm = Num(r)
    toks = []
    P = Path(ch)
    cur = (0.0, 0.0)
    init = (0.0, 0.0)
    prev = None     # (kind, control point)
    err = 0.0

    wx, wy, W = 0., 0., S
    fav = r.choice('LHVQTCSATSA') if many else None

    def pt():
        return (rnd(r, wx, wx + W), rnd(r, wy, wy + W))

    nsub = r.choice([1, 1, 1, 2, 3])
    if many:
        nsub = r.choice([max(1, many // 12), max(1, many // 3)])
    first = True
    last = None
    for isub in range(nsub):
        if many:
            W = S * .25
            wx, wy = rnd(r, 0, S - W), rnd(r, 0, S - W)
        if not (not first and r.random() < .15):
            # move
            p = pt()
            rel = r.random() < .4
            n = r.choice([1, 1, 1, 2, 3])
            pts = [p] + [pt() for _ in range(n - 1)]
            vals = []
            c = cur
            for i, q in enumerate(pts):
                vals += [q[0] - c[0], q[1] - c[1]] if rel else list(q)
                c = q
            toks.append(('m' if rel else 'M', vals, None))
            last = None
            P.start(p)
            P.add(pts[1:])
            init = p
            cur = pts[-1]
        else:
            # continues after Z at the start of the previous subpath
            if last != 'Z':
                toks.append((r.choice('Zz'), [], None))
            cur = init
            P.start(cur)
        prev = None
        first = False
        last = None
        for iseg in range(r.randint(1, 2 * many // nsub) if many else r.choice([2, 3, 4, 6])):
            k = r.choice('LLHVQTCSAA')
            if many and r.random() < .6:
                k = fav
            rel = r.random() < .5
            o = cur if rel else (0.0, 0.0)
            rep = r.choice([1, 1, 1, 2])
            vals = []
            for _ in range(rep):
                o = cur if rel else (0.0, 0.0)
                p = pt()
                if r.random() < .06:
                    p = cur
                if k == 'L':
                    vals += [p[0] - o[0], p[1] - o[1]]
                    P.add([p])
                    prev = None
                elif k == 'H':
                    p = (p[0], cur[1])
                    vals += [p[0] - o[0]]
                    P.add([p])
                    prev = None
                elif k == 'V':
                    p = (cur[0], p[1])
                    vals += [p[1] - o[1]]
                    P.add([p])
                    prev = None
                elif k in 'QT':
                    c1 = pt()
                    if k == 'T':
                        c1 = (2 * cur[0] - prev[1][0], 2 * cur[1] - prev[1][1]) if prev and prev[0] == 'Q' else cur
                        if abs(c1[0]) > 3 * S or abs(c1[1]) > 3 * S:
                            # stay in a bounded area
                            break
                        vals += [p[0] - o[0], p[1] - o[1]]
                    else:
                        vals += [c1[0] - o[0], c1[1] - o[1], p[0] - o[0], p[1] - o[1]]
                    P.add(quad(cur, c1, p))
                    e = math.hypot(cur[0] - 2 * c1[0] + p[0], cur[1] - 2 * c1[1] + p[1])
                    err = max(err, e / 4 / ch['q'] ** 2)
                    prev = ('Q', c1)
                elif k in 'CS':
                    c1, c2 = pt(), pt()
                    if k == 'S':
                        c1 = (2 * cur[0] - prev[1][0], 2 * cur[1] - prev[1][1]) if prev and prev[0] == 'C' else cur
                        vals += [c2[0] - o[0], c2[1] - o[1], p[0] - o[0], p[1] - o[1]]
                    else:
                        vals += [c1[0] - o[0], c1[1] - o[1], c2[0] - o[0], c2[1] - o[1], p[0] - o[0], p[1] - o[1]]
                    P.add(cubic(cur, c1, c2, p))
                    e = max(math.hypot(cur[0] - 2 * c1[0] + c2[0], cur[1] - 2 * c1[1] + c2[1]),
                            math.hypot(c1[0] - 2 * c2[0] + p[0], c1[1] - 2 * c2[1] + p[1]))
                    err = max(err, 6 * e / 8 / ch['c'] ** 2)
                    prev = ('C', c2)
                else:
                    rx, ry = r.choice([(S * .3, S * .3), (rnd(r, .005 * S, S), rnd(r, .005 * S, S)), (S * .05, S * .02), (0., 1.), (-S * .2, S * .4)])
                    rx, ry = round(rx, 5), round(ry, 5)
                    phi = r.choice([0, 0, 30, 45, 90, -60, 400])
                    fa, fs = r.randrange(2), r.randrange(2)
                    vals += [('A', rx, ry, phi, fa, fs), p[0] - o[0], p[1] - o[1]]
                    q = arc_pts(cur, rx, ry, phi, fa, fs, p, N)
                    if isinstance(q, tuple):
                        q, dt, R = q
                        err = max(err, R * (dt / ch['a']) ** 2 / 8)
                    P.add(q)
                    prev = None
                cur = p
            if not vals:
                continue
            last = k
            toks.append((k.lower() if rel else k, vals, None))
        if r.random() < .5:
            toks.append((r.choice('Zz'), [], None))
            cur = init
            prev = None
            last = 'Z'
    out = ''
    lastcmd = None
    for c, vals, _ in toks:
        ts = []
        for v in vals:
            if isinstance(v, tuple):
                _, rx, ry, phi, fa, fs = v
                fl = r.choice(['%d%d', '%d %d', '%d,%d']) % (fa, fs)
                ts.append(join(r, [nm(rx), nm(ry), nm(phi)]) + r.choice([' ', ',', ' , ']) + fl + r.choice(['', ' ', ',']))
            else:
                ts.append(nm(v))
        same = c == lastcmd and c not in 'Zz' and c not in 'Mm' or (lastcmd == 'M' and c == 'L') or (lastcmd == 'm' and c == 'l')
        txt = ''
        for t in ts:
            if not txt:
                txt = t
            elif txt[-1] in ', ' or ts[ts.index(t)] is None:
                txt += t
            elif txt.endswith(('0', '1')) and 'A' == c.upper():
                # the previous token may be a flag: any separator works, even none
                txt += r.choice([' ', ',']) + t
            else:
                txt = join(r, [txt, t])
        if same and r.random() < .4:
            out += r.choice([' ', ',', ' , ']) + txt
        else:
            out += (r.choice(['', ' ', '\n']) + c + r.choice(['', ' ']) + txt)
        lastcmd = c
    return out.strip(), P.done(), err


def grid(r, S, k):
    """k polygons of 3..6 corners next to each other"""
    m = math.ceil(math.sqrt(k))
    c = S / m
    out = []
    for i, j in r.sample([(i, j) for i in range(m) for j in range(m)], k):
        n, a, q, d = r.randint(3, 6), r.uniform(0, 6), r.uniform(.2, .45), r.choice([1, -1])
        out.append([(round((i + .5 + q * math.cos(a + d * 2 * math.pi * t / n)) * c, 5), round((j + .5 + q * math.sin(a + d * 2 * math.pi * t / n)) * c, 5)) for t in range(n)])
    return out


def big_path(r, S, ch):
    """path of many segments or subpaths"""
    nm = Num(r)
    P = Path(ch)
    err = 0.0
    if r.random() < .4:
        loops = grid(r, S, big.size(r, 8, 200))
    else:
        loops = [[(round((x / 10 + .5) * S, 5), round((y / 10 + .5) * S, 5)) for x, y in big.ring(r, big.size(r, 24, 900), 1.5, 4.5)]]
    quads = len(loops[0]) > 6 and r.random() < .3
    rel = r.choice([0, 1, 2])
    one = r.choice([True, False, False])
    out = ''
    cur = (0.0, 0.0)

    def pos(p, re):
        return [nm(p[0] - cur[0]), nm(p[1] - cur[1])] if re else [nm(p[0]), nm(p[1])]

    for l in loops:
        re = rel == 1 or rel == 2 and r.random() < .5
        out += ('m' if re else 'M') + ' '.join(pos(l[0], re))
        P.start(l[0])
        cur = first = l[0]
        prev = 'm' if re else 'M'
        for p in l[1:]:
            re = rel == 1 or rel == 2 and r.random() < .5
            v = []
            if quads:
                c = (round((cur[0] + p[0]) / 2 + r.uniform(-.01, .01) * S, 5), round((cur[1] + p[1]) / 2 + r.uniform(-.01, .01) * S, 5))
                v = pos(c, re)
                P.add(quad(cur, c, p))
                err = max(err, math.hypot(cur[0] - 2 * c[0] + p[0], cur[1] - 2 * c[1] + p[1]) / 4 / ch['q'] ** 2)
            else:
                P.add([p])
            k = 'Q' if quads else 'L'
            k = k.lower() if re else k
            v += pos(p, re)
            if one and (k == prev or k == 'L' and prev == 'M' or k == 'l' and prev == 'm'):
                out += r.choice([' ', ',', '\n']) + ' '.join(v)
            else:
                out += r.choice(['', ' ']) + k + ','.join(v)
            prev = k
            cur = p
        if r.random() < .7:
            out += r.choice('zZ')
            cur = first
    return out, P.done(), err


class Shape(g.Node):
    """a region in SVG user space, mapped by a matrix"""
    dim = 2

    def __init__(self, sub, M, err):
        k = np.linalg.norm(M[:2, :2], 2)
        self.loops = [np.array(s, float) @ M[:2, :2].T + M[:2, 2] for s in sub if len(s) >= 2]
        self.tol = err * k

    def emit(self, ind=0):
        return ''

    def segs2(self, M, ctx):
        out = [np.concatenate([p, np.roll(p, -1, 0)], 1) for p in (l @ M[:2, :2].T + M[:2, 2] for l in self.loops)]
        return np.concatenate(out) if out else np.zeros((0, 4))

    def eval2(self, P, thr, ctx):
        s = self.segs2(np.eye(3), ctx)
        if not len(s):
            z = np.zeros(len(P), bool)
            return z, z
        v = g.parity(P, s)
        u = g.near(P, s, thr + self.tol * 1.25)
        return v & ~u, v | u


def ellipse_loop(cx, cy, rx, ry):
    t = np.arange(N * 2) * math.pi / N
    return [list(zip((cx + rx * np.cos(t)).tolist(), (cy + ry * np.sin(t)).tolist()))]


class Doc:
    def __init__(self, r, fn=None, max_fn=100):
        self.r = r
        self.nm = Num(r)
        self.ch = chords(fn, max_fn)
        self.shapes = []
        self.ids = []
        self.nid = 0
        self.layer = None
        self.noise = True
        # 0: small, 1: shapes of many points, 2: many shapes, 3: deeply nested groups, 4: long attributes,
        # 5: many elements of all kinds, 6: long lists of transformations,
        # 7: paths of many segments of all kinds
        self.big = 0
        self.foreign = 0.0

    # -- writing
    def attrs(self, d):
        r = self.r
        it = list(d.items())
        if r.random() < self.foreign:
            # attributes of other name spaces mean nothing
            it += r.choice([[('xml:space', 'preserve')], [('xml:lang', 'en'), ('xml:id', 'layer1')], [('ink:x', '3'), ('xmlns:ink', 'urn:ink')],
                            [('xml:transform', 'scale(7)')], [('xmlns:i', 'urn:i'), ('i:style', 'a:b'), ('i:r', '1'), ('i:d', 'M0 0h9v9z')],
                            [('xmlns:k', 'urn:i'), ('k:id', 'layer1'), ('xml:width', '1'), ('xml:viewBox', '0 0 1 1')],
                            [('font-family', '"Arial", \'x\''), ('xmlns:q', 'urn:"q\'')]])
        if self.big == 4 and r.random() < .5:
            it.append((r.choice(['style', 'class', 'data-x']), r.choice(['x', 'ab ', '\u20ac', '<&>']) * big.size(r, 30, 3000)))
        r.shuffle(it)
        s = ''
        for k, v in it:
            q = r.choice('"\'')
            v = str(v)
            v = v.replace('&', '&amp;').replace('<', '&lt;').replace(q, '&quot;' if q == '"' else '&apos;')
            if r.random() < .05 and ' ' in v:
                v = v.replace(' ', r.choice(['&#32;', '&#x20;']), 1)
            s += r.choice([' ', ' ', '\n  ', '\t']) + k + r.choice(['=', '=', '=', ' = ']) + q + v + q
        return s + r.choice(['', '', ' ', '\n'])

    def tag(self, name, d, body=None):
        p = self.pfx
        if body is None:
            return '<%s%s%s/>' % (p, name, self.attrs(d)) if self.r.random() < .7 else '<%s%s%s></%s%s>' % (p, name, self.attrs(d), p, name)
        return '<%s%s%s>%s</%s%s%s>' % (p, name, self.attrs(d), body, p, name, self.r.choice(['', ' ']))

    def pad(self, v):
        return self.r.choice(['', '', '', ' ']) + v + self.r.choice(['', '', '', ' '])

    def len1(self, v, ref=None):
        """spelling of a length of v user units"""
        r = self.r
        k = r.random()
        if k < .75:
            return self.pad(self.nm(v))
        if k < .85 and ref:
            return self.pad('%.10g%%' % (v / ref * 100))
        u = r.choice(['px', 'in', 'mm', 'cm', 'pt', 'pc'])
        s = '%.12f' % (v / PX[u])
        return self.pad(s + u)

    def newid(self, d, act):
        """maybe gives the element an id; returns whether it is active"""
        r = self.r
        if r.random() < .35:
            self.nid += 1
            i = 'layer%d' % self.nid
            d['id'] = i
            if self.layer == i:
                return True
        return act

    def xform(self, S):
        r, nm = self.r, self.nm
        M = np.eye(3)
        ts = []
        if self.big == 6:
            self.big = 0
            ts = self.detour(S, big.size(r, 8, 400))
        for _ in range(r.choice([1, 1, 2, 3])):
            k = r.randrange(8)
            if k == 0:
                a, b = rnd(r, -S / 3, S / 3), rnd(r, -S / 3, S / 3)
                ts.append('translate(%s)' % join(r, [nm(a), nm(b)]))
                M = M @ xl(a, b)
            elif k == 1:
                a = rnd(r, -S / 3, S / 3)
                ts.append('translate(%s)' % nm(a))
                M = M @ xl(a)
            elif k == 2:
                a = rnd(r, .4, 1.6) * r.choice([1, 1, -1])
                ts.append('scale( %s )' % nm(a))
                M = M @ sc(a)
            elif k == 3:
                a, b = rnd(r, .4, 1.6), rnd(r, .4, 1.6) * r.choice([1, -1])
                ts.append('scale (%s)' % join(r, [nm(a), nm(b)]))
                M = M @ sc(a, b)
            elif k == 4:
                a = r.choice([30, -45, 90, 180, rnd(r, -180, 180)])
                ts.append('rotate(%s)' % nm(a))
                M = M @ rot(a)
            elif k == 5:
                a = r.choice([30, -45, 90, rnd(r, -180, 180)])
                x, y = rnd(r, 0, S), rnd(r, 0, S)
                ts.append('rotate(%s)' % join(r, [nm(a), nm(x), nm(y)]))
                M = M @ xl(x, y) @ rot(a) @ xl(-x, -y)
            elif k == 6:
                a = r.choice([20, -30, 45])
                if r.random() < .5:
                    ts.append('skewX(%s)' % nm(a))
                    M = M @ np.array([[1, math.tan(math.radians(a)), 0], [0, 1, 0], [0, 0, 1]])
                else:
                    ts.append('skewY(%s)' % nm(a))
                    M = M @ np.array([[1, 0, 0], [math.tan(math.radians(a)), 1, 0], [0, 0, 1]])
            else:
                while True:
                    v = [rnd(r, -1.5, 1.5) for _ in range(4)] + [rnd(r, -S / 4, S / 4) for _ in range(2)]
                    if abs(v[0] * v[3] - v[1] * v[2]) > .3:
                        break
                ts.append('matrix(%s)' % join(r, [nm(x) for x in v]))
                M = M @ np.array([[v[0], v[2], v[4]], [v[1], v[3], v[5]], [0, 0, 1]])
        return r.choice(['', ' ']) + ts[0] + ''.join(r.choice([' ', ',', ', ', '\n', '']) + t for t in ts[1:]), M

    def detour(self, S, n):
        """n transformations which together change nothing"""
        r, nm = self.r, self.nm
        ts = []
        while len(ts) < n:
            fw, bw = [], []
            for _ in range(r.randint(1, 4)):
                k = r.randrange(6)
                if k == 0:
                    v = [rnd(r, -S / 3, S / 3) for _ in range(r.choice([1, 2]))]
                    w = [-x for x in v]
                    f = 'translate'
                elif k == 1:
                    v = [r.choice([.5, 2, -1, -2, .8, 1.25]) for _ in range(r.choice([1, 2]))]
                    w = [1 / x for x in v]
                    f = 'scale'
                elif k == 2:
                    v = [r.choice([30, -45, 90, rnd(r, -180, 180)])]
                    w = [-v[0]]
                    f = 'rotate'
                elif k == 3:
                    v = [r.choice([30, -45, 90, rnd(r, -180, 180)]), rnd(r, 0, S), rnd(r, 0, S)]
                    w = [-v[0]] + v[1:]
                    f = 'rotate'
                elif k == 4:
                    v = [r.choice([20, -30, 45])]
                    w = [-v[0]]
                    f = r.choice(['skewX', 'skewY'])
                else:
                    v = r.choice([[0, 1, 1, 0], [1, 1, 0, 1], [0, -1, 1, 0], [2, 0, 0, .5]]) + [rnd(r, -S / 4, S / 4) for _ in range(2)]
                    a, b, c, d, e, f = v
                    q = a * d - b * c
                    w = [d / q, -b / q, -c / q, a / q, (c * f - d * e) / q, (b * e - a * f) / q]
                    f = 'matrix'
                fw.append('%s(%s)' % (f, join(r, [nm(x) for x in v])))
                bw.append('%s(%s)' % (f, join(r, [nm(x) for x in w])))
            ts += fw + bw[::-1]
        return ts

    def std(self, d, M, S, act, p=.4):
        act = self.newid(d, act)
        if self.r.random() < p:
            t, X = self.xform(S)
            d['transform'] = t
            M = M @ X
        return M, act

    def add(self, sub, M, err, act):
        if act:
            self.shapes.append(Shape(sub, M, err))

    # -- elements
    def shape(self, M, S, vp, act):
        """one shape drawn within 0..S; vp: (w,h) of the viewport, or None"""
        r = self.r
        d = {}
        M, act = self.std(d, M, S, act)
        w, h = vp or (None, None)
        dim = math.sqrt((w * w + h * h) / 2) if vp else None
        if r.random() < .3:
            d[r.choice(['fill', 'stroke', 'style', 'class'])] = r.choice(['none', 'red', 'x>y', 'a&b'])
        k = r.randrange(8)

        def opt(name, v, ref):
            # zero is the default
            if v == 0 and r.random() < .5:
                return
            d[name] = self.len1(v, ref)

        if k == 0:
            cx, cy, q = r.choice([0, rnd(r, 0, S)]), r.choice([0, rnd(r, 0, S)]), rnd(r, S * .05, S / 2)
            opt('cx', cx, w)
            opt('cy', cy, h)
            d['r'] = self.len1(q, dim)
            self.add(ellipse_loop(cx, cy, q, q), M, q * (2 * math.pi / self.ch['a']) ** 2 / 8, act)
            return self.tag('circle', d)
        if k == 1:
            cx, cy = r.choice([0, rnd(r, 0, S)]), r.choice([0, rnd(r, 0, S)])
            a, b = rnd(r, S * .05, S / 2), rnd(r, S * .05, S / 2)
            opt('cx', cx, w)
            opt('cy', cy, h)
            q = r.randrange(5)
            if q == 0:
                b = a
                d['rx'] = self.len1(a, w)
                if r.random() < .5:
                    d['ry'] = 'auto'
            elif q == 1:
                a = b
                d['ry'] = self.len1(b, h)
            else:
                d['rx'] = self.len1(a, w)
                d['ry'] = self.len1(b, h)
            self.add(ellipse_loop(cx, cy, a, b), M, max(a, b) * (2 * math.pi / self.ch['a']) ** 2 / 8, act)
            return self.tag('ellipse', d)
        if k in (2, 3):
            x, y = r.choice([0, rnd(r, 0, S)]), r.choice([0, rnd(r, 0, S)])
            a, b = rnd(r, S * .1, S), rnd(r, S * .1, S)
            opt('x', x, w)
            opt('y', y, h)
            d['width'] = self.len1(a, w)
            d['height'] = self.len1(b, h)
            rx = ry = 0.0
            q = r.randrange(6)
            if q == 0:
                rx = ry = rnd(r, .02 * S, .7 * S)
                d['rx'] = self.len1(rx, w)
            elif q == 1:
                rx = ry = rnd(r, .02 * S, .7 * S)
                d['ry'] = self.len1(ry, h)
            elif q == 2:
                rx, ry = rnd(r, .02 * S, .7 * S), rnd(r, .02 * S, .7 * S)
                d['rx'] = self.len1(rx, w)
                d['ry'] = self.len1(ry, h)
            elif q == 3:
                d[r.choice(['rx', 'ry'])] = '0'
            rx, ry = min(rx, a / 2), min(ry, b / 2)
            loop = []
            if rx == 0 or ry == 0:
                loop = [(x, y), (x + a, y), (x + a, y + b), (x, y + b)]
            else:
                for ox, oy, t0 in ((x + a - rx, y + ry, -90), (x + a - rx, y + b - ry, 0), (x + rx, y + b - ry, 90), (x + rx, y + ry, 180)):
                    for i in range(N + 1):
                        t = math.radians(t0 + 90 * i / N)
                        loop.append((ox + rx * math.cos(t), oy + ry * math.sin(t)))
            self.add([loop], M, max(rx, ry) * (math.pi / 2 / self.ch['a']) ** 2 / 8, act)
            return self.tag('rect', d)
        if k in (4, 5):
            pts = [(rnd(r, 0, S), rnd(r, 0, S)) for _ in range(r.choice([3, 3, 4, 5, 7]))]
            if self.big == 1:
                pts = [(round((x / 10 + .5) * S, 5), round((y / 10 + .5) * S, 5)) for x, y in big.ring(r, big.size(r, 24, 900), 1.5, 4.5)]
            t = join(r, [self.nm(v) for p in pts for v in p])
            if r.random() < .1:
                # an odd number of coordinates: the last one is in error and what precedes is drawn
                t += r.choice([' ', ',']) + self.nm(rnd(r, 0, S))
            d['points'] = self.pad(t)
            self.add([pts], M, 0, act)
            return self.tag(r.choice(['polygon', 'polyline']), d)
        if self.big == 7:
            self.big = 0
            t, sub, err = gen_path(r, S, self.ch, big.size(r, 10, 120))
        else:
            t, sub, err = (big_path if self.big == 1 else gen_path)(r, S, self.ch)
        if r.random() < .06:
            # drawn up to the error
            t += r.choice([' x', ' M', ' L 1', ' ?', ' C 1 2 3 4 5', ' A 1 1 0 2 0 5 5', '%'])
        d['d'] = self.pad(t)
        self.add(sub, M, err, act)
        return self.tag('path', d)

    def junk(self, M, S, vp, act):
        """content that draws nothing"""
        r = self.r
        k = r.randrange(8)
        sv, self.shapes = self.shapes, []
        try:
            inner = ''.join(self.shape(M, S, vp, act) for _ in range(r.choice([0, 1, 2])))
        finally:
            self.shapes = sv
        if k == 0:
            return '<!-- %s -->' % r.choice(['', 'x', '<rect width="5" height="5"/>', 'a - b', '&foo; <', '>'])
        if k == 1:
            return self.tag(r.choice(['defs', 'symbol', 'style', 'title', 'desc', 'metadata', 'marker', 'switch', 'foreignObject', 'use', 'image']), {}, inner)
        if k == 2:
            return r.choice([' ', '\n', 'some text', '&lt;rect/&gt;'])
        if k == 3:
            return self.tag('line', dict(x1='1', y1=self.nm(S), x2='3', y2='4'))
        if k == 4:
            return '<q:rect xmlns:q="http://example.com/x" width="5" height="5">%s</q:rect>' % inner
        if k == 5:
            return self.tag('path', dict(d=r.choice(['', ' ', 'M 0 0', 'M1,1z', 'M 1 1 L 2 2', 'm1 1 z m 2 2', 'M0 0H5V0', 'M 0 0 L 5 5 Z M 1 2'])))
        if k == 6:
            n, d = r.choice([('rect', dict(width=r.choice(['0', '-1', '5']), height=r.choice(['0', '-3']))), ('rect', dict(width='5')), ('rect', dict(height='5', rx='1')),
                             ('circle', dict(r=r.choice(['0', '-2', '0mm', '0%']))), ('circle', {}), ('ellipse', {}), ('ellipse', dict(rx='5', ry=r.choice(['0', '0%']))),
                             ('ellipse', dict(rx='0', ry='5')), ('ellipse', dict(rx='-1', ry='-5')), ('ellipse', dict(rx='0'))])
            if r.random() < .5:
                d.update({'x': '3', 'y': '4'} if n == 'rect' else {'cx': '5', 'cy': '6'})
            return self.tag(n, d)
        return self.tag('path', {}) + self.tag('polygon', dict(points=r.choice(['', ' ', '1', '1,2', '1,2 3,4'])))

    def content(self, M, S, vp, act, depth):
        r = self.r
        s = ''
        if self.big == 2:
            self.big = 0
            for lp in grid(r, S, big.size(r, 8, 1200)):
                e = {'points': ' '.join(self.nm(v) for p in lp for v in p)}
                a2 = self.newid(e, act)
                self.add([lp], M, 0, a2)
                s += self.tag('polygon', e) + r.choice(['', '\n'])
            return s
        if self.big == 5:
            self.big = 0
            n = big.size(r, 8, 70)
            k = math.ceil(math.sqrt(n))
            for i in range(n):
                f, x, y = round(1 / k, 3), S * (i % k) / k, S * (i // k) / k
                M2 = M @ xl(rnd2(x), rnd2(y)) @ sc(f)
                s += self.tag('g', {'transform': 'translate(%s) scale(%s)' % (join(r, [self.nm(rnd2(x)), self.nm(rnd2(y))]), self.nm(f))},
                              self.content(M2, S, vp, act, r.choice([0, 0, 0, 1]))) + r.choice(['', '\n'])
            return s
        if self.big == 3:
            self.big = 0
            n = big.size(r, 8, 800)
            ends = ''
            for _ in range(n):
                e = {}
                act = self.newid(e, act)
                if r.random() < .1:
                    a, b = r.choice([(0, 0), (rnd(r, -S / 30, S / 30), rnd(r, -S / 30, S / 30))])
                    e['transform'] = 'translate(%s %s)' % (self.nm(a), self.nm(b))
                    M = M @ xl(a, b)
                s += '<%sg%s>' % (self.pfx, self.attrs(e))
                ends += '</%sg>' % self.pfx
            return s + self.shape(M, S, vp, act) + ends
        for _ in range(r.choice([1, 1, 2, 3])):
            k = r.random()
            if self.noise and r.random() < .2:
                s += self.junk(M, S, vp, act)
            if depth > 0 and k < .3:
                d = {}
                M2, a2 = self.std(d, M, S, act, .7)
                nm = 'g' if r.random() < .8 else r.choice(['a', 'foo', 'gg', 'sv', 'svgx', 'rectangle', 'clipPath', 'pat'])
                s += self.tag(nm, d, self.content(M2, S, vp, a2, depth - 1))
            elif depth > 0 and k < .42 and vp:
                s += self.svg(M, S, vp, act, depth - 1)
            else:
                s += self.shape(M, S, vp, act)
            s += r.choice(['', '\n', '  '])
        if self.noise and r.random() < .15:
            s += self.junk(M, S, vp, act)
        return s

    def pas(self, d, vw, vh, ew, eh):
        """viewBox transform without the origin: (scale x, scale y, align x, align y)"""
        r = self.r
        sx, sy = ew / vw, eh / vh
        k = r.randrange(8)
        if k == 0:
            d['preserveAspectRatio'] = 'none'
            return sx, sy, 0, 0
        ax, ay, sl = .5, .5, False
        if k >= 4:
            ax, ay = r.choice([0, .5, 1]), r.choice([0, .5, 1])
            t = 'x%sY%s' % ({0: 'Min', .5: 'Mid', 1: 'Max'}[ax], {0: 'Min', .5: 'Mid', 1: 'Max'}[ay])
            q = r.randrange(3)
            if q == 0:
                t += ' slice'
                sl = True
            elif q == 1:
                t += ' meet'
            d['preserveAspectRatio'] = t
        s = max(sx, sy) if sl else min(sx, sy)
        return s, s, (ew - vw * s) * ax, (eh - vh * s) * ay

    def viewbox(self, d, S):
        r = self.r
        vx, vy = r.choice([(0, 0), (rnd(r, -S, S), rnd(r, -S, S))])
        vw, vh = rnd(r, S * .7, S * 1.5), rnd(r, S * .7, S * 1.5)
        d['viewBox'] = self.pad(join(r, [self.nm(v) for v in (vx, vy, vw, vh)]))
        return vx, vy, vw, vh

    def svg(self, M, S, vp, act, depth):
        """nested svg"""
        r = self.r
        d = {}
        act = self.newid(d, act)
        if r.random() < .3:
            t, X = self.xform(S)
            d['transform'] = t
            M = M @ X
        x, y = r.choice([0, rnd(r, 0, S)]), r.choice([0, rnd(r, 0, S)])
        if x or r.random() < .5:
            d['x'] = self.len1(x, vp[0])
        if y or r.random() < .5:
            d['y'] = self.len1(y, vp[1])
        M = M @ xl(x, y)
        ew, eh = vp
        if r.random() < .6:
            ew = rnd(r, .4 * S, S)
            d['width'] = self.len1(ew, vp[0])
        if r.random() < .6:
            eh = rnd(r, .4 * S, S)
            d['height'] = self.len1(eh, vp[1])
        S2 = S
        vp2 = (ew, eh)
        if r.random() < .6:
            S2 = S * r.choice([1, 1, 5, .5])
            vx, vy, vw, vh = self.viewbox(d, S2)
            sx, sy, ox, oy = self.pas(d, vw, vh, ew, eh)
            M = M @ xl(ox, oy) @ sc(sx, sy) @ xl(-vx, -vy)
            vp2 = (vw, vh)
        return self.tag('svg', d, self.content(M, S2, vp2, act, depth))

    def top(self, dpi=None, center=False):
        """returns the file text"""
        r = self.r
        dpi_ = 72.0 if dpi is None else dpi
        d = {}
        nsk = r.randrange(4)
        self.pfx = ''
        if nsk == 0:
            d['xmlns'] = NS
        elif nsk == 1:
            d['xmlns'] = NS
            d['xmlns:svg'] = NS
        elif nsk == 2:
            d['xmlns:s'] = NS
            self.pfx = 's:'
        M = sc(1, -1)
        act = self.newid(d, self.layer is None)
        if r.random() < .2:
            t, X = self.xform(20)
            d['transform'] = t
            M = M @ X
        if r.random() < .75:
            # about 20 mm
            mm = r.choice([1, 1, 25.4 / dpi_, .2, .05, 20., 64.])      # mm per user unit
            S = 20 / mm if mm > 10 else round(20 / mm)
            vx, vy, vw, vh = self.viewbox(d, S)
            vp = (vw, vh)
            k = r.randrange(4)
            if k:
                ew, eh = vw * mm * r.uniform(.7, 1.4), vh * mm * r.uniform(.7, 1.4)
                if k == 1:
                    # unit-less: in 1/dpi inches
                    u, f = '', 25.4 / dpi_
                    ws, hs = '%.8f' % (ew / f), '%.8f' % (eh / f)
                else:
                    u1, u2 = r.choice(list(PX)), r.choice(list(PX))
                    ws, hs = '%.9f%s' % (ew / 25.4 * 96 / PX[u1], u1), '%.9f%s' % (eh / 25.4 * 96 / PX[u2], u2)
                d['width'], d['height'] = self.pad(ws), self.pad(hs)
                sx, sy, ox, oy = self.pas(d, vw, vh, ew, eh)
            else:
                f = 25.4 / dpi_
                if S * f > 60 or S * f < 3:
                    # choose another size of the drawing
                    S = round(20 / f)
                    vx, vy, vw, vh = self.viewbox(d, S)
                    vp = (vw, vh)
                sx = sy = f
                ox = oy = 0
                ew, eh = vw * f, vh * f
                if r.random() < .2:
                    d[r.choice(['width', 'height'])] = '100%'
            if center:
                M = M @ sc(sx, sy) @ xl(-vx - vw / 2, -vy - vh / 2)
            else:
                M = M @ xl(0, -eh) @ xl(ox, oy) @ sc(sx, sy) @ xl(-vx, -vy)
        else:
            S = 20
            vp = None
            if r.random() < .3:
                # without a viewBox, the size has no effect
                d['height'] = '50mm'
        body = self.content(M, S, vp, act, r.choice([0, 1, 2, 3]))
        s = ''
        if self.pfx or r.random() < .5:
            s += r.choice(['<?xml version="1.0"?>', '<?xml version="1.0" encoding="UTF-8" standalone="no"?>\n', "<?xml version='1.0' ?>\n"])
            if r.random() < .3:
                s += '<!DOCTYPE svg PUBLIC "-//W3C//DTD SVG 1.1//EN" "http://www.w3.org/Graphics/SVG/1.1/DTD/svg11.dtd">\n'
            if r.random() < .3:
                s += '<!-- made by hand -->\n'
        t = self.tag('svg', d, body)
        s += t + r.choice(['', '\n', ' <!-- end -->\n'])
        if r.random() < .1:
            s = '\ufeff' + s
        return s
