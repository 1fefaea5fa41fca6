"""Independent solid-modelling oracle.

A model is a tree of nodes that can print themselves as SCAD and decide, for
points on a horizontal plane, whether the point is in the solid.  Every answer
is three-valued: (lo, hi) = (certainly inside, possibly inside); points within
delta of any primitive's surface are undecided, so that grid snapping never
leads to a verdict.  Nothing here uses hob3l code: membership is parity of
crossings of the primitives' own boundaries, combined with Boolean logic."""
import math
import numpy as np

DELTA = 2e-3        # [mm] default grid is 2^-13 = 1.2e-4
ZDELTA = 2e-4


def num(x):
    if isinstance(x, bool):
        return 'true' if x else 'false'
    if isinstance(x, int):
        return str(x)
    s = repr(float(x))
    if 'e' in s or 'E' in s:
        s = '%.12f' % x
    if s.endswith('.0'):
        s = s[:-2]
    return s


def vec(v):
    return '[' + ','.join(num(x) for x in v) + ']'


I4 = np.eye(4)


def sincosd(a):
    a = math.fmod(a, 360.0)
    q = a / 90.0
    if q == int(q):
        k = int(q) % 4
        return [(0., 1.), (1., 0.), (0., -1.), (-1., 0.)][k]
    return math.sin(math.radians(a)), math.cos(math.radians(a))


def m_translate(v):
    m = np.eye(4)
    m[:3, 3] = v
    return m


def m_scale(v):
    return np.diag([v[0], v[1], v[2], 1.0])


def m_rot(axis, a):
    s, c = sincosd(a)
    m = np.eye(4)
    i, j = {0: (1, 2), 1: (2, 0), 2: (0, 1)}[axis]
    m[i, i] = c
    m[j, j] = c
    m[i, j] = -s
    m[j, i] = s
    return m


def m_rotxyz(v):
    return m_rot(2, v[2]) @ m_rot(1, v[1]) @ m_rot(0, v[0])


def m_rotv(a, v):
    v = np.array(v, float)
    x, y, z = v / np.linalg.norm(v)
    s, c = sincosd(a)
    d = 1 - c
    m = np.eye(4)
    m[:3, :3] = [[x*x*d + c, x*y*d - z*s, x*z*d + y*s],
                 [x*y*d + z*s, y*y*d + c, y*z*d - x*s],
                 [x*z*d - y*s, y*z*d + x*s, z*z*d + c]]
    return m


def m_mirror(v):
    v = np.array(v, float)
    v = v / np.linalg.norm(v)
    m = np.eye(4)
    m[:3, :3] -= 2 * np.outer(v, v)
    return m


# ---------------------------------------------------------------- primitives

def parity(P, seg, chunk=400000):
    """points P (N,2), segments (S,4): parity of crossings of the ray to +x"""
    n = len(P)
    res = np.zeros(n, bool)
    if len(seg) == 0 or n == 0:
        return res
    step = max(1, chunk // max(1, len(seg)))
    x0, y0, x1, y1 = seg[:, 0], seg[:, 1], seg[:, 2], seg[:, 3]
    dy = np.where(y1 == y0, 1.0, y1 - y0)
    for i in range(0, n, step):
        px = P[i:i+step, 0:1]
        py = P[i:i+step, 1:2]
        c = (y0 > py) != (y1 > py)
        xi = x0 + (py - y0) * ((x1 - x0) / dy)
        res[i:i+step] = (np.count_nonzero(c & (px < xi), axis=1) & 1).astype(bool)
    return res


def near(P, seg, thr, chunk=400000):
    """is any segment within thr (scalar or (N,)) of the point?"""
    n = len(P)
    res = np.zeros(n, bool)
    if len(seg) == 0 or n == 0:
        return res
    thr = np.broadcast_to(np.asarray(thr, float), (n,))
    step = max(1, chunk // max(1, len(seg)))
    a = seg[:, 0:2]
    d = seg[:, 2:4] - a
    dd = (d * d).sum(1)
    dd = np.where(dd == 0, 1.0, dd)
    for i in range(0, n, step):
        p = P[i:i+step]
        rx = p[:, 0:1] - a[:, 0]
        ry = p[:, 1:2] - a[:, 1]
        t = np.clip((rx * d[:, 0] + ry * d[:, 1]) / dd, 0, 1)
        ex = rx - t * d[:, 0]
        ey = ry - t * d[:, 1]
        res[i:i+step] = ((ex * ex + ey * ey).min(1) <= thr[i:i+step] ** 2)
    return res


def section(T, z):
    """cut triangles (T,3,3) with plane z; returns segments (S,4)"""
    if len(T) == 0:
        return np.zeros((0, 4))
    up = T[:, :, 2] > z
    cnt = up.sum(1)
    m = (cnt == 1) | (cnt == 2)
    T = T[m]
    up = up[m]
    cnt = cnt[m]
    if len(T) == 0:
        return np.zeros((0, 4))
    odd = np.where(cnt == 1, np.argmax(up, 1), np.argmax(~up, 1))
    r = np.arange(len(T))
    a = T[r, odd]
    b = T[r, (odd + 1) % 3]
    c = T[r, (odd + 2) % 3]
    tb = ((z - a[:, 2]) / (b[:, 2] - a[:, 2]))[:, None]
    tc = ((z - a[:, 2]) / (c[:, 2] - a[:, 2]))[:, None]
    p = a[:, :2] + tb * (b[:, :2] - a[:, :2])
    q = a[:, :2] + tc * (c[:, :2] - a[:, :2])
    return np.concatenate([p, q], 1)


def fan(points, faces):
    """parity triangles of polygonal faces (even-odd fan)"""
    P = np.asarray(points, float)
    tri = []
    for f in faces:
        for i in range(1, len(f) - 1):
            tri.append((f[0], f[i], f[i+1]))
    if not tri:
        return np.zeros((0, 3, 3))
    return P[np.array(tri)]


def tower(rings, faces_end=True):
    """closed mesh from a list of equally long vertex rings"""
    n = len(rings[0])
    pts = [p for r in rings for p in r]
    faces = [list(range(n)), [len(pts) - n + i for i in range(n)]]
    for k in range(len(rings) - 1):
        for i in range(n):
            j = (i + 1) % n
            faces.append([k*n+i, k*n+j, (k+1)*n+j, (k+1)*n+i])
    return pts, faces


def apply(m, pts):
    pts = np.asarray(pts, float)
    return pts @ m[:3, :3].T + m[:3, 3]


# ---------------------------------------------------------------------- 3D

class Ctx:
    """evaluation options"""
    def __init__(self, delta=DELTA, zdelta=ZDELTA, max_fn=100):
        self.delta, self.zdelta, self.max_fn = delta, zdelta, max_fn


def get_fn(fn, max_fn, lo=3):
    fn = int(fn or 0)
    if fn == 0 or fn > max_fn:
        return max_fn
    return max(fn, lo)


class Node:
    dim = 3
    mod = ''

    def emit(self, ind=0):
        return '  ' * ind + self.mod + self.head() + ';\n'


class Leaf3(Node):
    """SCAD text plus mesh builder mesh(ctx) -> (points, faces)"""

    def __init__(self, text, mesh):
        self.text, self.mesh = text, mesh
        self._c = {}

    def head(self):
        return self.text

    def tris(self, ctx, M):
        p, f = self.mesh(ctx)
        return fan(apply(M, p), f)

    def bbox(self, ctx, M):
        p = apply(M, self.mesh(ctx)[0])
        return p.min(0), p.max(0)

    def segs(self, z, M, ctx):
        return section(self.tris(ctx, M), z)

    def eval(self, P, z, M, ctx):
        T = self.tris(ctx, M)
        s = section(T, z)
        v = parity(P, s)
        u = near(P, s, ctx.delta)
        for dz in (-ctx.zdelta, ctx.zdelta):
            u |= parity(P, section(T, z + dz)) != v
        return v & ~u, v | u


def cube(size, center=False, style=0):
    if not isinstance(size, (list, tuple)):
        sz = [size] * 3
    else:
        sz = size
    o = [-s / 2.0 if center else 0.0 for s in sz]
    pts = [(o[0] + (i & 1) * sz[0], o[1] + (i >> 1 & 1) * sz[1], o[2] + (i >> 2 & 1) * sz[2]) for i in range(8)]
    faces = [[0, 1, 3, 2], [4, 5, 7, 6], [0, 1, 5, 4], [2, 3, 7, 6], [0, 2, 6, 4], [1, 3, 7, 5]]
    sztxt = num(size) if not isinstance(size, (list, tuple)) else vec(size)
    t = {0: 'cube(size=%s%s)' % (sztxt, ',center=true' if center else ''),
         1: 'cube(%s,%s)' % (sztxt, num(center))}[style]
    return Leaf3(t, lambda ctx: (pts, faces))


def circle_pts(n, r=1.0):
    return [(r * sincosd(360.0 * i / n)[1], r * sincosd(360.0 * i / n)[0]) for i in range(n)]


def cylinder(h, r1, r2, fn=None, center=False, style=0):
    def mesh(ctx):
        n = get_fn(fn, ctx.max_fn)
        z0 = -h / 2.0 if center else 0.0
        c = circle_pts(n)
        return tower([[(x * r, y * r, z) for x, y in c] for r, z in ((r1, z0), (r2, z0 + h))])
    f = '' if fn is None else ',$fn=%s' % num(fn)
    ce = ',center=true' if center else ''
    if style == 1 and r1 == r2:
        t = 'cylinder(h=%s,r=%s%s%s)' % (num(h), num(r1), ce, f)
    elif style == 2 and r1 == r2:
        t = 'cylinder(d=%s,h=%s%s%s)' % (num(2 * r1), num(h), ce, f)
    elif style == 3:
        t = 'cylinder(%s,%s,%s%s%s)' % (num(h), num(r1), num(r2), ce, f)
    elif style == 4:
        t = 'cylinder(d2=%s,d1=%s,h=%s%s%s)' % (num(2 * r2), num(2 * r1), num(h), ce, f)
    else:
        t = 'cylinder(h=%s,r1=%s,r2=%s%s%s)' % (num(h), num(r1), num(r2), ce, f)
    return Leaf3(t, mesh)


def sphere_mesh(r, n):
    fnz = (n + 1) // 2
    rings = []
    c = circle_pts(n)
    for i in range(fnz):
        s, co = sincosd((1 + 2 * i) * 180.0 / (fnz * 2))
        rings.append([(r * s * x, r * s * y, r * co) for x, y in c])
    return tower(rings)


def sphere(r, fn, style=0):
    """polygonal sphere: 3 <= fn <= max_fn"""
    t = ['sphere(r=%s,$fn=%s)' % (num(r), num(fn)), 'sphere(%s,$fn=%s)' % (num(r), num(fn)),
         'sphere(d=%s,$fn=%s)' % (num(2 * r), num(fn))][style]
    return Leaf3(t, lambda ctx: sphere_mesh(r, get_fn(fn, ctx.max_fn)))


class RoundSphere(Node):
    """sphere without $fn: sliced into circles approximated by max_fn points"""

    def __init__(self, r, fn=None):
        self.r, self.fn = r, fn

    def head(self):
        return 'sphere(r=%s%s)' % (num(self.r), '' if self.fn is None else ',$fn=%s' % num(self.fn))

    def bbox(self, ctx, M):
        A = M[:3, :3] * self.r
        h = np.sqrt((A * A).sum(1))
        return M[:3, 3] - h, M[:3, 3] + h

    def _plane(self, z, M):
        A = np.linalg.inv(M @ m_scale([self.r] * 3))
        n = np.linalg.inv(A)[2, :3]          # world z row
        ln = np.linalg.norm(n)
        d = (z - np.linalg.inv(A)[2, 3]) / ln
        return A, n / ln, d

    def segs(self, z, M, ctx):
        A, n, d = self._plane(z, M)
        if abs(d) >= 1:
            return np.zeros((0, 4))
        rho = math.sqrt(1 - d * d)
        t = np.cross(n, [1, 0, 0] if abs(n[0]) < .7 else [0, 1, 0])
        t = t / np.linalg.norm(t)
        b = np.cross(n, t)
        k = np.arange(24) * (2 * math.pi / 24)
        p = d * n + rho * (np.cos(k)[:, None] * t + np.sin(k)[:, None] * b)
        q = apply(np.linalg.inv(A), p)[:, :2]
        return np.concatenate([q, np.roll(q, -1, 0)], 1)

    def eval(self, P, z, M, ctx):
        A, n, d = self._plane(z, M)
        sA = np.linalg.norm(A[:3, :3], 2)
        eps = sA * (ctx.delta + ctx.zdelta)
        q = apply(A, np.concatenate([P, np.full((len(P), 1), z)], 1))
        inpl = q - np.outer(q @ n, n)
        rr = np.linalg.norm(inpl, axis=1)
        rad = np.linalg.norm(q, axis=1)
        rho = math.sqrt(max(0.0, 1 - d * d))
        nn = ctx.max_fn
        lo = (rr < rho * math.cos(math.pi / nn) - eps) & (rad < 1 - eps)
        hi = rad < 1 + eps
        return lo, hi


class Poly3(Leaf3):
    def __init__(self, pts, faces, emit_faces=None):
        t = 'polyhedron(points=[%s],faces=[%s])' % (
            ','.join(vec(p) for p in pts), ','.join('[' + ','.join(map(str, f)) + ']' for f in (emit_faces or faces)))
        Leaf3.__init__(self, t, lambda ctx: (pts, faces))


class Rec(Node):
    def __init__(self, name, kids):
        self.name, self.kids = name, kids
        if kids:
            self.dim = kids[0].dim

    def head(self):
        return self.name + '()'

    def emit(self, ind=0):
        s = '  ' * ind + self.mod + self.head()
        if len(self.kids) == 1 and not self.name.startswith('_'):
            return s + '\n' + self.kids[0].emit(ind + 1)
        return s + ' {\n' + ''.join(k.emit(ind + 1) for k in self.kids) + '  ' * ind + '}\n'

    def bbox(self, ctx, M):
        bs = [k.bbox(ctx, M) for k in self.kids]
        return np.min([b[0] for b in bs], 0), np.max([b[1] for b in bs], 0)

    def segs(self, z, M, ctx):
        l = [k.segs(z, M, ctx) for k in self.kids]
        return np.concatenate(l) if l else np.zeros((0, 4))

    def comb(self, rs):
        lo, hi = rs[0]
        lo, hi = lo.copy(), hi.copy()
        for l, h in rs[1:]:
            if self.name in ('union', 'group', 'assign', ''):
                lo |= l
                hi |= h
            elif self.name in ('intersection', 'intersection_for'):
                lo &= l
                hi &= h
            elif self.name == 'difference':
                lo &= ~h
                hi &= ~l
            else:
                raise ValueError(self.name)
        return lo, hi

    def eval(self, P, z, M, ctx):
        return self.comb([k.eval(P, z, M, ctx) for k in self.kids])

    # 2D
    def eval2(self, P, thr, ctx):
        return self.comb([k.eval2(P, thr, ctx) for k in self.kids])

    def segs2(self, M, ctx):
        return np.concatenate([k.segs2(M, ctx) for k in self.kids])


class Block(Rec):
    """top level: a list of statements"""

    def __init__(self, kids):
        Rec.__init__(self, '', kids)

    def emit(self, ind=0):
        return ''.join(k.emit(ind) for k in self.kids)


class Xf(Rec):
    """transformation node: text and matrix"""

    def __init__(self, text, m, kids):
        Rec.__init__(self, 'union', kids)
        self.text, self.m = text, m

    def head(self):
        return self.text

    def bbox(self, ctx, M):
        return Rec.bbox(self, ctx, M @ self.m)

    def segs(self, z, M, ctx):
        return Rec.segs(self, z, M @ self.m, ctx)

    def eval(self, P, z, M, ctx):
        return Rec.eval(self, P, z, M @ self.m, ctx)

    def _m2(self):
        m = np.eye(3)
        m[:2, :2] = self.m[:2, :2]
        m[:2, 2] = self.m[:2, 3]
        return m

    def eval2(self, P, thr, ctx):
        i = np.linalg.inv(self._m2())
        return Rec.eval2(self, P @ i[:2, :2].T + i[:2, 2], thr * np.linalg.norm(i[:2, :2], 2), ctx)

    def segs2(self, M, ctx):
        return Rec.segs2(self, M @ self._m2(), ctx)


def translate(v, *k):
    return Xf('translate(%s)' % vec(v), m_translate(list(v) + [0] * (3 - len(v))), list(k))


def scale(v, *k):
    if not isinstance(v, (list, tuple)):
        return Xf('scale(%s)' % num(v), m_scale([v] * 3), list(k))
    return Xf('scale(%s)' % vec(v), m_scale(list(v) + [1] * (3 - len(v))), list(k))


def rotate(v, *k):
    if not isinstance(v, (list, tuple)):
        return Xf('rotate(%s)' % num(v), m_rot(2, v), list(k))
    return Xf('rotate(%s)' % vec(v), m_rotxyz(v), list(k))


def rotate_av(a, v, *k):
    return Xf('rotate(a=%s,v=%s)' % (num(a), vec(v)), m_rotv(a, v), list(k))


def mirror(v, *k):
    return Xf('mirror(%s)' % vec(v), m_mirror(list(v) + [0] * (3 - len(v))), list(k))


def multmatrix(m, *k):
    m = np.asarray(m, float)
    return Xf('multmatrix(m=[%s])' % ','.join(vec(list(map(float, r))) for r in m), m, list(k))


def color(txt, *k):
    return Xf('color(%s)' % txt, I4, list(k))


def union(*k):
    return Rec('union', list(k))


def difference(*k):
    return Rec('difference', list(k))


def intersection(*k):
    return Rec('intersection', list(k))


def group(*k):
    return Rec('group', list(k))


# ---------------------------------------------------------------------- 2D

class Leaf2(Node):
    """2D primitive: text and function ctx -> list of loops"""
    dim = 2

    def __init__(self, text, loops):
        self.text, self.loops = text, loops

    def head(self):
        return self.text

    def segs2(self, M, ctx):
        out = []
        for l in self.loops(ctx):
            p = np.asarray(l, float) @ M[:2, :2].T + M[:2, 2]
            out.append(np.concatenate([p, np.roll(p, -1, 0)], 1))
        return np.concatenate(out) if out else np.zeros((0, 4))

    def eval2(self, P, thr, ctx):
        s = self.segs2(np.eye(3), ctx)
        v = parity(P, s)
        u = near(P, s, thr)
        return v & ~u, v | u


def square(size, center=False):
    sz = size if isinstance(size, (list, tuple)) else [size] * 2
    ox, oy = (-sz[0] / 2.0, -sz[1] / 2.0) if center else (0.0, 0.0)
    l = [(ox, oy), (ox + sz[0], oy), (ox + sz[0], oy + sz[1]), (ox, oy + sz[1])]
    return Leaf2('square(%s%s)' % (vec(size) if isinstance(size, (list, tuple)) else num(size),
                                   ',center=true' if center else ''), lambda ctx: [l])


def circle(r, fn=None, d=False):
    return Leaf2('circle(%s%s)' % ('d=' + num(2 * r) if d else 'r=' + num(r), '' if fn is None else ',$fn=' + num(fn)),
                 lambda ctx: [circle_pts(get_fn(fn, ctx.max_fn), r)])


def polygon(points, paths=None):
    t = 'polygon(points=[%s]%s)' % (','.join(vec(p) for p in points),
                                    '' if paths is None else ',paths=[%s]' % ','.join(
                                        '[' + ','.join(map(str, q)) + ']' for q in paths))
    loops = [points] if paths is None else [[points[i] for i in q] for q in paths]
    return Leaf2(t, lambda ctx: loops)


def hull_pts(pts):
    p = sorted(set((float(a), float(b)) for a, b in pts))
    if len(p) < 3:
        return p

    def half(q):
        h = []
        for x in q:
            while len(h) >= 2 and (h[-1][0]-h[-2][0])*(x[1]-h[-2][1]) - (h[-1][1]-h[-2][1])*(x[0]-h[-2][0]) <= 0:
                h.pop()
            h.append(x)
        return h
    a = half(p)
    b = half(p[::-1])
    return a[:-1] + b[:-1]


def seg_cross(s):
    """all pairwise crossing points of the segments, and their end points"""
    p, r = s[:, :2], s[:, 2:] - s[:, :2]
    n = len(s)
    i, j = np.triu_indices(n, 1)
    d = r[i, 0] * r[j, 1] - r[i, 1] * r[j, 0]
    ok = np.abs(d) > 1e-12
    i, j, d = i[ok], j[ok], d[ok]
    w = p[j] - p[i]
    t = (w[:, 0] * r[j, 1] - w[:, 1] * r[j, 0]) / d
    u = (w[:, 0] * r[i, 1] - w[:, 1] * r[i, 0]) / d
    k = (t > -1e-9) & (t < 1 + 1e-9) & (u > -1e-9) & (u < 1 + 1e-9)
    x = p[i[k]] + t[k, None] * r[i[k]]
    return np.concatenate([s[:, :2], s[:, 2:], x])


_RING = np.array([[math.cos(2 * math.pi * (i + .37) / 40), math.sin(2 * math.pi * (i + .37) / 40)] for i in range(40)])


class Hull(Rec):
    """2D hull of any children: the extreme points of the children's region are crossings or end points of the outlines;
    those that have no material next to them are dropped.  Two hulls are kept: of the points that certainly belong to
    the region, and of those that may."""
    dim = 2
    EPS = 2e-3

    def __init__(self, kids, head='hull()'):
        Rec.__init__(self, 'hull', kids)
        self.dim = 2
        self._c = {}
        self._head = head

    def head(self):
        return self._head

    def _shrink(self, cand, ctx, which):
        pts = set(map(tuple, np.round(cand, 7).tolist()))
        st = {}
        while pts:
            h = hull_pts(pts)
            todo = [v for v in h if v not in st]
            if todo:
                P = (np.array(todo)[:, None, :] + self.EPS * _RING).reshape(-1, 2)
                r = np.zeros(len(P), bool)
                c2 = Ctx(5e-4, ctx.zdelta, ctx.max_fn)
                for k in self.kids:
                    r |= k.eval2(P, np.full(len(P), 5e-4), c2)[which]
                r = r.reshape(len(todo), -1).any(1)
                for v, x in zip(todo, r):
                    st[v] = bool(x)
            bad = [v for v in h if not st[v]]
            if not bad:
                return h
            pts -= set(bad)
        return []

    def _loops(self, ctx):
        k = (ctx.max_fn, ctx.zdelta)
        if k not in self._c:
            c = seg_cross(Rec.segs2(self, np.eye(3), ctx))
            self._c[k] = [self._shrink(c, ctx, w) for w in (0, 1)]
        return self._c[k]

    def segs2(self, M, ctx):
        l = self._loops(ctx)[1]
        if len(l) < 3:
            return np.zeros((0, 4))
        p = np.asarray(l, float) @ M[:2, :2].T + M[:2, 2]
        return np.concatenate([p, np.roll(p, -1, 0)], 1)

    def eval2(self, P, thr, ctx):
        a, b = self._loops(ctx)
        lo = hi = np.zeros(len(P), bool)
        if len(a) >= 3:
            p = np.asarray(a, float)
            s = np.concatenate([p, np.roll(p, -1, 0)], 1)
            lo = parity(P, s) & ~near(P, s, thr + 2e-3)
        if len(b) >= 3:
            p = np.asarray(b, float)
            s = np.concatenate([p, np.roll(p, -1, 0)], 1)
            hi = parity(P, s) | near(P, s, thr)
        return lo, hi | lo


class Projection(Rec):
    dim = 2

    def __init__(self, kids, text='projection(cut=true)'):
        Rec.__init__(self, 'projection', kids)
        self.dim = 2
        self.text = text

    def head(self):
        return self.text

    def segs2(self, M, ctx):
        l = [k.segs(1e-5, I4, ctx) for k in self.kids]
        s = np.concatenate(l)
        p = s.reshape(-1, 2) @ M[:2, :2].T + M[:2, 2]
        return p.reshape(-1, 4)

    def eval2(self, P, thr, ctx):
        c = Ctx(float(np.max(thr)) if np.size(thr) else ctx.delta, ctx.zdelta, ctx.max_fn)
        r = [k.eval(P, 0.0, I4, c) for k in self.kids]
        lo, hi = r[0][0].copy(), r[0][1].copy()
        for l, h in r[1:]:
            lo |= l
            hi |= h
        return lo, hi


class LinExt(Node):
    """linear_extrude of a 2D tree without twist (any scale >= 0 with sx,sy both 0 or both > 0)"""

    def __init__(self, kids, h, center=False, sc=None, slices=None, extra=''):
        self.kids, self.h, self.center, self.sc, self.slices, self.extra = kids, h, center, sc, slices, extra

    def head(self):
        s = 'linear_extrude(height=%s' % num(self.h)
        if self.center:
            s += ',center=true'
        if self.sc is not None:
            s += ',scale=%s' % (vec(self.sc) if isinstance(self.sc, (list, tuple)) else num(self.sc))
        if self.slices is not None:
            s += ',slices=%d' % self.slices
        return s + self.extra + ')'

    emit = Rec.emit
    name = 'linear_extrude'

    def _sc(self):
        if self.sc is None:
            return 1.0, 1.0
        return tuple(self.sc) if isinstance(self.sc, (list, tuple)) else (self.sc, self.sc)

    def _zr(self):
        z0 = -self.h / 2.0 if self.center else 0.0
        return z0, z0 + self.h

    def _seg2(self, ctx):
        return np.concatenate([k.segs2(np.eye(3), ctx) for k in self.kids])

    def tris(self, ctx, M):
        s = self._seg2(ctx)
        z0, z1 = self._zr()
        sx, sy = self._sc()
        n = len(s)
        a0 = np.column_stack([s[:, 0], s[:, 1], np.full(n, z0)])
        b0 = np.column_stack([s[:, 2], s[:, 3], np.full(n, z0)])
        a1 = np.column_stack([s[:, 0] * sx, s[:, 1] * sy, np.full(n, z1)])
        b1 = np.column_stack([s[:, 2] * sx, s[:, 3] * sy, np.full(n, z1)])
        T = np.concatenate([np.stack([a0, b0, b1], 1), np.stack([a0, b1, a1], 1)])
        return (T.reshape(-1, 3) @ M[:3, :3].T + M[:3, 3]).reshape(-1, 3, 3)

    def bbox(self, ctx, M):
        t = self.tris(ctx, M).reshape(-1, 3)
        if not len(t):
            return np.full(3, np.inf), np.full(3, -np.inf)
        return t.min(0), t.max(0)

    def segs(self, z, M, ctx):
        return section(self.tris(ctx, M), z)

    def eval(self, P, z, M, ctx):
        Mi = np.linalg.inv(M)
        q = apply(Mi, np.concatenate([P, np.full((len(P), 1), z)], 1))
        k = np.linalg.norm(Mi[:3, :3], 2)
        d = (ctx.delta + ctx.zdelta) * k
        z0, z1 = self._zr()
        sx, sy = self._sc()
        t = (q[:, 2] - z0) / self.h
        inz = (t > 0) & (t < 1)
        dzl = np.maximum(ctx.zdelta, ctx.delta) * k
        uz = (np.abs(q[:, 2] - z0) < dzl) | (np.abs(q[:, 2] - z1) < dzl)
        fx = 1 + (sx - 1) * t
        fy = 1 + (sy - 1) * t
        tiny = (np.minimum(fx, fy) < 1e-2) & (t > -.1) & (t < 1.1) if min(sx, sy) < 1e-2 else np.zeros(len(t), bool)
        fx = np.where(np.abs(fx) < 1e-9, 1.0, fx)
        fy = np.where(np.abs(fy) < 1e-9, 1.0, fy)
        p2 = np.column_stack([q[:, 0] / fx, q[:, 1] / fy])
        # moving by d in z also changes the scale factor
        rmax = np.abs(p2).max(1) if len(p2) else np.zeros(0)
        thr = d * (1 + rmax * max(abs(sx - 1), abs(sy - 1)) / self.h) / np.maximum(np.minimum(np.abs(fx), np.abs(fy)), 1e-3)
        lo = np.zeros(len(P), bool)
        hi = np.zeros(len(P), bool)
        sel = inz | uz
        if sel.any():
            rs = [kd.eval2(p2[sel], thr[sel], ctx) for kd in self.kids]
            l, h = rs[0][0].copy(), rs[0][1].copy()
            for a, b in rs[1:]:
                l |= a
                h |= b
            lo[sel] = l
            hi[sel] = h
        # close to an end plane, slivers between an outer path and a hole may remain: never decided within the bounds
        s2 = self._seg2(ctx)
        if not len(s2):
            return lo, lo
        blo, bhi = np.minimum(s2[:, :2].min(0), s2[:, 2:].min(0)), np.maximum(s2[:, :2].max(0), s2[:, 2:].max(0))
        inb = ((p2 > blo - thr[:, None]) & (p2 < bhi + thr[:, None])).all(1)
        tiny = tiny | (uz & inb)
        hi |= uz & inb
        if abs(sx - sy) > 1e-12:
            # the sides are not planar: anything in the hull of a side's four
            # corners is undecided
            T = self.tris(ctx, M)
            n = len(T) // 2
            for i in range(n):
                a0, b0, b1 = T[i]
                a1 = T[n + i][2]
                s = section(np.array([[a0, b0, b1], [a0, b0, a1], [a0, b1, a1], [b0, b1, a1]]), z)
                tiny = tiny | parity(P, s) | near(P, s, ctx.delta)
            return lo & inz & ~uz & ~tiny, (hi & (inz | uz)) | tiny
        return lo & inz & ~uz & ~tiny, (hi & (inz | uz)) | (tiny & (inz | uz))


def twist_mesh(loop, h, center, twist, sc, slices):
    """simple polygon extruded with twist; quads are split along the documented
    diagonal: with positive twist (clockwise going up) i,i+1,i+1' / i+1',i',i"""
    # orientation as the tool uses for outer paths is clockwise
    n = len(loop)
    z0 = -h / 2.0 if center else 0.0
    sx, sy = sc
    rings = []
    for k in range(slices + 1):
        t = k / slices
        s, c = sincosd(-twist * t)
        fx, fy = 1 + (sx - 1) * t, 1 + (sy - 1) * t
        rings.append([((c * x - s * y) * fx, (s * x + c * y) * fy, z0 + h * t) for x, y in loop])
    pts = [p for r in rings for p in r]
    faces = [list(range(n)), [slices * n + i for i in range(n)]]
    for k in range(slices):
        a, b = k * n, (k + 1) * n
        for i in range(n):
            j = (i + 1) % n
            faces.append(('q', a + i, a + j, b + j, b + i))
    return pts, faces


class RotExt(Node):
    """rotate_extrude of a 2D tree"""
    name = 'rotate_extrude'
    emit = Rec.emit

    def __init__(self, kids, fn=None, angle=None):
        self.kids, self.fn, self.angle = kids, fn, angle

    def head(self):
        a = []
        if self.angle is not None:
            a.append('angle=%s' % num(self.angle))
        if self.fn is not None:
            a.append('$fn=%s' % num(self.fn))
        return 'rotate_extrude(%s)' % ','.join(a)

    def _dirs(self, ctx):
        ang = 360.0 if self.angle is None else min(360.0, self.angle)
        lo = 3 if ang >= 360 else 2 if ang >= 180 else 1
        n = get_fn(self.fn, ctx.max_fn, lo)
        if ang >= 360:
            return [(-sincosd(360.0 * j / n)[1], sincosd(360.0 * j / n)[0]) for j in range(n)] + [(-1.0, 0.0)]
        return [(sincosd(ang * j / n)[1], sincosd(ang * j / n)[0]) for j in range(n + 1)]

    def _seg2(self, ctx):
        return np.concatenate([k.segs2(np.eye(3), ctx) for k in self.kids])

    def tris(self, ctx, M):
        s = self._seg2(ctx)
        u = self._dirs(ctx)
        out = []
        for j in range(len(u) - 1):
            (cx, cy), (dx, dy) = u[j], u[j+1]
            a0 = np.column_stack([s[:, 0] * cx, s[:, 0] * cy, s[:, 1]])
            b0 = np.column_stack([s[:, 2] * cx, s[:, 2] * cy, s[:, 3]])
            a1 = np.column_stack([s[:, 0] * dx, s[:, 0] * dy, s[:, 1]])
            b1 = np.column_stack([s[:, 2] * dx, s[:, 2] * dy, s[:, 3]])
            out.append(np.stack([a0, b0, b1], 1))
            out.append(np.stack([a0, b1, a1], 1))
        T = np.concatenate(out)
        return (T.reshape(-1, 3) @ M[:3, :3].T + M[:3, 3]).reshape(-1, 3, 3)

    bbox = LinExt.bbox

    def segs(self, z, M, ctx):
        return section(self.tris(ctx, M), z)

    def eval(self, P, z, M, ctx):
        Mi = np.linalg.inv(M)
        q = apply(Mi, np.concatenate([P, np.full((len(P), 1), z)], 1))
        d = (ctx.delta + ctx.zdelta) * np.linalg.norm(Mi[:3, :3], 2)
        u = self._dirs(ctx)
        n = len(P)
        lo = np.zeros(n, bool)
        hi = np.zeros(n, bool)
        s2 = self._seg2(ctx)
        sign = -1.0 if s2[:, [0, 2]].min() < -1e-9 else 1.0
        edge = np.zeros(n, bool)
        if not (self.angle is None or self.angle >= 360):
            for ux, uy in (u[0], u[-1]):
                edge |= (np.abs(ux * q[:, 1] - uy * q[:, 0]) < d) & ((ux * q[:, 0] + uy * q[:, 1]) * sign > -d)
        for j in range(len(u) - 1):
            A = np.array([u[j], u[j+1]]).T * sign
            det = np.linalg.det(A)
            B = np.linalg.inv(A)
            t = q[:, :2] @ B.T
            # distance to the sector's two half planes
            nb = np.linalg.norm(B, axis=1)
            d0 = t[:, 0] / nb[0]
            d1 = t[:, 1] / nb[1]
            ins = (d0 >= -1e-12) & (d1 >= -1e-12)
            clo = (d0 >= -d) & (d1 >= -d)
            if not clo.any():
                continue
            r = (t[:, 0] + t[:, 1]) * sign
            k = np.linalg.norm(B.sum(0))
            p2 = np.column_stack([r, q[:, 2]])
            thr = np.full(n, d * max(1.0, k) * 1.5)
            rs = [kd.eval2(p2[clo], thr[clo], ctx) for kd in self.kids]
            l, h = rs[0][0].copy(), rs[0][1].copy()
            for a, b in rs[1:]:
                l |= a
                h |= b
            ll = np.zeros(n, bool)
            hh = np.zeros(n, bool)
            ll[clo] = l
            hh[clo] = h
            lo |= ll & ins & ~edge
            hi |= hh & clo
        # hairline between sectors: a point within d of a radial plane may belong to either
        return lo, hi | lo


class TwExt(LinExt):
    """linear_extrude with twist.  Children that are single leaves are evaluated as the exact documented mesh (each
    side quad is broken along the diagonal that makes it concave); trees use the bilinear surface with an undecided
    band as wide as the two possible diagonals are apart."""

    def __init__(self, kids, h, twist, center=False, sc=None, slices=None, exact=False):
        LinExt.__init__(self, kids, h, center, sc, slices, ',twist=%s' % num(twist))
        self.twist, self.exact = twist, exact

    def _ring(self, k):
        n = self.slices or 1
        t = k / n
        sx, sy = self._sc()
        s, c = sincosd(-self.twist * t)
        return np.diag([1 + (sx - 1) * t, 1 + (sy - 1) * t]) @ np.array([[c, -s], [s, c]])

    def tris(self, ctx, M):
        n = self.slices or 1
        z0, z1 = self._zr()
        if self.exact:
            loops = []
            for l in self.kids[0].loops(ctx):
                l = [tuple(map(float, p)) for p in l]
                a = sum(l[i-1][0] * l[i][1] - l[i][0] * l[i-1][1] for i in range(len(l)))
                # material is on the left: holes run clockwise
                deep = sum(parity(np.array([l[0]]), np.concatenate([np.asarray(o, float), np.roll(np.asarray(o, float), -1, 0)], 1))[0]
                           for o in self.kids[0].loops(ctx) if tuple(map(float, o[0])) not in l)
                loops.append(l if (a > 0) == (deep % 2 == 0) else l[::-1])
        else:
            loops = None
            seg = self._seg2(ctx)
        T = []
        for k in range(n):
            A, B = self._ring(k), self._ring(k + 1)
            za, zb = z0 + self.h * k / n, z0 + self.h * (k + 1) / n
            if loops is not None:
                a = np.concatenate([np.asarray(l) for l in loops])
                b = np.concatenate([np.roll(np.asarray(l), -1, 0) for l in loops])
            else:
                a, b = seg[:, :2], seg[:, 2:]
            col = lambda p, m, z: np.column_stack([p @ m.T, np.full(len(p), z)])
            a0, b0, a1, b1 = col(a, A, za), col(b, A, za), col(a, B, zb), col(b, B, zb)
            if self.twist > 0:
                T += [np.stack([a0, b0, a1], 1), np.stack([b0, b1, a1], 1)]
            else:
                T += [np.stack([a0, b0, b1], 1), np.stack([a0, b1, a1], 1)]
        T = np.concatenate(T)
        return (T.reshape(-1, 3) @ M[:3, :3].T + M[:3, 3]).reshape(-1, 3, 3)

    def eval(self, P, z, M, ctx):
        if self.exact:
            # the horizontal end faces: sides alone have the same parity strictly between the ends
            Mi = np.linalg.inv(M)
            q = apply(Mi, np.concatenate([P, np.full((len(P), 1), z)], 1))
            z0, z1 = self._zr()
            d = (ctx.delta + ctx.zdelta) * np.linalg.norm(Mi[:3, :3], 2)
            T = self.tris(ctx, M)
            # close with end caps as fans
            caps = []
            for k, zz in ((0, z0), (self.slices or 1, z1)):
                R = self._ring(k)
                for l in self.kids[0].loops(ctx):
                    p = np.asarray(l, float) @ R.T
                    p = np.column_stack([p, np.full(len(p), zz)])
                    caps.append(fan(apply(M, p), [list(range(len(p)))]))
            T = np.concatenate([T] + caps)
            s = section(T, z)
            v = parity(P, s)
            u = near(P, s, ctx.delta)
            # steep sides: nothing may pass between the heights unnoticed
            move = math.radians(abs(self.twist)) / self.h * np.abs(self._seg2(ctx)).max() * 1.5 * max(1.0, *self._sc()) * ctx.zdelta
            k = 1 + int(move / ctx.delta)
            for dz in [j * ctx.zdelta / k for j in range(-k, k + 1) if j]:
                u |= parity(P, section(T, z + dz)) != v
                if k > 1:
                    u |= near(P, section(T, z + dz), ctx.delta)
            return v & ~u, v | u
        Mi = np.linalg.inv(M)
        q = apply(Mi, np.concatenate([P, np.full((len(P), 1), z)], 1))
        kk = np.linalg.norm(Mi[:3, :3], 2)
        d = (ctx.delta + ctx.zdelta) * kk
        z0, z1 = self._zr()
        n = self.slices or 1
        N = len(P)
        lo = np.zeros(N, bool)
        hi = np.zeros(N, bool)
        ends = (np.abs(q[:, 2] - z0) < d) | (np.abs(q[:, 2] - z1) < d)
        t = (q[:, 2] - z0) / self.h * n
        seg = self._seg2(ctx)
        lmax = np.linalg.norm(seg[:, 2:] - seg[:, :2], axis=1).max()
        rmax = np.abs(seg).max() * 1.5
        inz = (t > 0) & (t < n)
        for k in range(n):
            sel = (np.clip(np.floor(t), 0, n - 1) == k) & (inz | ends)
            if not sel.any():
                continue
            A, B = self._ring(k), self._ring(k + 1)
            f = np.clip(t[sel] - k, 0, 1)[:, None, None]
            L = (1 - f) * A + f * B
            sv = np.linalg.svd(L, compute_uv=False)[:, 1]
            okm = sv > .05
            Li = np.linalg.inv(np.where(okm[:, None, None], L, np.eye(2)))
            p2 = np.einsum('nij,nj->ni', Li, q[sel][:, :2])
            sl = np.linalg.norm(B - A, 2)
            thr = (d * (1 + rmax * sl * n / self.h) + sl * lmax * f[:, 0, 0] * (1 - f[:, 0, 0]) * 1.05) / np.maximum(sv, .05)
            rs = [kd.eval2(p2, thr, ctx) for kd in self.kids]
            l, h = rs[0][0].copy(), rs[0][1].copy()
            for a, b in rs[1:]:
                l |= a
                h |= b
            l &= okm
            h |= ~okm
            lo[sel] = l
            hi[sel] = h
        return lo & inz & ~ends, (hi & inz) | (ends & (np.abs(q[:, :2]).max(1) < 2 * rmax * max(1.0, *self._sc())))
