"""Random closed polyhedra with planar faces, outward orientation known.
Each function returns (points, faces) with faces counter-clockwise seen from outside."""
import math
import numpy as np


def _orient_star(pts, faces, c=None):
    P = np.asarray(pts, float)
    c = P.mean(0) if c is None else np.asarray(c, float)
    out = []
    for f in faces:
        a, b, d = P[f[0]], P[f[1]], P[f[2]]
        n = np.cross(b - a, d - a)
        out.append(list(f) if np.dot(n, a - c) > 0 else list(f)[::-1])
    return out


def star(r, n=None):
    """star-shaped triangulation with n vertices"""
    from scipy.spatial import ConvexHull
    n = n or r.randint(4, 24)
    while True:
        d = np.array([[r.gauss(0, 1) for _ in range(3)] for _ in range(n)])
        d /= np.linalg.norm(d, axis=1)[:, None]
        try:
            h = ConvexHull(d)
        except Exception:
            continue
        # the origin must be well inside
        if h.equations[:, 3].max() < -.15 and len(h.vertices) == n:
            break
    k = r.random()
    rad = np.array([r.uniform(1, 4) if k < .6 else r.choice([2., 4.]) for _ in range(n)])
    pts = np.round(d * rad[:, None], r.choice([1, 3, 5]))
    faces = _orient_star(pts, [list(map(int, s)) for s in h.simplices], [0, 0, 0])
    P = pts
    for f in faces:     # rounding must not have flattened anything
        if abs(np.linalg.det(P[f])) < .02:
            return star(r, n)
    return [tuple(map(float, p)) for p in pts], faces


def ring(r, n=None, conv=False):
    n = n or r.randint(3, 9)
    if conv or r.random() < .3:
        a0 = r.uniform(0, 360)
        return [(round(3 * math.cos(math.radians(a0 + 360 * i / n)), 3), round(3 * math.sin(math.radians(a0 + 360 * i / n)), 3)) for i in range(n)]
    out = []
    for i in range(n):
        a = 2 * math.pi * (i + r.uniform(-.3, .3)) / n
        q = r.uniform(1.2, 5)
        out.append((round(q * math.cos(a), 3), round(q * math.sin(a), 3)))
    return out


def profile(r, closed=False):
    """sequence of (scale, dx, dy, z) of similar rings: tower, cup or torus-like"""


def tower(r):
    """stack of similar rings with increasing z"""
    c = ring(r)
    n = len(c)
    k = r.randint(2, 6)
    z = 0.0
    pts, rings = [], []
    for i in range(k):
        s = r.choice([1.0, .5, 2.0, round(r.uniform(.4, 1.6), 2)])
        dx, dy = (round(r.uniform(-1, 1), 2), round(r.uniform(-1, 1), 2)) if r.random() < .5 else (0., 0.)
        rings.append([(x * s + dx, y * s + dy, z) for x, y in c])
        z += r.choice([1.0, .5, 2.0, round(r.uniform(.2, 3), 2)])
    return _skin(rings)


def cup(r):
    """tower with a pit: rings go up outside and down inside"""
    c = ring(r)
    t, h = r.uniform(.3, .6), r.choice([2.0, 3.0, 4.5])
    b = r.choice([.5, 1.0, h * .75])
    R = [(1.0, 0.0), (r.choice([1.0, 1.3]), h), (t * r.choice([1.0, 1.2]), h + r.choice([0.0, 0.0, -.3, .4])), (t * r.choice([1.0, .5]), b)]
    return _skin([[(x * s, y * s, z) for x, y in c] for s, z in R])


def _skin(rings):
    n = len(rings[0])
    pts = [tuple(map(float, p)) for q in rings for p in q]
    faces = [list(range(n))[::-1], [len(pts) - n + i for i in range(n)]]
    for k in range(len(rings) - 1):
        for i in range(n):
            j = (i + 1) % n
            faces.append([k * n + i, k * n + j, (k + 1) * n + j, (k + 1) * n + i])
    return pts, faces


def torus(r):
    """profile polygon swept around z; genus 1"""
    m = r.randint(3, 6)
    n = r.randint(3, 9)
    prof = [(5 + round(2 * math.cos(2 * math.pi * (i + r.uniform(-.25, .25)) / m), 2),
             round(2 * math.sin(2 * math.pi * (i + r.uniform(-.25, .25)) / m), 2)) for i in range(m)]
    # counter-clockwise profile in (radius, z)
    a = sum(prof[i][0] * prof[(i + 1) % m][1] - prof[(i + 1) % m][0] * prof[i][1] for i in range(m))
    if a < 0:
        prof.reverse()
    pts, faces = [], []
    for k in range(n):
        s, c = math.sin(2 * math.pi * k / n), math.cos(2 * math.pi * k / n)
        pts += [(x * c, x * s, z) for x, z in prof]
    for k in range(n):
        k2 = (k + 1) % n
        for i in range(m):
            j = (i + 1) % m
            faces.append([k * m + i, k2 * m + i, k2 * m + j, k * m + j])
    return pts, faces


def voxels(r):
    """boundary of a random edge-manifold set of unit cubes"""
    while True:
        S = {(0, 0, 0)}
        for _ in range(r.randint(1, 12)):
            x, y, z = r.choice(sorted(S))
            d = [0, 0, 0]
            d[r.randrange(3)] = r.choice([-1, 1])
            S.add((x + d[0], y + d[1], z + d[2]))
        quads = []
        for (x, y, z) in sorted(S):
            for ax in range(3):
                for sg in (0, 1):
                    nb = [x, y, z]
                    nb[ax] += 2 * sg - 1
                    if tuple(nb) in S:
                        continue
                    b, c = (ax + 1) % 3, (ax + 2) % 3
                    q = []
                    for u, v in ((0, 0), (1, 0), (1, 1), (0, 1)):
                        p = [x, y, z]
                        p[ax] += sg
                        p[b] += u
                        p[c] += v
                        q.append(tuple(p))
                    quads.append(q if sg else q[::-1])
        idx = {}
        for q in quads:
            for p in q:
                idx.setdefault(p, len(idx))
        faces = [[idx[p] for p in q] for q in quads]
        cnt = {}
        ok = True
        for f in faces:
            for i in range(4):
                e = (f[i], f[(i + 1) % 4])
                if e in cnt:
                    ok = False
                cnt[e] = 1
        ok = ok and all((b, a) in cnt for a, b in cnt)
        # vertex manifold: faces around each vertex form one cycle
        if ok:
            for v in range(len(idx)):
                fs = [f for f in faces if v in f]
                nxt = {f[(f.index(v) + 1) % 4]: f[f.index(v) - 1] for f in fs}
                s = next(iter(nxt))
                k, c = nxt[s], 1
                while k != s:
                    k = nxt[k]
                    c += 1
                if c != len(fs):
                    ok = False
                    break
        if ok:
            break
    sc = [r.choice([1.0, 2.0, 1.5]) for _ in range(3)]
    pts = [None] * len(idx)
    for p, i in idx.items():
        pts[i] = tuple(float(a * s) for a, s in zip(p, sc))
    return pts, faces


def hullpoly(r):
    """convex polyhedron with merged coplanar faces: prism, antiprism, cut cube"""
    k = r.randrange(3)
    if k == 0:
        c = ring(r, conv=True)
        h = r.choice([1.0, 3.0, 2.5])
        return _skin([[(x, y, 0.0) for x, y in c], [(x, y, h) for x, y in c]])
    if k == 1:
        # pyramid with arbitrary apex over a star ring
        c = ring(r)
        n = len(c)
        pts = [(x, y, 0.0) for x, y in c] + [(round(r.uniform(-3, 3), 2), round(r.uniform(-3, 3), 2), r.choice([2.0, 4.0, .5]))]
        return pts, [list(range(n))[::-1]] + [[i, (i + 1) % n, n] for i in range(n)]
    # bipyramid
    c = ring(r, conv=True)
    n = len(c)
    pts = [(x, y, 0.0) for x, y in c] + [(0., 0., r.choice([2.0, 1.0])), (0., 0., -r.choice([2.0, 1.0]))]
    return pts, [[i, (i + 1) % n, n] for i in range(n)] + [[(i + 1) % n, i, n + 1] for i in range(n)]


def fractional(r):
    """voxels sheared by an affine map"""
    p, f = voxels(r)
    while True:
        m = np.array([[r.uniform(-1, 1) for _ in range(3)] for _ in range(3)])
        m += np.eye(3)
        if np.linalg.det(m) > .4:
            break
    q = np.asarray(p) @ m.T
    return [tuple(map(float, np.round(x, 6))) for x in q], f


def any_mesh(r):
    k = r.randrange(8)
    return (star, tower, cup, torus, voxels, hullpoly, star, voxels)[k](r)


def triangulate(pts, faces):
    """split faces into triangles (faces need not be convex): ear clipping in the face plane"""
    P = np.asarray(pts, float)
    out = []
    for f in faces:
        f = list(f)
        if len(f) == 3:
            out.append(f)
            continue
        n = np.zeros(3)
        for i in range(len(f)):
            n += np.cross(P[f[i]], P[f[(i + 1) % len(f)]])
        ax = int(np.argmax(abs(n)))
        u, v = (ax + 1) % 3, (ax + 2) % 3
        s = 1 if n[ax] > 0 else -1

        def cr(a, b, c):
            return s * ((P[b][u] - P[a][u]) * (P[c][v] - P[a][v]) - (P[b][v] - P[a][v]) * (P[c][u] - P[a][u]))
        while len(f) > 3:
            for i in range(len(f)):
                a, b, c = f[i - 1], f[i], f[(i + 1) % len(f)]
                if cr(a, b, c) <= 1e-12:
                    continue
                if any(q not in (a, b, c) and cr(a, b, q) >= 0 and cr(b, c, q) >= 0 and cr(c, a, q) >= 0 for q in f):
                    continue
                out.append([a, b, c])
                del f[i]
                break
            else:
                return None
        out.append(f)
    return out


def scramble(r, pts, faces):
    """random vertex order, face order and face starting points"""
    perm = list(range(len(pts)))
    r.shuffle(perm)
    p2 = [None] * len(pts)
    for i, p in enumerate(perm):
        p2[p] = pts[i]
    fs = []
    for f in faces:
        f = [perm[i] for i in f]
        k = r.randrange(len(f))
        fs.append(f[k:] + f[:k])
    r.shuffle(fs)
    return p2, fs
