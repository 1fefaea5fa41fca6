"""Models that are large in one respect: many points, faces, operands, levels, slices."""
import math
import numpy as np
import geom as g


def size(r, lo, hi):
    """spread over the orders of magnitude, often just beyond a power of two"""
    if r.random() < .4:
        k = [x + d for b in range(4, 17) for x in (1 << b,) for d in (0, 1, 2, 3) if lo <= x + d <= hi]
        if k:
            return r.choice(k)
    return int(round(math.exp(r.uniform(math.log(lo), math.log(hi)))))


def ring(r, n, rmin=2., rmax=5.):
    """n points around the origin, visible from there; the larger, the smoother"""
    w = r.choice([0., .3, 1.])
    k, ph, a = r.randint(2, 9), r.uniform(0, 6), r.uniform(0, 1)
    out = []
    for i in range(n):
        t = 2 * math.pi * (i + r.uniform(-.2, .2)) / n
        m = (rmin + rmax) / 2 + (rmax - rmin) / 2 * ((1 - w) * a * math.sin(k * t + ph) + w * r.uniform(-1, 1))
        out.append((round(m * math.cos(t), 4), round(m * math.sin(t), 4)))
    return out


def poly2(r, n=None):
    """polygon of many points; explicit path in some order or none"""
    n = n or size(r, 24, 1500)
    p = ring(r, n)
    k = r.randrange(3)
    if k == 0:
        return g.polygon(p)
    idx = list(range(n))
    r.shuffle(idx)
    q = [None] * n
    for a, b in enumerate(idx):
        q[b] = p[a]
    if r.random() < .5:
        idx.reverse()
    s = r.randrange(n)
    return g.polygon(q, [idx[s:] + idx[:s]])


def holes(r, k=None):
    """square with many paths of 3..6 points as holes, some with an island"""
    k = k or size(r, 8, 150)
    m = math.ceil(math.sqrt(k))
    s = 12. / m
    pts = [(-1., -1.), (13., -1.), (13., 13.), (-1., 13.)]
    paths = [[0, 1, 2, 3]]
    cells = r.sample([(i, j) for i in range(m) for j in range(m)], k)
    for i, j in cells:
        n = r.randint(3, 6)
        for q in ([.42, .2] if r.random() < .15 else [r.uniform(.2, .45)]):
            a = r.uniform(0, 6)
            idx = list(range(len(pts), len(pts) + n))
            pts += [(round((i + .5 + q * math.cos(a + 2 * math.pi * t / n)) * s, 4), round((j + .5 + q * math.sin(a + 2 * math.pi * t / n)) * s, 4)) for t in range(n)]
            if r.random() < .5:
                idx.reverse()
            paths.append(idx)
    r.shuffle(paths)
    return g.polygon(pts, paths)


def many2(r, k=None):
    """many small shapes in one operation"""
    k = k or size(r, 20, 250)
    kids = []
    for _ in range(k):
        x, y = round(r.uniform(0, 12), 2), round(r.uniform(0, 12), 2)
        kids.append(g.translate([x, y], r.choice([lambda: g.square([round(r.uniform(.3, 1.5), 2), round(r.uniform(.3, 1.5), 2)]), lambda: g.circle(round(r.uniform(.3, 1), 2), r.randint(3, 9))])()))
    if r.random() < .4:
        return g.difference(g.square([13., 13.]), *kids)
    return r.choice([g.union, g.group])(*kids)


def shape2(r):
    return r.choice([poly2, holes, many2])(r)


def bumpy(r, n=None):
    """closed star-shaped triangle mesh with about n faces: (points, faces)"""
    n = n or size(r, 40, 4000)
    lat = max(2, int(math.sqrt(n / 4)))
    lon = max(3, n // (2 * lat))
    w = r.choice([.05, .3])
    if max(lat, lon) > 30:
        w *= .2
    pts = [(0., 0., -4.)]
    for i in range(lat):
        for j in range(lon):
            t, f = math.pi * (i + 1) / (lat + 1), 2 * math.pi * (j + .5 * (i % 2)) / lon
            m = 4 * (1 + w * r.uniform(-1, 1))
            pts.append((round(m * math.sin(t) * math.cos(f), 5), round(m * math.sin(t) * math.sin(f), 5), round(-m * math.cos(t), 5)))
    pts.append((0., 0., 4.))
    at = lambda i, j: 1 + i * lon + j % lon
    faces = []
    for j in range(lon):
        faces.append([0, at(0, j + 1), at(0, j)])
        faces.append([len(pts) - 1, at(lat - 1, j), at(lat - 1, j + 1)])
    for i in range(lat - 1):
        for j in range(lon):
            a, b, c, d = at(i, j), at(i, j + 1), at(i + 1, j), at(i + 1, j + 1)
            faces += [[a, b, c], [b, d, c]] if i % 2 else [[a, b, d], [a, d, c]]
    return pts, faces


def tall(r, n=None, k=None):
    """stack of k similar rings with n points: side faces are planar, lids have n corners"""
    import meshes
    n = n or size(r, 12, 300)
    k = k or size(r, 2, max(3, min(60, 3000 // n)))
    c = ring(r, n)
    z, rings = 0., []
    for i in range(k):
        s = round(r.uniform(.6, 1.3), 2)
        rings.append([(x * s, y * s, z) for x, y in c])
        z = round(z + 8. / k * r.uniform(.5, 1.5), 4)
    return meshes._skin(rings)


def mesh(r):
    return r.choice([bumpy, bumpy, tall])(r)


def many3(r, k=None):
    k = k or size(r, 24, 300)
    kids = []
    for _ in range(k):
        p = [round(r.uniform(0, 14), 2) for _ in range(3)]
        kids.append(g.translate(p, r.choice([lambda: g.cube([round(r.uniform(.5, 2.5), 2) for _ in range(3)]), lambda: g.cylinder(round(r.uniform(1, 4), 2), round(r.uniform(.4, 1), 2), round(r.uniform(.2, 1), 2), r.randint(3, 8))])()))
    if r.random() < .4:
        return g.difference(g.cube([15., 15., 15.]), *kids)
    return r.choice([g.union, g.group])(*kids)


def deep(r, n, leaf, d=None):
    """n below d transformations and groups"""
    d = d or size(r, 16, 200)
    m = np.eye(4)
    for i in range(d):
        k = r.randrange(5)
        if k == 0:
            v = [round(r.uniform(-.3, .3), 2) for _ in range(3)]
            n = g.translate(v if n.dim == 3 else v[:2], n)
        elif k == 1:
            n = g.rotate(round(r.uniform(-40, 40), 1), n)
        elif k == 2:
            s = r.choice([.5, 2., 1.25, .8])
            m2 = m * s
            if not .4 < m2[0, 0] < 2.5:
                s = 1.
            m = m * s
            n = g.scale([s] * n.dim, n)
        elif k == 3:
            n = g.mirror([1., round(r.uniform(-1, 1), 1)] if n.dim == 2 else [1., round(r.uniform(-1, 1), 1), 0.], n)
        else:
            n = r.choice([g.union, g.group, g.intersection, g.difference])(n)
        if r.random() < .06:
            n = r.choice([g.union, g.difference])(n, leaf())
    return n


def model3(G, r):
    """any large solid"""
    k = r.choice([0, 1, 2, 2, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9])
    if k == 0:
        n = g.Poly3(*mesh(r))
    elif k == 9:
        # many operands of an intersection
        n = g.intersection(*[g.translate([round(r.uniform(-1, 1), 2) for _ in range(3)], g.rotate([round(r.uniform(-180, 180)) for _ in range(3)], g.cube([12., 12., round(r.uniform(6, 9), 2)], True)))
                             for _ in range(size(r, 8, 120))])
    elif k == 1:
        n = g.Poly3(*(lambda p, f: (p, [q[::-1] for q in f]))(*mesh(r)))
    elif k == 2:
        n = g.LinExt([shape2(r)], G.pos(1, 4), r.random() < .5, None if r.random() < .6 else G.pos(.5, 1.5))
    elif k == 3:
        n = many3(r)
    elif k == 4:
        n = deep(r, G.leaf3(), G.leaf3)
    elif k == 5:
        # alternating operations
        n = g.sphere(6., 16)
        for i in range(size(r, 20, 90)):
            o = g.translate([G.f(-5, 5) for _ in range(3)], g.cube([G.pos(1, 3) for _ in range(3)], True))
            n = (g.union if i % 2 else g.difference)(n, o)
    elif k == 6:
        n = r.choice([lambda: g.sphere(G.pos(2, 5), size(r, 20, 100)), lambda: g.cylinder(G.pos(2, 6), G.pos(2, 5), G.pos(1, 5), size(r, 20, 100))])()
    elif k == 7:
        k = size(r, 20, 200)
        b = poly2(r, k)
        n = g.RotExt([g.translate([7., 0.], b)], size(r, 8, max(12, min(100, 2500 // k))), r.choice([None, 360., 90., 271.5]))
        n = g.scale([.5, .5, .5], n)
    else:
        n = g.difference(g.Poly3(*mesh(r)), g.Poly3(*bumpy(r, 200)) if r.random() < .3 else g.translate([2., 1., -9.], g.cylinder(18., 1.5, 1.5, size(r, 8, 90))))
    return G.xf([n]) if r.random() < .3 else n


def mosaic(G, r, n=None):
    """many small models of all kinds next to each other"""
    n = n or size(r, 10, 90)
    k = math.ceil(math.sqrt(n))
    return [g.translate([20. * (i % k), 20. * (i // k), round(r.uniform(-2, 2), 2)], G.tree3(r.choice([0, 0, 1, 1, 2]))) for i in range(n)]


class PtHull(g.Hull):
    """hull of children whose corners are all known to belong to the region"""

    def _loops(self, ctx):
        s = g.Rec.segs2(self, np.eye(3), ctx)
        h = g.hull_pts(map(tuple, np.concatenate([s[:, :2], s[:, 2:]])))
        return [h, h]


def hull(G, r):
    k = r.randrange(4)
    if k == 0:
        kids = [poly2(r)]
    elif k == 1:
        kids = [g.translate([G.f(-9, 9), G.f(-9, 9)], poly2(r, size(r, 12, 300))) for _ in range(r.randint(2, 4))]
    elif k == 2:
        kids = [g.translate([round(r.gauss(0, 4), 2), round(r.gauss(0, 4), 2)], r.choice([lambda: g.square([G.pos(.3, 1), G.pos(.3, 1)]), lambda: g.circle(G.pos(.3, 1), G.fn())])()) for _ in range(size(r, 20, 200))]
    else:
        # all points on the hull
        kids = [g.circle(G.pos(3, 9), size(r, 20, 100))]
        if r.random() < .5:
            n = size(r, 50, 900)
            kids = [g.polygon([(round(9 * math.cos(t), 5), round(9 * math.sin(t), 5)) for t in sorted(r.sample([2 * math.pi * i / 1000 for i in range(1000)], n))])]
        kids.append(g.square([.5, .5]))
    r.shuffle(kids)
    return PtHull(kids)
