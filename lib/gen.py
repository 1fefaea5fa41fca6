"""Random model generator on top of geom."""
import math
import geom as g


class Gen:
    def __init__(self, rng, grid=True, maxc=10.0, features=None, flat=True):
        self.r = rng
        self.grid = grid
        self.maxc = maxc
        self.feat = features or {}

    def f(self, a, b):
        r = self.r
        k = r.random()
        if self.grid and k < .55:
            return float(r.randint(math.ceil(a), max(math.ceil(a), math.floor(b))))
        if self.grid and k < .75:
            return round(r.uniform(a, b) * 4) / 4 or .25
        return round(r.uniform(a, b), r.choice([2, 3, 6]))

    def pos(self, a, b):
        v = self.f(a, b)
        return v if v >= a * .5 and v > 0 else a

    def fn(self):
        return self.r.choice([3, 4, 5, 6, 7, 8, 9, 12, 13, 16, 20])

    def ang(self):
        r = self.r
        return r.choice([0., 30., 45., 60., 90., 120., 180., 270., -90., -45., 360., round(r.uniform(-180, 180), 3),
                         round(r.uniform(-180, 180), 3), round(r.uniform(-180, 180), 3)])

    def leaf3(self):
        r = self.r
        k = r.random()
        if k < .3:
            if r.random() < .3:
                return g.cube(self.pos(1, 8), r.random() < .5, r.randint(0, 1))
            return g.cube([self.pos(1, 8) for _ in range(3)], r.random() < .5, r.randint(0, 1))
        if k < .5:
            rr = self.pos(1, 5)
            if r.random() < .5:
                return g.cylinder(self.pos(1, 8), rr, rr, self.fn(), r.random() < .5, r.randint(0, 4))
            r2 = r.choice([0, self.pos(1, 5), self.pos(.5, 5)])
            if r.random() < .3:
                rr, r2 = r2, rr
            if rr == 0 and r2 == 0:
                rr = 2.0
            return g.cylinder(self.pos(1, 8), rr, r2, self.fn(), r.random() < .5, r.choice([0, 3, 4]))
        if k < .65:
            return g.sphere(self.pos(1, 5), self.fn(), r.randint(0, 2))
        if k < .7 and not self.feat.get('noround'):
            return g.RoundSphere(self.pos(1, 5))
        if k < .78:
            return self.polyhedron()
        if k < .93:
            return self.linext()
        return self.rotext()

    def polyhedron(self):
        """convex or star-like prisms/pyramids with n-gon and concave faces"""
        r = self.r
        n = r.randint(3, 7)
        ring = []
        for i in range(n):
            a = 2 * math.pi * (i + r.uniform(-.3, .3)) / n
            q = self.pos(1, 5)
            ring.append((round(q * math.cos(a), 4), round(q * math.sin(a), 4)))
        h = self.pos(1, 7)
        if r.random() < .5:
            pts = [(x, y, 0.) for x, y in ring] + [(round(self.f(-2, 2), 4), round(self.f(-2, 2), 4), h)]
            # apex may be anywhere: a cone over a star-shaped base is a valid solid
            faces = [list(range(n))] + [[(i + 1) % n, i, n] for i in range(n)]
        else:
            s = self.pos(.5, 2)
            dx, dy = self.f(-2, 2), self.f(-2, 2)
            pts = [(x, y, 0.) for x, y in ring] + [(x * s + dx, y * s + dy, h) for x, y in ring]
            faces = [list(range(n)), [n + i for i in reversed(range(n))]]
            for i in range(n):
                j = (i + 1) % n
                faces.append([j, i, n + i, n + j])
        perm = list(range(len(pts)))
        r.shuffle(perm)
        p2 = [None] * len(pts)
        for i, p in enumerate(perm):
            p2[p] = pts[i]
        faces = [[perm[i] for i in f] for f in faces]
        r.shuffle(faces)
        faces = [f[k:] + f[:k] for f in faces for k in [r.randrange(len(f))]]
        return g.Poly3(p2, faces)

    def linext(self):
        r = self.r
        sc = None
        if r.random() < .3:
            sc = r.choice([0, self.pos(.25, 2), [self.pos(.25, 2), self.pos(.25, 2)]])
        sl = None
        if r.random() < .3:
            sl = r.randint(1, 5)
        d = r.choice([0, 1, 1, 2])
        n = 1 if r.random() < .7 else 2
        return g.LinExt([self.tree2(d) for _ in range(n)], self.pos(1, 8), r.random() < .4, sc, sl)

    def rotext(self):
        r = self.r
        kid = r.choice([lambda: g.square([self.pos(1, 4), self.pos(1, 4)]),
                        lambda: g.translate([self.pos(2, 5) + 2, self.f(-2, 2)], g.circle(self.pos(1, 2), self.fn())),
                        lambda: g.translate([self.pos(1, 5), self.f(-3, 3)], g.square([self.pos(1, 3), self.pos(1, 4)])),
                        lambda: g.polygon([(0., 0.), (self.pos(1, 4), 0.), (self.pos(1, 4), self.pos(1, 4)), (0., self.pos(1, 5))]),
                        ])()
        return g.RotExt([kid], self.fn(), r.choice([None, None, 360., 90., 180., round(r.uniform(10, 350), 2)]))

    def leaf2(self):
        r = self.r
        k = r.random()
        if k < .35:
            return g.square(self.pos(1, 6) if r.random() < .3 else [self.pos(1, 6), self.pos(1, 6)], r.random() < .5)
        if k < .6:
            return g.circle(self.pos(1, 5), self.fn(), r.random() < .3)
        if k < .8:
            return self.star()
        if k < .9:
            return self.ring()
        return g.Hull([self.leafs(), self.leafs()])

    def leafs(self):
        t = g.translate([self.f(-5, 5), self.f(-5, 5)], self.r.choice([
            lambda: g.circle(self.pos(.5, 2), self.fn()), lambda: g.square([self.pos(1, 3), self.pos(1, 3)])])())
        return t

    def star(self):
        r = self.r
        n = r.randint(3, 9)
        pts = []
        for i in range(n):
            a = 2 * math.pi * (i + r.uniform(-.3, .3)) / n
            q = self.pos(1, 6)
            pts.append((round(q * math.cos(a), 4), round(q * math.sin(a), 4)))
        if r.random() < .5:
            pts.reverse()
        return g.polygon(pts)

    def ring(self):
        """polygon with several paths: outer, hole, sometimes crossing"""
        r = self.r
        a = self.pos(3, 6)
        b = self.pos(1, 2)
        ox, oy = self.f(-2, 2), self.f(-2, 2)
        pts = [(-a, -a), (a, -a), (a, a), (-a, a), (ox - b, oy - b), (ox + b, oy - b), (ox + b, oy + b), (ox - b, oy + b)]
        if len(set(pts)) < 8:           # the tool rejects duplicate points
            return g.square([a, a], True)
        p = [[0, 1, 2, 3], [4, 5, 6, 7]]
        if r.random() < .5:
            p[1].reverse()
        if r.random() < .5:
            p.reverse()
        return g.polygon(pts, p)

    def xf(self, k, dim=3):
        r = self.r
        c = r.random()
        if dim == 2:
            if c < .5:
                return g.translate([self.f(-5, 5), self.f(-5, 5)], *k)
            if c < .75:
                return g.rotate(self.ang(), *k)
            if c < .85:
                return g.scale([self.pos(.5, 2), self.pos(.5, 2)], *k)
            v = [self.f(-2, 2), self.f(-2, 2)]
            if abs(v[0]) + abs(v[1]) < .1:
                v[0] = 1.0
            return g.mirror(v, *k)
        if c < .4:
            return g.translate([self.f(-5, 5) for _ in range(3)], *k)
        if c < .6:
            return g.rotate([r.choice([0., self.ang()]), r.choice([0., self.ang()]), self.ang()], *k)
        if c < .7:
            v = [self.f(-3, 3) for _ in range(3)]
            if sum(map(abs, v)) < .1:
                v[2] = 1.0
            return g.rotate_av(self.ang(), v, *k)
        if c < .8:
            return g.scale([r.choice([1, -1, 1]) * self.pos(.5, 2) for _ in range(3)], *k)
        if c < .9:
            v = [self.f(-3, 3) for _ in range(3)]
            if sum(map(abs, v)) < .1:
                v[2] = 1.0
            return g.mirror(v, *k)
        import numpy as np
        while True:
            m = np.eye(4)
            for i in range(3):
                for j in range(3):
                    m[i, j] = (i == j) + (round(r.uniform(-1, 1), 3) if r.random() < .5 else 0)
                m[i, 3] = self.f(-4, 4)
            s = np.linalg.svd(m[:3, :3])[1]
            if s[2] > .3 and s[0] < 4:
                return g.multmatrix(m, *k)

    def tree3(self, depth):
        r = self.r
        if depth <= 0:
            n = self.leaf3()
            return self.xf([n]) if r.random() < .6 else n
        k = r.random()
        n = r.choice([1, 2, 2, 3, 3, 4])
        kids = [self.tree3(depth - 1) for _ in range(n)]
        if k < .3:
            return g.Rec(r.choice(['union', 'group']), kids)
        if k < .6:
            return g.difference(*kids)
        if k < .78:
            return g.intersection(*kids[:3])
        return self.xf(kids)

    def tree2(self, depth):
        r = self.r
        if depth <= 0:
            n = self.leaf2()
            return self.xf([n], 2) if r.random() < .5 else n
        k = r.random()
        kids = [self.tree2(depth - 1) for _ in range(r.choice([1, 2, 2, 3]))]
        if k < .35:
            return g.Rec(r.choice(['union', 'group']), kids)
        if k < .65:
            return g.difference(*kids)
        if k < .8:
            return g.intersection(*kids)
        return self.xf(kids, 2)
