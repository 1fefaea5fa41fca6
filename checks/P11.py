"""hull() is the convex hull of its children."""
from common import main, hob
import e2e, big, geom as g
import math


def kid(G, r):
    k = r.randrange(9)
    if k == 0:
        # aligned boxes: many collinear and coinciding points
        return g.translate([float(r.randint(-5, 5)), float(r.randint(-5, 5))], g.square([float(r.randint(1, 3)), float(r.randint(1, 3))]))
    if k == 1:
        # lattice polygon with collinear runs
        n = r.randint(1, 4)
        return g.polygon([(float(i), 0.) for i in range(n + 1)] + [(float(n - i), 2. + (i % 2)) for i in range(n + 1)])
    if k == 2:
        # points on one circle
        n = r.randint(5, 24)
        return g.translate([G.f(-2, 2), G.f(-2, 2)], g.circle(G.pos(1, 6), n))
    if k == 3:
        # thin slivers
        a = r.uniform(0, 2 * math.pi)
        x, y = round(6 * math.cos(a), 3), round(6 * math.sin(a), 3)
        return g.polygon([(-x, -y), (x, y), (x + .05, y + .031)])
    if k == 4:
        return g.difference(G.tree2(0), g.translate([G.f(-3, 3), G.f(-3, 3)], G.leaf2()))
    if k == 5:
        return g.intersection(g.square([8., 8.], True), G.tree2(1))
    if k == 6:
        # far away
        return g.translate([G.f(-60, 60), G.f(-60, 60)], G.leaf2())
    return G.tree2(r.choice([0, 0, 1]))


def hull(G, r, d=0):
    kids = [kid(G, r) for _ in range(r.choice([1, 1, 2, 2, 3, 4, 7]))]
    if r.random() < .15:
        kids.append(kids[0])
    if d < 2 and r.random() < .2:
        kids.append(hull(G, r, d + 1))
    r.shuffle(kids)
    return g.Hull(kids)


def mk(G, r, i):
    n = big.hull(G, r) if i % 16 == 9 else hull(G, r)
    k = r.random()
    if k < .25:
        n = G.xf([n], 2)
    elif k < .4:
        n = G.xf([G.xf([n], 2)], 2)
    elif k < .55:
        n = g.difference(n, G.xf([hull(G, r, 2)], 2))
    elif k < .65:
        n = g.union(G.xf([n], 2), G.xf([n], 2))
    elif k < .75:
        n = g.intersection(G.xf([n], 2), g.square([11., 9.], True))
    k = r.random()
    if k < .8:
        x = g.LinExt([n], G.pos(1, 3), r.random() < .3, None if r.random() < .8 else G.pos(.5, 2))
    else:
        b = n.segs2(g.np.eye(3), g.Ctx())
        if not len(b):
            return g.Block([g.LinExt([n], 1.0)])
        x = g.RotExt([g.translate([round(float(-min(b[:, 0].min(), b[:, 2].min())) + 1, 4), 0.], n)], G.fn(), None)
    if r.random() < .4:
        x = G.xf([x])
    return g.Block([x])


def run():
    chk = hob.Check('P11', rule='hulls of 1..8 random 2D children (one in 16 with up to 1500 points or 200 children; collinear, cocircular, duplicated, sliver, distant, Boolean, nested '
                    'hulls) below random transformations; counts when more than 20 sample points were decided to be inside')
    exe = hob.build('plain')
    e2e.batch(chk, exe, mk, chk.n(1500, 40000), nlay=3, nrand=250, nnear=250)
    for s in ('hull() cube(1);', 'hull() { cube(2); translate([9,0,0]) sphere(1); }', 'hull() linear_extrude(1) circle(1);',
              'translate([1,1,1]) hull() cylinder(r=1,h=1);', 'linear_extrude(1) hull(a=3;) square(1);',
              'linear_extrude(1) hull() cube(1);', 'hull() square(1);'):
        q, _ = hob.hob(exe, s, out='o.stl')
        chk.case(s)
        ck = hob.crash_kind(q)
        if ck or q.rc != 1 or not q.err.strip():
            chk.violation('accepted:' + s if not ck else 'crash-' + ck, 'expected an error for %s\nrc=%s %s' % (s, q.rc, q.etext[-300:]))
    chk.assumptions += ['points closer than 2e-3 mm (4e-3 mm inside) to the hull outline are not judged']
    chk.finish(chk.n(800, 20000))


if __name__ == '__main__':
    main(run)
