"""2D Boolean operations inside extrusions."""
from common import main, hob
import e2e, big, geom as g
import math


def multipath(G, r):
    """polygon with several random paths, overlapping in any way (even-odd)"""
    pts, paths = [], []
    used = set()
    for _ in range(r.randint(1, 4)):
        n = r.randint(3, 7)
        cx, cy = G.f(-3, 3), G.f(-3, 3)
        if r.random() < .5:
            ring = [(round(cx + r.uniform(-4, 4), 3), round(cy + r.uniform(-4, 4), 3)) for _ in range(n)]   # self-crossing
        else:
            ring = [(round(cx + q * math.cos(2 * math.pi * i / n), 3), round(cy + q * math.sin(2 * math.pi * i / n), 3))
                    for q in [G.pos(1, 5)] for i in range(n)]
        if any(p in used for p in ring) or len(set(ring)) < n:
            continue
        used.update(ring)
        paths.append(list(range(len(pts), len(pts) + n)))
        pts += ring
    if not paths:
        return g.square([3., 2.])
    if r.random() < .3 and len(pts) > 5:
        # paths sharing vertices
        paths.append(r.sample(range(len(pts)), r.randint(3, min(6, len(pts)))))
    return g.polygon(pts, paths)


def boxes(G, r, d):
    if d == 0:
        return g.translate([float(r.randint(0, 4)), float(r.randint(0, 4))], g.square([float(r.randint(1, 4)), float(r.randint(1, 4))]))
    kids = [boxes(G, r, d - 1) for _ in range(r.randint(1, 4))]
    return r.choice([g.union, g.difference, g.difference, g.intersection, g.group])(*kids)


def tree(G, r, d):
    if d <= 0:
        n = multipath(G, r) if r.random() < .35 else G.leaf2()
        return G.xf([n], 2) if r.random() < .5 else n
    kids = [tree(G, r, d - 1) for _ in range(r.choice([1, 2, 2, 3, 4]))]
    k = r.random()
    if k < .3:
        return g.Rec(r.choice(['union', 'group']), kids)
    if k < .6:
        return g.difference(*kids)
    if k < .8:
        return g.intersection(*kids[:3])
    return G.xf(kids, 2)


def mk(G, r, i):
    k = i % 8
    if i % 18 == 11:
        n = r.choice([lambda: big.shape2(r), lambda: big.shape2(r), lambda: big.deep(r, G.leaf2(), G.leaf2),
                      lambda: r.choice([g.difference, g.union, g.intersection])(big.shape2(r), big.shape2(r))])()
    elif k == 0:
        n = boxes(G, r, r.randint(1, 3))
        if r.random() < .3:
            n = g.rotate(r.choice([90., 45., 30., 17.3]), n)
    elif k == 1:
        n = r.randint(9, 22)
        kids = [g.translate([G.f(-6, 6), G.f(-6, 6)], G.leaf2()) for _ in range(n)]
        op = r.choice([g.union, g.difference, g.group])
        n = op(*([g.square([14., 14.], True)] + kids)) if op is g.difference else op(*kids)
    elif k == 2:
        n = tree(G, r, 0)
        for _ in range(r.randint(3, 7)):
            o = tree(G, r, 0)
            op = r.choice([g.union, g.difference, g.intersection, g.difference])
            if op is g.intersection:
                o = g.square([12., 11.], True)
            n = op(n, o) if r.random() < .7 else op(o, n)
    elif k == 3:
        n = multipath(G, r)
    else:
        n = tree(G, r, r.choice([1, 2, 3]))
    kids = [n] + ([tree(G, r, 1)] if r.random() < .25 else [])
    x = g.LinExt(kids, G.pos(1, 3), r.random() < .3)
    if r.random() < .3:
        x = g.rotate([r.choice([0., 90., 180., 33.]), r.choice([0., 90., -90., 12.]), G.ang()], x)
    elif r.random() < .1:
        x = g.scale([1., -1.5, 1.], x)
    return g.Block([x])


def run():
    chk = hob.Check('P06', rule='random trees of 2D shapes below linear_extrude, incl. multi-path polygons with self-crossing and shared '
                    'vertices, aligned boxes, 9..22 operands, one in 18 large (up to 1500 points, 150 paths, 120 operands, 200 levels); counts when more than 20 sample points were decided to be inside')
    e2e.batch(chk, hob.build('plain'), mk, chk.n(2000, 60000), nlay=3, nrand=250, nnear=250)
    chk.assumptions += ['points closer than 2e-3 mm to a primitive edge are not judged']
    chk.finish(chk.n(1200, 30000))


if __name__ == '__main__':
    main(run)
