"""projection(cut=true) is the cut of its children at height zero."""
from common import main, hob
import e2e, big, geom as g


def solid(G, r, d):
    n = big.model3(G, r) if d == 0 and r.random() < .03 and not G.feat.get('noround') else G.tree3(r.choice([0, 0, 1, 2]))
    # move it through the plane
    lo, hi = n.bbox(g.Ctx(), g.I4)
    zr = round(-r.uniform(float(lo[2]), float(hi[2])), 4)
    z = zr if G.feat.get('noround') else r.choice([0., round(-float(lo[2] + hi[2]) / 2, 3), zr,
                  round(-r.uniform(float(lo[2]) - 2, float(hi[2]) + 2), 3)])
    n = g.translate([G.f(-3, 3), G.f(-3, 3), z], n)
    if d < 2 and r.random() < .15:
        n = g.difference(n, g.translate([0., 0., -1.5], g.LinExt([proj(G, r, d + 1)], 3.)))
    return n


def proj(G, r, d=0):
    return g.Projection([solid(G, r, d) for _ in range(r.choice([1, 1, 1, 2, 3]))],
                        r.choice(['projection(cut=true)', 'projection(true)', 'projection(cut=true,convexity=2)', 'projection(cut=1)']))


def mk(G, r, i):
    k = r.random()
    # (a hull magnifies tolerances: only generic cuts of flat-faced solids there)
    if .8 <= k < .87:
        G.feat['noround'] = True
    n = proj(G, r)
    big = g.square([30., 30.], True)
    if k < .35:
        n = G.xf([n], 2)
        if r.random() < .4:
            n = G.xf([n], 2)
    elif k < .5:
        n = g.difference(big, G.xf([n], 2)) if r.random() < .5 else g.difference(n, G.xf([proj(G, r)], 2))
    elif k < .65:
        n = g.intersection(n, G.xf([r.choice([lambda: proj(G, r), lambda: G.tree2(0)])()], 2))
    elif k < .8:
        n = g.union(n, G.xf([proj(G, r)], 2), G.tree2(0))
    elif k < .87:
        n = g.Hull([n, G.tree2(0)])
    kids = [n] + ([G.tree2(0)] if r.random() < .3 else [])
    x = g.LinExt(kids, G.pos(1, 3), r.random() < .3)
    if r.random() < .35:
        x = G.xf([x])
    b = g.cube(1.)
    if r.random() < .2:
        x = g.difference(x, G.xf([G.leaf3()]))
    # (the extrusion may be empty: a far cube keeps the model and its layers)
    return g.Block([x, g.translate([50., 50., 0.], b)]) if r.random() < .6 else g.Block([g.translate([50., 50., -5.], g.cube([1., 1., 10.])), x])


def run():
    chk = hob.Check('P12', rule='cuts of random 3D trees moved through the plane at random heights, nested projections, used below 2D '
                    'transformations, Boolean operations, hull and in several extrusions; counts when more than 20 sample points were decided to be inside')
    exe = hob.build('plain')
    e2e.batch(chk, exe, mk, chk.n(1500, 40000), nlay=4, nrand=250, nnear=250)
    for s in ('linear_extrude(1) projection() cube(1);', 'linear_extrude(1) projection(cut=false) cube(1);', 'projection(cut=true) cube(1);',
              'linear_extrude(1) projection(cut=0) cube(1);', 'linear_extrude(1) projection(cut=true) square(1);',
              'linear_extrude(1) projection(cut="x") cube(1);'):
        q, _ = hob.hob(exe, s, out='o.stl')
        chk.case(s)
        ck = hob.crash_kind(q)
        if ck or q.rc != 1 or not q.err.strip():
            chk.violation('accepted:' + s if not ck else 'crash-' + ck, 'expected an error for %s\nrc=%s %s' % (s, q.rc, q.etext[-300:]))
    chk.assumptions += ['points closer than 2e-3 mm to a cut outline are not judged; nor are cuts within 1e-3 mm of a horizontal face']
    chk.finish(chk.n(700, 15000))


if __name__ == '__main__':
    main(run)
