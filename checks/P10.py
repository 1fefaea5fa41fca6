"""rotate_extrude sweeps the child about the z axis."""
from common import main, hob
import e2e, big, geom as g
import numpy as np


def child(G, r, ctx):
    """2D shape with all x >= 0 or all x <= 0"""
    k = r.randrange(7)
    if k == 0:
        return g.square([G.pos(1, 4), G.pos(1, 4)])
    if k == 1:
        # touches the axis in vertices
        return r.choice([g.polygon([(0., 0.), (G.pos(1, 4), 0.), (G.pos(1, 4), G.pos(1, 4)), (0., G.pos(1, 5))]),
                         g.polygon([(0., 0.), (G.pos(2, 4), -1.), (G.pos(2, 4), G.pos(1, 4))]),
                         g.polygon([(0., -2.), (3., 0.), (0., 2.), (1.5, 0.)]),
                         g.polygon([(0., 1.), (G.pos(1, 3), 0.), (0., -1.)])])
    n = G.tree2(r.choice([0, 0, 1, 2]))
    s = n.segs2(np.eye(3), ctx)
    x0 = min(s[:, 0].min(), s[:, 2].min())
    gap = r.choice([0, 1.0, 2.5, G.pos(.1, 4)])
    if k == 6:
        gap = 0
    n = g.translate([round(float(-x0) + gap + (1e-3 if gap == 0 and k != 6 else 0), 6) if gap or k != 6 else float(np.ceil(-x0 * 4) / 4), G.f(-3, 3)], n)
    return n


def mk(G, r, i):
    ctx = g.Ctx(max_fn=r.choice([100, 100, 100, 50, 12, 40]))
    large = i % 16 == 9
    if large:
        ctx = g.Ctx(max_fn=r.choice([100, 300, 70, 129, 257]))
        # many corners, or many segments
        many = r.random() < .5
        kids = [g.translate([r.choice([6., 7.5]), 0.], r.choice([lambda: g.circle(3., 9), G.star])() if many else r.choice([lambda: big.poly2(r, big.size(r, 20, 200)), lambda: big.many2(r, 20)])())]
    else:
        kids = [child(G, r, ctx) for _ in range(r.choice([1, 1, 1, 2]))]
    if r.random() < .3:
        # left of the axis
        kids = [g.mirror([1., 0.], k) for k in kids]
    ang = r.choice([None, None, 360., 400., 359.9, 90., 180., 270., 45., 10., round(r.uniform(1, 359), 2)])
    fn = r.choice([G.fn(), G.fn(), 1, 2, 0, None, 60, 120])
    if large:
        fn = r.choice([None, big.size(r, 16, 300)]) if many else G.fn()
    if ang is not None and ang < 360:
        # segments must span less than a half turn
        f = min(fn or ctx.max_fn, ctx.max_fn)
        lo = 2 if ang >= 180 else 1
        if ang / max(f, lo) >= 170:
            fn = 4
    x = g.RotExt(kids, fn, ang)
    if large:
        x = g.scale([.5, .5, .5], x)
    if r.random() < .4:
        x = G.xf([x])
    return g.Block([x]), dict(ctx=ctx)


def run():
    chk = hob.Check('P10', rule='random children on either side of or touching the axis, angles from 1 to 400 degrees, $fn from 0 to 120, --max-fn varied, '
                    'transformed; counts when more than 20 sample points were decided to be inside')
    exe = hob.build('plain')
    e2e.batch(chk, exe, mk, chk.n(900, 30000), nlay=7)
    for a in ('', 'angle=90', '$fn=5', 'angle=90,$fn=1'):
        for kid in ('square([4,3],true);', 'circle(3);', 'polygon([[-1,0],[2,0],[2,3]]);', 'translate([-1,0]) square(2);',
                    'union() { translate([2,0]) square(1); translate([-3,0]) square(1); }'):
            s = 'rotate_extrude(%s) %s' % (a, kid)
            q, _ = hob.hob(exe, s, out='o.stl')
            chk.case(s)
            ck = hob.crash_kind(q)
            if ck or q.rc != 1 or not q.err.strip():
                chk.violation('mixed-accepted' if not ck else 'crash-' + ck, 'expected an error for %s\nrc=%s %s' % (s, q.rc, q.etext[-300:]))
    for a in ('angle=0', 'angle=-10', 'angle="x"', '$fn=-3', '$fn=3.5', 'angle=[1]', '90'):
        s = 'rotate_extrude(%s) translate([2,0]) square(1);' % a
        q, _ = hob.hob(exe, s, out='o.stl')
        chk.case(s)
        ck = hob.crash_kind(q)
        if ck or q.rc != 1 or not q.err.strip():
            chk.violation('accepted:' + a if not ck else 'crash-' + ck, 'expected an error for %s\nrc=%s %s' % (s, q.rc, q.etext[-300:]))
    chk.assumptions += ['points closer than 2e-3 mm (scaled) to a surface are not judged']
    chk.finish(chk.n(500, 15000))


if __name__ == '__main__':
    main(run)
