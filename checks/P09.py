"""linear_extrude: height, center, scale, twist, slices."""
from common import main, hob
import e2e, big, geom as g


def mk(G, r, i):
    k = i % 5
    h = G.pos(1, 8)
    ce = r.random() < .4
    sl = r.choice([None, 1, 2, 3, 4, 7, 12])
    sc = r.choice([None, None, 0, G.pos(.25, 2), G.pos(1, 3), [G.pos(.25, 2)] * 2])
    if i % 18 == 11:
        # large: many corners or many slices
        m = r.randrange(4)
        if m == 0:
            n = big.size(r, 16, 300)
            tw = round(r.uniform(-1, 1) * min(100. * n, 3000.), 1) or 7.
            x = g.TwExt([G.star()], h, tw, ce, sc if not isinstance(sc, list) else None, n, True)
        elif m == 1:
            n = big.size(r, 1, 20)
            x = g.TwExt([g.polygon(big.ring(r, big.size(r, 20, 400)))], h, round(r.uniform(-1, 1) * 90. * n, 1) or 7., ce, None, n, True)
        else:
            x = g.LinExt([big.shape2(r)], h, ce, sc, r.choice([None, big.size(r, 2, 400)]))
        return g.Block([G.xf([x]) if r.random() < .3 else x])
    if k in (0, 1):
        # twist of one plain polygon: exact surface
        tw = r.choice([10., -10., 45., -45., 90., -90., 30., 170., -120., 360., -360., 1.5, round(r.uniform(-400, 400), 2)])
        n = sl or 1
        if abs(tw) / n > 150:
            sl = n = int(abs(tw) / 100) + 1
        leaf = r.choice([G.star, G.star, lambda: g.circle(G.pos(1, 5), G.fn()), lambda: g.square([G.pos(1, 6), G.pos(1, 6)], r.random() < .5)])()
        if r.random() < .25:
            a, b = G.pos(3, 6), G.pos(1, 2)
            leaf = g.polygon([(-a, -a), (a, -a), (a, a), (-a, a), (-b, -b), (b, -b), (b, b), (-b, b)], [[0, 1, 2, 3], [4, 5, 6, 7]])
        x = g.TwExt([leaf], h, tw, ce, sc if not isinstance(sc, list) or sc[0] == sc[1] else None, sl, True)
    elif k == 2:
        # twisted trees with many slices
        tw = round(r.uniform(-200, 200), 1) or 5.0
        sl = max(sl or 1, int(abs(tw) / 12) + 1)
        sc2 = r.choice([None, G.pos(.5, 2), [G.pos(.5, 2), G.pos(.5, 2)]])
        x = g.TwExt([G.tree2(r.choice([0, 1, 2])) for _ in range(r.choice([1, 1, 2]))], h, tw, ce, sc2, sl)
    elif k == 3:
        # anisotropic scale
        x = g.LinExt([G.tree2(r.choice([0, 1]))], h, ce, [G.pos(.25, 2.5), G.pos(.25, 2.5)], sl)
    else:
        x = g.LinExt([G.tree2(r.choice([0, 1, 2])) for _ in range(r.choice([1, 1, 2, 3]))], h, ce, sc, sl)
    if r.random() < .4:
        x = G.xf([x])
    return g.Block([x])


def run():
    chk = hob.Check('P09', rule='random linear_extrude parameter sets over polygons and 2D trees: twist to +-400 degrees, scale to 0, anisotropic '
                    'scale, up to 34 slices, transformed, one in 18 large (up to 1500 corners, 400 slices); counts when more than 20 sample points were decided to be inside')
    exe = hob.build('plain')
    e2e.batch(chk, exe, mk, chk.n(1800, 50000), nlay=8)
    bad = ['height=0', 'height=-1', 'height=2,slices=0', 'height=2,slices=-1', 'height=2,scale=-1', 'height=2,scale=[1,-1]', 'height=2,scale=[0,1]',
           'height=2,scale=[1,2,3]', 'height="a"', '', 'height=2,twist="x"', 'height=2,center=3.5', 'height=[1,2]', '2,true']
    for b in bad:
        for kid in ('square(3);', 'difference() { circle(3); square(1); }'):
            s = 'linear_extrude(%s) %s' % (b, kid)
            q, _ = hob.hob(exe, s, out='o.stl')
            chk.case(s)
            ck = hob.crash_kind(q)
            if ck or q.rc != 1 or not q.err.strip():
                chk.violation('accepted:' + b if not ck else 'crash-' + ck, 'expected an error for %s\nrc=%s %s' % (s, q.rc, q.etext[-300:]))
    chk.assumptions += ['with twist and a tree of shapes as child, points between the two possible diagonals of a side are not judged']
    chk.finish(chk.n(1000, 25000))


if __name__ == '__main__':
    main(run)
