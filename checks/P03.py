"""3D Boolean membership: every slab of the output is the cut of the model."""
from common import main, hob
import e2e, big, geom as g


def mk(G, r, i):
    k = i % 8
    if i % 20 == 11:
        return g.Block([big.model3(G, r)])
    if i % 40 == 18:
        return g.Block(big.mosaic(G, r)), dict(nlay=3, nrand=1500, nnear=1500)
    if k == 5:
        # aligned boxes: coincident and collinear faces everywhere
        def box():
            p = [float(r.randint(0, 4)) for _ in range(3)]
            s = [float(r.randint(1, 4)) for _ in range(3)]
            return g.translate(p, g.cube(s))

        def tree(d):
            if d == 0:
                return box()
            kids = [tree(d - 1) for _ in range(r.randint(1, 4))]
            return r.choice([g.union, g.difference, g.difference, g.intersection, g.group])(*kids)
        n = tree(r.randint(1, 3))
        if r.random() < .3:
            n = g.rotate([0., 0., r.choice([90., 45., 30., 180., 17.3])], n)
        return g.Block([n])
    if k == 6:
        # many operands in one operation
        n = r.randint(8, 24)
        op = r.choice([g.union, g.difference, g.group, g.union, g.intersection])
        if op is g.intersection:
            kids = [g.translate([G.f(-1, 1) for _ in range(3)], g.cylinder(12, G.pos(5, 8), G.pos(5, 8), G.fn(), True)) for _ in range(n)]
        else:
            kids = [g.translate([G.f(-6, 6), G.f(-6, 6), G.f(-3, 3)], G.leaf3()) for _ in range(n)]
        if op is g.difference:
            kids = [g.cube([16, 16, 10], True)] + kids
        if r.random() < .5:
            h = len(kids) // 2
            kids = kids[:h] + [r.choice([g.union, g.group, g.intersection, g.difference])(*kids[h:])]
        return g.Block([op(*kids)])
    if k == 7:
        # deep alternation of operations
        n = G.tree3(0)
        for _ in range(r.randint(4, 9)):
            o = G.tree3(0)
            op = r.choice([g.union, g.difference, g.intersection, g.difference, g.group])
            if op is g.intersection:
                o = g.translate([G.f(-2, 2) for _ in range(3)], g.cube(G.pos(8, 12), True))
            if op is g.difference and r.random() < .3:
                n = g.difference(g.cube([14., 13., 12.], True), n)
            else:
                n = op(n, o) if r.random() < .8 else op(o, n)
            if r.random() < .25:
                n = G.xf([n])
        return g.Block([n])
    return g.Block([G.tree3(r.choice([1, 2, 2, 3])) for _ in range(r.choice([1, 1, 2, 3]))])


def run():
    chk = hob.Check('P03', rule='random Boolean trees over all 3D primitives, aligned boxes, wide and deep operations, one in 20 models large (up to 4000 faces, 200 operands, 200 levels, 90 models of all kinds); '
                    'a model counts when more than 20 sample points were decided to be inside it')
    exe = hob.build('plain')
    e2e.batch(chk, exe, mk, chk.n(2400, 60000), nlay=7)
    chk.assumptions += ['points closer than 2e-3 mm to any primitive surface (or 2e-4 mm in z) are not judged: '
                        'the tool snaps to a 1.2e-4 mm grid', 'oracle tessellates curved primitives as documented']
    chk.finish(chk.n(1500, 30000))


if __name__ == '__main__':
    main(run)
