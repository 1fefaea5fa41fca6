"""Polyhedra of any shape are cut correctly."""
from common import main, hob
import e2e, big, geom as g, meshes


def mk(G, r, i):
    pts, faces = big.mesh(r) if i % 16 == 9 else meshes.any_mesh(r) if i % 8 else meshes.fractional(r)
    if r.random() < .3 and len(faces) < 300:
        t = meshes.triangulate(pts, faces)
        if t:
            faces = t
    pts, faces = meshes.scramble(r, pts, faces)
    # clockwise seen from outside as documented; other directions are accepted, too
    k = r.random()
    n = g.Poly3(pts, [f if (k < .2 and r.random() < .3) else f[::-1] for f in faces] if k < .8 else faces)
    if r.random() < .3:
        n.text = n.text.replace('faces=', 'triangles=') if r.random() < .5 else n.text.replace('points=', '').replace('faces=', '')
    k = r.random()
    opts = {}
    if k < .35:
        # cuts exactly through vertices
        n = g.rotate([r.choice([0., 90., 180., -90.]), r.choice([0., 90., 180., -90.]), r.choice([0., 90.])], n)
        opts = dict(frac=r.choice([.5, .25, 1.0]), zmin=-8.0, max_slabs=14)
    elif k < .6:
        n = G.xf([n])
    elif k < .7:
        n = g.mirror([G.f(-2, 2), 1., G.f(-2, 2)], n)
    if k >= .35:
        n = g.scale([1., 1., r.choice([1., 1., .2])], n)
    return g.Block([n]), opts


def damage(r, pts, faces):
    """returns description and text of a polyhedron that must be rejected"""
    k = r.randrange(6)
    faces = [list(f) for f in faces]
    pts = list(pts)
    i = r.randrange(len(faces))
    f = faces[i]
    if k == 0:
        f[r.randrange(len(f))] = len(pts) + r.choice([0, 0, 1, 1000000, 2**31, 2**32, 2**62])
        what = 'index out of range'
    elif k == 1:
        f[r.randrange(len(f))] = -1 - r.choice([0, 0, 5, 2**31])
        what = 'negative index'
    elif k == 2:
        del f[r.randint(0, 2):]
        what = 'face with less than three vertices'
    elif k == 3:
        faces.append([0, 1, 2])
        t = g.Poly3(pts, faces).emit().replace('[0,1,2]]', r.choice(['[0,1,2.5]]', '[0,1,"2"]]', '3]', '[0,1,[2]]]', 'undef]', '[0:2]]']))
        return 'ill-typed face', t
    elif k == 4:
        pts[r.randrange(len(pts))] = r.choice([(1., 2.), (1., 2., 3., 4.), ()])
        what = 'point of wrong size'
    else:
        t = g.Poly3(pts, faces).emit()
        return 'missing or conflicting faces', r.choice([t[:t.index('faces')] + 'convexity=2);\n', t.replace(');', ',triangles=[[0,1,2]]);')])
    return what, g.Poly3(pts, faces).emit()


def _bad(a):
    exe, seed = a
    import random
    r = random.Random(seed)
    what, src = damage(r, *meshes.scramble(r, *meshes.any_mesh(r)))
    q, data = hob.hob(exe, src, ['--step=1'], out='o.stl')
    return src, what, q.rc, q.etext[-400:], hob.crash_kind(q)


def run():
    chk = hob.Check('P08', rule='random star-shaped, stacked, cup-like, toroidal, voxel and convex meshes in random vertex/face order and direction, one in 16 large (up to 4000 faces or 300 corners per face), a third '
                    'cut exactly at vertex heights; ill-formed copies must be rejected; counts when more than 20 points were decided to be inside')
    exe = hob.build('plain')
    e2e.batch(chk, exe, mk, chk.n(2000, 50000), nlay=9)
    for src, what, rc, err, ck in hob.pmap(_bad, [(exe, chk.seed * 70001 + i) for i in range(chk.n(500, 10000))], chunk=10):
        chk.case(src)
        chk.stat('damaged')
        if ck or rc != 1 or not err.strip():
            chk.violation('damage-' + what.replace(' ', '-') if not ck else 'crash-' + ck, '%s: rc=%s %s\n%s' % (what, rc, err, src), {'model.scad': src})
    chk.assumptions += ['points closer than 2e-3 mm to a face are not judged']
    chk.finish(chk.n(1500, 30000))


if __name__ == '__main__':
    main(run)
