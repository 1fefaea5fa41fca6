"""Transformations compose as matrices."""
from common import main, hob
import e2e, big, geom as g
import numpy as np, math


class XfT(g.Xf):
    pass


def mat_text(m, rows, cols, r):
    return '[' + ','.join(g.vec([float(x) for x in m[i, :cols]]) for i in range(rows)) + ']'


def xf(G, r, kids):
    """all notations of transformations"""
    k = r.randrange(12)
    N = g.num
    if k == 0:
        v = [G.f(-5, 5) for _ in range(3)]
        return g.Xf('translate(v=%s)' % g.vec(v), g.m_translate(v), kids)
    if k == 1:
        v = [G.f(-5, 5) for _ in range(2)]
        return g.Xf('translate(%s)' % g.vec(v), g.m_translate(v + [0]), kids)
    if k == 2:
        a = G.ang()
        return g.Xf(r.choice(['rotate(%s)', 'rotate(a=%s)', 'rotate(%s,v=[0,0,1])']) % N(a), g.m_rot(2, a), kids)
    if k == 3:
        v = [r.choice([0., G.ang()]) for _ in range(3)]
        return g.Xf(r.choice(['rotate(%s)', 'rotate(a=%s)']) % g.vec(v), g.m_rotxyz(v), kids)
    if k == 4:
        v = [G.f(-3, 3) for _ in range(3)]
        if np.linalg.norm(v) < .5:
            v = [1., 2., 3.]
        a = G.ang()
        return g.Xf(r.choice(['rotate(a=%s,v=%s)', 'rotate(%s,%s)']) % (N(a), g.vec(v)), g.m_rotv(a, v), kids)
    if k == 5:
        ax = r.randrange(3)
        v = [0., 0., 0.]
        v[ax] = r.choice([1., -1., 2.5])
        a = r.choice([90., -90., 180., 270., 45., 360., 720., 450.])
        return g.Xf('rotate(a=%s,v=%s)' % (N(a), g.vec(v)), g.m_rotv(a, v), kids)
    if k == 6:
        s = G.pos(.5, 2) * r.choice([1, 1, -1])
        return g.Xf(r.choice(['scale(%s)', 'scale(v=%s)']) % N(s), g.m_scale([s] * 3), kids)
    if k == 7:
        v = [G.pos(.5, 2) * r.choice([1, 1, -1]) for _ in range(3)]
        return g.Xf(r.choice(['scale(%s)', 'scale(v=%s)']) % g.vec(v), g.m_scale(v), kids)
    if k == 8:
        v = [G.pos(.5, 2), G.pos(.5, 2)]
        return g.Xf('scale(%s)' % g.vec(v), g.m_scale(v + [1]), kids)
    if k == 9:
        v = [r.choice([0., G.f(-3, 3)]) for _ in range(r.choice([2, 3, 3]))]
        if sum(map(abs, v)) < .1:
            v[0] = 1.0
        return g.Xf(r.choice(['mirror(%s)', 'mirror(v=%s)']) % g.vec(v), g.m_mirror(v + [0.] * (3 - len(v))), kids)
    while True:
        m = np.eye(4)
        for i in range(3):
            for j in range(3):
                m[i, j] = (i == j) + (round(r.uniform(-1, 1), 3) if r.random() < .6 else 0)
            m[i, 3] = G.f(-4, 4)
        rows, cols = r.choice([(4, 4), (3, 4), (3, 3), (4, 4), (2, 2), (2, 3), (3, 2), (2, 4), (4, 3)])
        e = np.eye(4)
        m[:, cols:] = e[:, cols:]
        m[rows:] = e[rows:]
        s = np.linalg.svd(m[:3, :3])[1]
        if s[2] > .3 and s[0] < 4:
            break
    return g.Xf(r.choice(['multmatrix(%s)', 'multmatrix(m=%s)']) % mat_text(m, rows, cols, r), m, kids)


def asym(G, r):
    """a chiral object without symmetry: any wrong matrix shows"""
    k = r.randrange(4)
    a, b, c = G.pos(2, 6), G.pos(1, 4), G.pos(1, 3)
    if k == 0:
        return g.difference(g.cube([a + 2, b + 1, c + 1]), g.translate([a, b, -1.], g.cube([3., 2., 9.])),
                            g.translate([-1., -1., c], g.cube([2.5, 2., 3.])))
    if k == 1:
        return g.cylinder(a, b, c * .5, 5, False)
    if k == 2:
        return g.Poly3([(0., 0., 0.), (a, 0., 0.), (0., b, 0.), (0., 0., c)], [[0, 1, 2], [1, 0, 3], [2, 1, 3], [0, 2, 3]])
    return g.LinExt([g.polygon([(0., 0.), (a, 0.), (a, 1.), (1., b), (0., b)])], c)


def mk(G, r, i):
    if i % 24 == 19:
        return g.Block([big.deep(r, asym(G, r), lambda: asym(G, r))])
    if i % 3 == 0:
        # distributed over several children and levels
        n = xf(G, r, [asym(G, r), xf(G, r, [asym(G, r)])])
        n = xf(G, r, [n])
    elif i % 3 == 1:
        n = asym(G, r)
        for _ in range(r.randint(1, 5)):
            n = xf(G, r, [n])
    else:
        # inside 2D
        n = g.polygon([(0., 0.), (G.pos(2, 5), 0.), (G.pos(2, 5), 1.), (1., G.pos(2, 5))])
        for _ in range(r.randint(1, 4)):
            n = G.xf([n], 2)
        n = g.LinExt([n], G.pos(1, 4))
        for _ in range(r.randint(0, 2)):
            n = xf(G, r, [n])
    # keep the overall scale sensible
    bb = n.bbox(g.Ctx(), g.I4)
    d = (bb[1] - bb[0])
    if d.max() > 60 or d.min() < .3:
        n = asym(G, r)
        n = xf(G, r, [n])
    return g.Block([n])


def _ex(a):
    exe, seed = a
    import random, outp
    r = random.Random(seed)
    sz = [r.randint(1, 9) for _ in range(3)]
    M = g.I4
    t = ''
    for _ in range(r.randint(1, 6)):
        k = r.randrange(4)
        if k == 0:
            v = [r.randint(-20, 20) for _ in range(3)]
            M = M @ g.m_translate(v)
            t += 'translate(%s) ' % g.vec(v)
        elif k == 1:
            v = [90 * r.randint(-5, 9) for _ in range(3)]
            M = M @ g.m_rotxyz([float(x) for x in v])
            t += 'rotate(%s) ' % g.vec(v)
        elif k == 2:
            ax = r.randrange(3)
            v = [0, 0, 0]
            v[ax] = r.choice([1, -1])
            q = 90 * r.randint(-9, 9)
            M = M @ g.m_rotv(float(q), v)
            t += 'rotate(%d,%s) ' % (q, g.vec(v))
        else:
            v = [0, 0, 0]
            v[r.randrange(3)] = r.choice([1, -1, 2])
            M = M @ g.m_mirror(v)
            t += 'mirror(%s) ' % g.vec(v)
    src = t + 'cube(%s);' % g.vec(sz)
    q, data = hob.hob(exe, src, ['--dump-csg3'])
    want = sorted(tuple(float(x) + 0.0 for x in np.round(M @ np.array([x, y, z, 1.0]))[:3])
                  for x in (0, sz[0]) for y in (0, sz[1]) for z in (0, sz[2]))
    try:
        d = outp.scad_parse(q.out.decode())
        got = sorted(tuple(x + 0.0 for x in p) for p in dict(d[0][2])['points'])
    except Exception as e:
        return src, 'rc=%s %s %r' % (q.rc, q.etext[-300:], e)
    return src, None if got == want else 'expected vertices %s, got %s' % (want, got)


def exact(chk, exe):
    """quarter turns, mirrors and integer shifts must give exactly integer vertices"""
    n = chk.n(400, 8000)
    for src, msg in hob.pmap(_ex, [(exe, chk.seed * 100003 + i) for i in range(n)], chunk=10):
        chk.case(src)
        chk.stat('exact_chains')
        if msg:
            chk.violation('exact', src + '\n' + msg, {'model.scad': src})


def run():
    chk = hob.Check('P13', rule='chains of up to 6 (one in 24: up to 200) transformations in every notation around chiral objects; counts when more than 20 sample '
                    'points were decided to be inside')
    exe = hob.build('plain')
    e2e.batch(chk, exe, mk, chk.n(2400, 60000), nlay=6)
    exact(chk, exe)
    # arguments that must be rejected
    bad = ['multmatrix([[0,0,0,0],[0,0,0,0],[0,0,0,0],[0,0,0,1]])', 'multmatrix([[1,2,3,0],[2,4,6,0],[0,0,1,0],[0,0,0,1]])',
           'multmatrix(3)', 'multmatrix([1,2,3])', 'rotate(a=30,v=[0,0,0])', 'multmatrix([[1,0,0],[0,1,0],[0,0,"1"]])', 'multmatrix([[1],[0]])', 'multmatrix([[1,0,0,0]])', 'multmatrix([[1,0,0,0],[0,1,0,0],[0,0,1,0],[1,0,0,1]])',
           'multmatrix([[1,0,0,0],[0,1,0,0],[0,0,1,0],[0,0,0,2]])', 'multmatrix()', 'scale([0,1,1])', 'scale([1,1,0])', 'scale(0)',
           'translate()', 'translate(5)', 'translate([1,2,3,4])', 'translate("x")', 'translate([1,"a",2])', 'mirror([0,0,0])',
           'mirror()', 'rotate()', 'rotate("a")', 'rotate([1,2,3,4])', 'scale("a")', 'scale([1,2,3,4])', 'rotate(a=[1,2,3],v=[0,0,1])',
           'multmatrix([[1,0,0,0],[0,1,0,0],[0,0,1,0],[0,0,0,1],[0,0,0,0]])', 'multmatrix([[1,0,0,0,0],[0,1,0,0],[0,0,1,0],[0,0,0,1]])']
    for t in bad:
        for k in ('cube(2);', 'linear_extrude(2) square(2);'):
            s = t + ' ' + k
            q, data = hob.hob(exe, s, out='o.stl')
            chk.case(('bad', s), True)
            ck = hob.crash_kind(q)
            if ck or q.rc != 1 or not q.err.strip():
                chk.violation('bad-accepted:' + t if not ck else 'crash-' + ck, 'expected an error for: %s\nrc=%s %s' % (s, q.rc, q.etext[-400:]))
    chk.finish(chk.n(1500, 30000))


if __name__ == '__main__':
    main(run)
