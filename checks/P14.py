"""Round primitives are tessellated as documented: exact vertices."""
from common import main, hob
import geom as g
import outp, gen
import math, random, re
import numpy as np
from scipy.spatial import cKDTree

N = g.num


def ring(n, r, z=None):
    p = []
    for i in range(n):
        s, c = g.sincosd(360.0 * i / n)
        p.append((r * c, r * s) if z is None else (r * c, r * s, z))
    return p


def same(got, want, tol):
    """both point lists describe the same set of points"""
    a, b = np.array(sorted(set(got)), float), np.array(sorted(set(want)), float)
    if len(got) == 0:
        return 'no vertices'
    for x, y, w in ((a, b, 'unexpected'), (b, a, 'missing')):
        d = cKDTree(y).query(x)[0]
        i = int(np.argmax(d))
        if d[i] > tol:
            return '%s vertex %s (nearest is %g away); %d vertices, expected %d' % (w, tuple(x[i]), d[i], len(a), len(b))
    return None


def args(r, pos, named):
    """positional arguments first, then named in any order"""
    named = list(named)
    r.shuffle(named)
    return ','.join(list(pos) + named)


def fnarg(r, mx):
    fn = r.choice([None, 0, 3, 4, 5, 7, 8, 12, 25, 36, 99, 100, mx, mx + 1, mx - 1, 1000, r.randint(3, 40), r.randint(3, mx)])
    return max(fn, 3) if fn else fn


def _one(a):
    exe, seed = a
    r = random.Random(seed)
    G = gen.Gen(r)
    mx = r.choice([100, 100, 100, 100, 100, 50, 17, 3, 5, 200, r.randint(120, 300), r.choice([129, 257, 256, 513, 1000])])
    opt = ['--max-fn=%d' % mx] if mx != 100 or r.random() < .2 else []
    k = r.choice(['cyl', 'cyl', 'sph', 'sph', 'circ', 'circ', 'round'])
    fn = fnarg(r, mx)
    ex = ['$fn=%d' % fn] if fn is not None else []
    ex += r.choice([[], [], ['$fa=%s' % N(G.pos(1, 20))], ['$fs=%s' % N(G.pos(.1, 3)), '$fa=0.5']])
    n = g.get_fn(fn, mx)
    if k == 'cyl':
        c = r.random() < .5
        h = r.choice([None, G.pos(.5, 30)])
        r1, r2 = G.pos(.1, 20), G.pos(.1, 20)
        m = r.randrange(9)
        pos = []
        nm = []
        if m == 0:
            r1, r2 = 1.0, 1.0
        elif m == 1:
            nm, r2 = ['r=' + N(r1)], r1
        elif m == 2:
            nm, r2 = ['d=' + N(2 * r1)], r1
        elif m == 3:
            nm = ['r1=' + N(r1), 'r2=' + N(r2)]
        elif m == 4:
            nm = ['d1=' + N(2 * r1), 'd2=' + N(2 * r2)]
        elif m == 5:
            nm = ['r1=' + N(r1), 'd2=' + N(2 * r2)]
        elif m == 6:
            r1 = 0.0
            nm = ['r1=0', 'r2=' + N(r2)]
        elif m == 7:
            r2 = 0.0
            nm = ['d1=' + N(2 * r1), 'r2=0']
        else:
            h = G.pos(.5, 30)
            pos = [N(h), N(r1), N(r2)]
            if r.random() < .5:
                pos.append('true' if c else 'false')
            elif c:
                nm.append('center=true')
        if m != 8:
            if h is not None:
                if r.random() < .5:
                    pos = [N(h)]
                else:
                    nm.append('h=' + N(h))
            else:
                h = 1.0
            if c or r.random() < .2:
                nm.append('center=' + ('true' if c else 'false'))
        src = 'cylinder(%s);' % args(r, pos, nm + ex)
        z0 = -h / 2 if c else 0.0
        want = ([(0., 0., z0)] if r1 == 0 else ring(n, r1, z0)) + ([(0., 0., z0 + h)] if r2 == 0 else ring(n, r2, z0 + h))
        scale = max(h, r1, r2, 1)
    elif k in ('sph', 'round'):
        if k == 'sph':
            fn = r.choice([1, 2, r.randint(3, min(mx, 300))]) if r.random() < .9 else None
            n = 0 if fn is None else max(3, fn)
            if fn is None:
                k = 'round'
            ex = [x for x in ex if not x.startswith('$fn')] + (['$fn=%d' % fn] if fn is not None else [])
        else:
            fn = r.choice([None, 0, mx + 1, 1000])
            ex = [x for x in ex if not x.startswith('$fn')] + (['$fn=%d' % fn] if fn is not None else [])
        rr = G.pos(.2, 20)
        m = r.randrange(4)
        if m == 0:
            src = 'sphere(%s);' % args(r, [N(rr)], ex)
        elif m == 1:
            src = 'sphere(%s);' % args(r, [], ['r=' + N(rr)] + ex)
        elif m == 2:
            src = 'sphere(%s);' % args(r, [], ['d=' + N(2 * rr)] + ex)
        else:
            rr = 1.0
            src = 'sphere(%s);' % args(r, [], ex)
        if k == 'sph':
            nz = (n + 1) // 2
            want = []
            for i in range(nz):
                s, c = g.sincosd(180.0 * (i + .5) / nz)
                want += ring(n, rr * s, rr * c)
            scale = max(1, rr)
    else:
        rr = G.pos(.2, 20)
        m = r.randrange(4)
        if m == 0:
            t = 'circle(%s)' % args(r, [N(rr)], ex)
        elif m == 1:
            t = 'circle(%s)' % args(r, [], ['r=' + N(rr)] + ex)
        elif m == 2:
            t = 'circle(%s)' % args(r, [], ['d=' + N(2 * rr)] + ex)
        else:
            rr = 1.0
            t = 'circle(%s)' % args(r, [], ex)
        src = 'linear_extrude(2) %s;' % t
        want = ring(n, rr)
    if k in ('cyl', 'sph'):
        q, data = hob.hob(exe, src, opt + ['--dump-csg3'])
        try:
            d = outp.scad_parse(q.out.decode())
            got = [tuple(float(x) for x in p) for p in dict(d[0][2])['points']]
        except Exception as e:
            return src, opt, k, 'rc=%s %s %r %s' % (q.rc, q.etext[-300:], e, q.out[:200])
        return src, opt, k, same(got, want, 1e-9 * scale) or (None if len(got) == len(want) else '%d vertices, expected %d' % (len(got), len(want)))
    # sliced: vertices of the layer are within the grid
    z = 1.0 if k == 'circ' else round(r.uniform(-.95, .95) * rr, 3)
    q, data = hob.hob(exe, src, opt + ['-z', '%s' % N(z)] if z >= 0 else opt + ['-z=%s' % N(z)], out='o.stl')
    if q.rc != 0:
        return src, opt, k, 'rc=%s %s' % (q.rc, q.etext[-300:])
    try:
        Nn, T = outp.stl_ascii(data)
        got = [tuple(p) for p in T.reshape(-1, 3)[:, :2]]
    except Exception as e:
        return src, opt, k, repr(e)
    tol = 4e-4
    if k == 'round':
        zz = z + 2.0 ** -15
        want = ring(mx, math.sqrt(rr * rr - zz * zz))
        tol = 3e-4 * max(1.0, abs(z) / math.sqrt(rr * rr - z * z)) + 1e-4
    # vertices closer together than the grid may merge
    return src, opt, k, same(got, want, tol)


def run():
    chk = hob.Check('P14', rule='circles, cylinders, cones and spheres in every notation, with $fn below, at and above --max-fn; every vertex is '
                    'compared with its documented position; every case counts')
    exe = hob.build('plain')
    n = chk.n(4000, 80000)
    for src, opt, k, msg in hob.pmap(_one, [(exe, chk.seed * 900007 + i) for i in range(n)], chunk=20):
        chk.case((src, tuple(opt)))
        chk.stat(k)
        if msg:
            chk.violation(k, '%s %s: %s' % (src, ' '.join(opt), msg), {'model.scad': src})
    # the documented default of --max-fn is the one in effect
    h = hob.run([exe, '--help'])
    t = (h.out + h.err).decode()
    m = re.search(r'--max-fn.*?\(default:\s*(\d+)\)', t, re.S)
    chk.case('--help')
    if not m:
        chk.violation('help', '--help names no default of --max-fn:\n' + t[:3000])
    else:
        n = int(m.group(1))
        q, data = hob.hob(exe, 'cylinder(r=9,h=1);', ['--dump-csg3'])
        try:
            got = len(set(tuple(p[:2]) for p in dict(outp.scad_parse(q.out.decode())[0][2])['points']))
        except Exception as e:
            got = repr(e)
        if got != n:
            chk.violation('default', '--help: default of --max-fn is %d, but a cylinder without $fn has %s corners' % (n, got))
    chk.sample('cylinder(h=3,r1=0,d2=4,$fn=7);')
    chk.finish(chk.n(3000, 50000))


if __name__ == '__main__':
    main(run)
