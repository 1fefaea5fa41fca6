"""The grid follows --grid, --gran, --auto-grid and the size of the model; models are right at any scale."""
from common import main, hob
import math, random, re
import geom as g, outp, models, modelcmp
import numpy as np


def options(r):
    """arguments, G (0: as fine as possible), mode"""
    G, a = 8192.0, []
    k = r.random()
    if k < .2:
        pass
    elif k < .55:
        e = r.choice([4, 6, 8, 10, 12, 14, 16, 18, 20, 24])
        G = 2.0 ** e
        a = [r.choice(['--grid=2^%d' % e, '--grid=%d' % G, '--gran=2^-%d' % e, '--gran=1/%d' % G, '--grid=0x1p%d' % e, '--gran=0x1p-%d' % e])]
    elif k < .75:
        G = float(r.choice([10, 100, 1000, 1024, 5000, 10000, 100000, 3, 7]))
        a = ['--grid=%d' % G] if r.random() < .6 else ['--gran=1/%d' % G]
    else:
        G = 0.0
        a = ['--grid=0']
    k = r.random()
    mode = 'float'
    if k < .25:
        a.append('--auto-grid')
    elif k < .5:
        a.append('--auto-grid-max')
        mode = 'int'
    elif k < .7 and G:
        a.append('--no-auto-grid')
        mode = 'none'
    r.shuffle(a)
    return a, G, mode


def effective(G, mode, A):
    """the grid in use for coordinates up to A"""
    if mode == 'none':
        return G
    best = (24 if mode == 'float' else 30) - math.frexp(A)[1]
    if G == 0 or math.frexp(G)[1] - 1 > best:
        return 2.0 ** best
    return G


def ring(r, n, rad):
    """random star-shaped polygon with clear corners"""
    o = []
    for i in range(n):
        t = 2 * math.pi * (i + r.uniform(-.25, .25)) / n
        q = rad * r.uniform(.6, 1)
        o.append((q * math.cos(t), q * math.sin(t)))
    return o


def _grid(job):
    exe, seed = job
    r = random.Random(seed)
    a, G, mode = options(r)
    A = 10 ** r.uniform(.3, 5.5)
    if mode == 'none':
        A = min(A, 2.0 ** 28 / G)
    n = r.randint(1, 4)
    src, want, tol = [], [], []
    far = 0.0
    cells = r.sample([(i, j) for i in range(3) for j in range(3)], n)
    c = A / 3
    G0 = G or 8192.0
    f = lambda v: '%.10g' % v
    h = A * .3
    sx, sy = r.choice([(0, 0), (A * .3, -A * .2), (A * 3, 0)])
    for i, j in cells:
        x, y = -A / 2 + c * (i + .5), -A / 2 + c * (j + .5)
        x, y = x + sx, y + sy
        k = r.randrange(4)
        t = 0.0
        if k == 0:
            w, d = c * r.uniform(.2, .8), c * r.uniform(.2, .8)
            x, y = float(f(x - c * .4)), float(f(y - c * .4))
            src.append('translate([%s,%s,0]) cube([%s,%s,%s]);' % (f(x), f(y), f(w), f(d), f(h)))
            P = [(x, y), (x + w, y), (x + w, y + d), (x, y + d)]
        elif k == 1:
            m, q = r.randint(3, 9), c * r.uniform(.2, .45)
            src.append('translate([%s,%s,0]) cylinder(h=%s,r=%s,$fn=%d);' % (f(x), f(y), f(h), f(q), m))
            P = [(x + q * math.cos(2 * math.pi * u / m), y + q * math.sin(2 * math.pi * u / m)) for u in range(m)]
        else:
            P = [(x + u, y + v) for u, v in ring(r, r.randint(3, 9), c * .45)]
            m = len(P)
            if k == 2 and A * G0 < 2 ** 28 and G0 * c > 500:
                src.append('linear_extrude(%s) polygon([%s]);' % (f(h), ','.join('[%s,%s]' % (f(u), f(v)) for u, v in P)))
                t = 1.0 / G0
            else:
                src.append('polyhedron([%s],[%s]);' % (','.join('[%s,%s,%s]' % (f(u), f(v), z) for z in ('0', f(h)) for u, v in P),
                           ','.join(['[%s]' % ','.join(map(str, range(m))), '[%s]' % ','.join(map(str, reversed(range(m, 2 * m))))] +
                                    ['[%d,%d,%d,%d]' % (u + m, (u + 1) % m + m, (u + 1) % m, u) for u in range(m)])))
        for u, v in P:
            far = max(far, abs(u), abs(v))
            want.append((u, v))
            tol.append(t)
    src = '\n'.join(src) + '\n'
    top = max(far, h) if mode == 'int' else far
    eff = effective(G, mode, top)
    if n == 1 and r.random() < .6 and (mode == 'int' or A * 9 * eff < 2 ** 29):     # what is taken away does not count
        src = 'difference() {\n%stranslate([0,0,%s]) cube([%s,%s,%s]);\n}\n' % (src, f(h * .8), f(A * 9), f(A * 9), f(A))
        if mode == 'int':     # everything must fit
            top = max(top, A * 9)
            eff = effective(G, mode, top)
    m, e = math.frexp(top)
    if abs(m - .5) < 1e-9 or abs(m - 1) < 1e-9:
        return None     # at the border of two grids
    if c * eff < 300:
        return None     # too coarse to tell corners apart
    z = round(h / 2, 3)
    binary = r.random() < .4
    q, data = hob.hob(exe, src, a + ['-z', repr(z)], out='o.stlb' if binary else 'o.stl')
    info = dict(src=src, args=a, eff=eff, mode=mode, A=A, n=len(want), bad=None)

    def bad(kind, text):
        info['bad'] = (kind, '%s\nargs %s, largest coordinate %.17g, expected grid %.17g\n%s' % (text, a, top, eff, src))
        return info
    if q.rc != 0 or data is None:
        return bad('rejected', 'status %s: %s' % (q.rc, q.etext[-300:]))
    m = re.search(r'grid=(\S+)', q.etext)
    if not m:
        return bad('info', 'no grid is reported: %s' % q.etext)
    v = m.group(1)
    v = 2.0 ** int(v[2:]) if v.startswith('2^') else float(v)
    if abs(v - eff) > eff * 1e-6:
        return bad('info', 'reported grid %s' % m.group(1))
    T = (outp.stl_bin(data) if binary else outp.stl_ascii(data))[1]
    V = np.unique(np.asarray(T).reshape(-1, 3)[:, :2], axis=0)
    if binary and mode != 'float':
        slack = np.abs(V) * 2.0 ** -23
    else:
        slack = np.abs(V) * (2.0 ** -23 if binary and G not in (0.0, 2.0 ** (math.frexp(G)[1] - 1)) else 2e-15)
    off = np.abs(V * eff - np.rint(V * eff)) / eff
    if (off > slack + 1e-12 / eff).any():
        i = int(np.argmax(off - slack))
        return bad('off-grid', 'vertex %r is not on the grid' % (V[i].tolist(),))
    W = np.array(want)
    t = np.array(tol) + 1.01 / eff + 1e-9 * A
    if binary:
        t = t + far * 2.0 ** -23
    D = np.abs(V[:, None, :] - W[None]).max(2)
    if (D.min(0) > t).any():
        i = int(np.argmax(D.min(0) - t))
        return bad('inexact', 'corner %r is %.3g off, tolerance %.3g' % (want[i], D.min(0)[i], t[i]))
    if (D.min(1) > t.max()).any():
        i = int(np.argmax(D.min(1)))
        return bad('extra', 'vertex %r is no corner' % (V[i].tolist(),))
    if len(V) >= 6 and (np.abs(V * eff / 2 - np.rint(V * eff / 2)) < 1e-3).all() and not (G0 < eff and max(tol) > 0) and not binary:
        # 12 and more random numbers: all even
        info['even'] = 1
    return info


def _scaled(job):
    exe, seed = job
    r = random.Random(seed)
    name = r.choice(['P03', 'P03', 'P08', 'P06', 'P10', 'P11', 'P12', 'P13'])
    m = models.source(seed, [name])
    if m is None or m['files']:
        return None
    node, ctx = m['node'], m['ctx']
    if node.dim != 3 or m['src'] != node.emit():
        return None
    K = r.choice([.1, .3, 7, 30, 100, 1000, 1e4, 33333.25, 1e5])
    a, G, mode = options(r)
    n = g.scale([K, K, K], *(node.kids if isinstance(node, g.Block) else [node]))
    c0 = g.Ctx(ctx.delta, ctx.zdelta, ctx.max_fn)
    bb = n.bbox(c0, g.I4)
    A = float(np.abs(np.array(bb)[:, :2]).max())
    H = float(np.abs(np.array(bb)[:, 2]).max())
    if not A > 0:
        return None
    eff = effective(G, mode, A * 1.001)
    if max(A, H) * (G if mode == 'none' else eff if G == 0 else min(G, 64 * eff)) > 2 ** 29:
        return None
    pure = name in ('P03', 'P08') and 'extrude' not in m['src'] and 'projection' not in m['src']
    g0 = G or 8192.0
    if not pure and g0 < 1000:
        return None
    d = max(2e-3 if K >= 1 else 4e-4, 16 / eff)
    if not pure:
        d = max(d, K * 2e-3 * max(1, 8192 / g0))
    if d > .1 * K or d > .03 * A:
        return None
    ctx = g.Ctx(d, max(ctx.zdelta, 1.5 / eff, 1e-4), ctx.max_fn)
    frac = max(1e-2, float(bb[1][2] - bb[0][2]) / 5)
    res = modelcmp.run_model(exe, n, bb, ctx, seed, args=a + list(m['args'] if ctx.max_fn == 100 else [x for x in m['args'] if 'max-fn' not in x]), frac=frac, nrand=150, nnear=150, max_slabs=5)
    res['scale'] = K
    res['gridargs'] = a
    if 'numeric overflow' in res['err'] and not (mode == 'int' and pure):
        res['overflow'] = 1
        res['fail'] = None
    return res


def _bad(exe):
    """grids that cannot be"""
    o = []
    for a in (['--grid=-1'], ['--grid=-8192'], ['--gran=-2^-13'], ['--grid=0', '--no-auto-grid'], ['--no-auto-grid', '--grid=0'], ['--grid=nan'], ['--gran=inf'], ['--grid='], ['--grid=x']):
        q, d = hob.hob(exe, 'cube(3);', a, out='o.stl')
        o.append((a, q.rc == 1 and b'rror' in q.err, q.rc))
    return o


def run():
    c = hob.Check('P35', rule='prisms with irregular corners under random grid options: every output vertex lies on the expected grid next to an exact corner; random models scaled by 0.1 to 100000 against '
                  'the point-membership oracle; a case counts if it has output')
    exe = hob.build('plain')
    n = c.n(1200, 60000)
    even = 0
    for x in hob.pmap(_grid, [(exe, c.seed * 1000003 + i) for i in range(n)], chunk=8):
        if x is None:
            continue
        c.case((x['src'], x['args']), x['n'] > 0)
        c.stat('grid_' + x['mode'])
        c.stat('corners', x['n'])
        even += x.get('even', 0)
        if x['bad']:
            c.violation(x['bad'][0], x['bad'][1], {'m.scad': x['src']})
        elif len(c.samples) < 2:
            c.sample(dict(args=x['args'], grid=x['eff'], source=x['src'][:300]))
    c.stat('even', even)
    if even > 8:
        c.violation('coarse', '%d outputs have only even multiples of the grid' % even, {})
    k = c.n(800, 30000)
    for x in hob.pmap(_scaled, [(exe, c.seed * 1000003 + i) for i in range(k)], chunk=8):
        if x is None:
            continue
        c.case((x['src'], tuple(x['args'])), x['inside'] > 0)
        c.stat('scaled')
        c.stat('points', x['decided'])
        c.stat('inside', x['inside'])
        c.stat('overflow', x.get('overflow', 0))
        if x['fail']:
            c.violation('scaled-' + x['fail'][0], '%s\nargs %s' % (x['fail'][1], x['args']), {'m.scad': x['src']})
    for a, ok, rc in _bad(exe):
        c.case(a)
        if not ok:
            c.violation('accepted', '%s: status %s' % (a, rc), {'m.scad': 'cube(3);'})
    c.assumptions += ['grids are judged where shapes are large compared to a grid cell', '2D objects are combined on the grid of the option before the size of the model is known',
                      'numeric overflow for objects beyond the grid is a diagnosed limit']
    c.finish(c.n(500, 20000))


if __name__ == '__main__':
    main(run)
