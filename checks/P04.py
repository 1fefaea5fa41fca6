"""STL output: closed, outward oriented, non-overlapping slabs; binary equals ASCII."""
from common import main, hob
import big, outp, models
import numpy as np
import geom as g
import collections, re


def exact_inside(p6, t):
    """p6 (N,2): points times 6; t (T,3,2) integer triangles: number of closed triangles with the point in the interior"""
    a, b, c = (t[:, k].astype(np.int64) * 6 for k in range(3))
    x, y = p6[:, 0:1], p6[:, 1:2]

    def cr(u, v):
        return (v[:, 0] - u[:, 0]) * (y - u[:, 1]) - (v[:, 1] - u[:, 1]) * (x - u[:, 0])
    s = np.sign(cr(a, b)), np.sign(cr(b, c)), np.sign(cr(c, a))
    return ((s[0] == s[1]) & (s[1] == s[2]) & (s[0] != 0)).sum(1)


def check_slab(s, N, I, G):
    """s: dict of index arrays; N normals, I integer coordinates (x,y on the grid, z level index)"""
    for nm, sgn in (('bottom', -1), ('top', 1)):
        t = I[s[nm]][:, :, :2]
        ar = outp.tri_area2(t)
        if (ar * sgn <= 0).any():
            k = int(np.argmax(ar * sgn <= 0))
            return '%s triangle %s has doubled area %d, seen from above' % (nm, (t[k] / G).tolist(), ar[k])
        nn = N[s[nm]]
        if not (np.abs(nn - [0, 0, sgn]) < 1e-5).all():
            return '%s normal %s' % (nm, nn[np.argmax(np.abs(nn - [0, 0, sgn]).max(1))])
        # interior points of every triangle are covered exactly once
        if len(t):
            pts = np.concatenate([t[:, 0] * 2 + t[:, 1] * 2 + t[:, 2] * 2] + [t[:, i] * 4 + t[:, (i + 1) % 3] + t[:, (i + 2) % 3] for i in range(3)])
            if len(t) > 400:
                pts = pts[::len(t) // 100]
            c = np.concatenate([exact_inside(pts[i:i+200], t) for i in range(0, len(pts), 200)])
            if (c != 1).any():
                k = int(np.argmax(c != 1))
                return '%s: point %s lies in %d triangles' % (nm, (pts[k] / 6.0 / G).tolist(), c[k])
    t = I[s['side']]
    f = t[:, :, :2] / float(G)
    d1 = t[:, 1] - t[:, 0]
    d2 = t[:, 2] - t[:, 0]
    # normals of the walls: horizontal, unit length, pointing away: right of the lower edge
    nx = d1[:, 1] * d2[:, 2] - d1[:, 2] * d2[:, 1]
    ny = d1[:, 2] * d2[:, 0] - d1[:, 0] * d2[:, 2]
    ln = np.hypot(nx.astype(float), ny.astype(float))
    if (ln == 0).any():
        return 'side triangle without area: %s' % t[int(np.argmax(ln == 0))].tolist()
    nn = N[s['side']]
    err = np.abs(nn - np.stack([nx / ln, ny / ln, 0 * ln], 1)).max(1)
    if (err > 1e-4).any():
        k = int(np.argmax(err))
        return 'side triangle %s has normal %s, expected (%g,%g,0)' % (f[k].tolist(), nn[k].tolist(), nx[k] / ln[k], ny[k] / ln[k])
    # closed: every directed edge has its reverse
    cnt = collections.Counter()
    for t in (I[s['bottom']], I[s['top']], I[s['side']]):
        for i in range(3):
            for a, b in zip(t[:, i].tolist(), t[:, (i + 1) % 3].tolist()):
                cnt[(tuple(a), tuple(b))] += 1
    for (a, b), k in cnt.items():
        if a == b:
            return 'edge of no length'
        if cnt.get((b, a), 0) != k:
            return 'edge %s-%s occurs %d times, its reverse %d times' % (a, b, k, cnt.get((b, a), 0))
    # walls: two triangles per lower edge, material on its left
    return None


def _one(a):
    exe, seed = a
    m = models.source(seed)
    if m is None:
        return None
    r = m['rng']
    huge = seed % 640 == 9
    if huge:
        # more triangles than 2^16
        n = g.Block([g.cylinder(20., 5., r.choice([2., 5.]), r.randint(80, 100))])
        m = dict(m, src=n.emit(), files=None, args=[], bb=n.bbox(g.Ctx(), g.I4))
    lo, hi = m['bb']
    h = float(hi[2] - lo[2])
    step = round(max(.05, h / r.choice([2, 5, 9])), 4)
    if huge:
        step = round(h / r.randint(210, 260), 4)
    elif seed % 24 == 7 and len(m['src']) < 1500:
        # many layers
        step = round(h / big.size(r, 50, 1500), 6)
    args = m['args'] + ['--step=%r' % step]
    if r.random() < .3:
        args.append('--grid=%d' % (1 << r.choice([8, 10, 12, 14])))
    if step < .02:
        args.append('--layer-gap=%g' % (step / 3))
    elif r.random() < .2:
        args.append('--layer-gap=%s' % r.choice(['0.001', '0.02', '%g' % (step / 3)]))
    q, data = hob.hob(exe, m['src'], args, files=m['files'], out='o.stl')
    info = dict(src=m['src'], args=args, slabs=0, tris=0, kind=None, msg=None)
    ck = hob.crash_kind(q)
    if ck or q.rc != 0 or data is None:
        if q.timeout:
            info.update(kind='hang', msg='no answer')
        else:
            info.update(kind='crash-' + ck if ck else 'rejected', msg='rc=%s %s' % (q.rc, q.etext[-300:]))
        return info
    try:
        N, T = outp.stl_ascii(data)
        sl = outp.slabs(T)
    except outp.Bad as e:
        info.update(kind='malformed', msg=str(e))
        return info
    gm = re.search(r'grid=2\^(-?\d+)', q.etext)
    G = 2.0 ** int(gm.group(1)) if gm else 8192.0
    info['tris'] = len(T)
    info['slabs'] = len(sl)
    xy = T[:, :, :2] * G if len(T) else np.zeros((0, 3, 2))
    R = np.round(xy)
    if len(T) and np.abs(xy - R).max() > 1e-4:
        info.update(kind='grid', msg='coordinates off the grid 2^%s: %r' % (gm and gm.group(1), T.reshape(-1, 3)[np.argmax(np.abs(xy - R).max(2).reshape(-1))].tolist()))
        return info
    lv = np.unique(T[:, :, 2]) if len(T) else np.zeros(0)
    I = np.concatenate([R, np.searchsorted(lv, T[:, :, 2])[:, :, None]], 2).astype(np.int64) if len(T) else np.zeros((0, 3, 3), np.int64)
    zmin, zmax = I[:, :, 2].min(1), I[:, :, 2].max(1)
    pairs = sorted(set(zip(zmin[zmin != zmax].tolist(), zmax[zmin != zmax].tolist())))
    if len(pairs) > 6:
        pairs = r.sample(pairs, 6)
    for a, b in pairs:
        ix = dict(bottom=np.nonzero((zmin == a) & (zmax == a))[0], top=np.nonzero((zmin == b) & (zmax == b))[0],
                  side=np.nonzero((zmin == a) & (zmax == b))[0])
        msg = check_slab(ix, N, I, G)
        if msg:
            info.update(kind='structure', msg='slab at z=%g: %s' % (lv[a], msg))
            return info
    # the same in binary
    q2, bd = hob.hob(exe, m['src'], args, files=m['files'], out=r.choice(['o.stlb', 'o.stb']))
    try:
        Nb, Tb = outp.stl_bin(bd or b'')
    except outp.Bad as e:
        info.update(kind='binary', msg=str(e))
        return info
    if Tb.shape != T.shape or not (Tb == T.astype(np.float32)).all():
        info.update(kind='binary', msg='binary triangles differ from the ASCII ones: %d and %d' % (len(Tb), len(T)))
    elif len(T) and np.abs(Nb - N).max() > 1e-5:
        info.update(kind='binary', msg='binary normals differ')
    return info


def run():
    chk = hob.Check('P04', rule='models of all geometric generators with varied step, grid and gap; exact integer checks of every triangle '
                    'edge; a model counts when it has at least 20 triangles')
    exe = hob.build('plain')
    n = chk.n(2000, 60000)
    for x in hob.pmap(_one, [(exe, chk.seed * 1000003 + i) for i in range(n)], chunk=8):
        if x is None:
            continue
        chk.case((x['src'], tuple(x['args'])), x['tris'] >= 20)
        chk.stat('slabs', x['slabs'])
        chk.stat('triangles', x['tris'])
        if x['kind']:
            chk.violation(x['kind'], '%s\nargs: %s\n%s' % (x['msg'], ' '.join(x['args']), x['src']), {'model.scad': x['src']})
    chk.finish(chk.n(1200, 40000))


if __name__ == '__main__':
    main(run)
