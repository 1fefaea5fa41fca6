"""Run the real tool on a model and compare every produced slab with the oracle."""
import math
import numpy as np
import geom as g
import hob
import outp


def samples(node, z, M, ctx, nrng, lo, hi, nrand=120, nnear=120):
    """sample points: uniform in the bounding box and close to the primitives' boundaries"""
    P = nrng.uniform(lo[:2] - .3, hi[:2] + .3, (nrand, 2))
    s = node.segs(z, M, ctx)
    if len(s):
        k = nrng.integers(0, len(s), nnear)
        t = nrng.uniform(0, 1, nnear)[:, None]
        a, b = s[k, :2], s[k, 2:]
        p = a + t * (b - a)
        d = b - a
        nn = np.stack([-d[:, 1], d[:, 0]], 1)
        ln = np.linalg.norm(nn, axis=1)[:, None]
        nn = np.divide(nn, ln, out=np.zeros_like(nn), where=ln > 0)
        # offset off the boundary just outside of the undecided band, up to 30 bands
        off = ctx.delta * np.exp(nrng.uniform(math.log(1.5), math.log(60), nnear))[:, None] * nrng.choice([-1, 1], nnear)[:, None]
        P = np.concatenate([P, p + nn * off])
    # never exactly on a vertex or diagonal of the output
    return P + nrng.uniform(-1e-5, 1e-5, P.shape)


def compare_slab(node, slab, z, ctx, nrng, bb, M=g.I4, nrand=120, nnear=120):
    """returns (decided, inside, message|None)"""
    P = samples(node, z, M, ctx, nrng, bb[0], bb[1], nrand, nnear)
    lo, hi = node.eval(P, z, M, ctx)
    dec = lo == hi
    P, want = P[dec], lo[dec]
    n = len(P)
    if n == 0:
        return 0, 0, None
    if slab is None:
        if want.any():
            return n, int(want.sum()), 'z=%g: no material, but %s should be inside' % (z, P[np.argmax(want)])
        return n, 0, None
    for nm in ('bottom', 'top'):
        c = outp.tri_count(P, slab[nm][:, :, :2])
        bad = c != want
        if bad.any():
            i = int(np.argmax(bad))
            return n, int(want.sum()), 'z=%g: point (%.6f,%.6f) expected inside=%s, %s triangles covering it: %d (%d of %d samples differ)' % (
                z, P[i, 0], P[i, 1], bool(want[i]), nm, c[i], bad.sum(), n)
    # side walls: each wall is two triangles; its base edge lies at z0
    sd = slab['side']
    low = sd[:, :, 2] == slab['z0']
    two = low.sum(1) == 2
    if two.sum() * 2 != len(sd):
        return n, int(want.sum()), 'z=%g: side walls are not quads' % z
    q = sd[two]
    l2 = low[two]
    i0 = np.where(l2[:, 0] & l2[:, 1], 0, np.where(l2[:, 1] & l2[:, 2], 1, 2))
    r = np.arange(len(q))
    seg = np.concatenate([q[r, i0, :2], q[r, (i0 + 1) % 3, :2]], 1)
    v = g.parity(P, seg)
    bad = v != want
    if bad.any():
        i = int(np.argmax(bad))
        return n, int(want.sum()), 'z=%g: point (%.6f,%.6f) expected inside=%s, side walls say %s' % (
            z, P[i, 0], P[i, 1], bool(want[i]), bool(v[i]))
    return n, int(want.sum()), None


def run_model(exe, node, bb, ctx, seed, nlay=8, args=(), src=None, files=None, nrand=120, nnear=120, frac=None, binary=False,
              max_slabs=10, zmin=None):
    """slice a model with about nlay layers and compare.  Returns dict."""
    zlo, zhi = float(bb[0][2]), float(bb[1][2])
    h = zhi - zlo
    nrng = np.random.default_rng(seed)
    step = max(0.05, h / nlay) if frac is None else frac
    step = round(step, 6)
    # slice positions are fixed by options so that the oracle need not know the bounding box
    z0 = round(zlo - step * nrng.uniform(.1, .6), 6) if zmin is None else zmin
    z1 = round(zhi + step, 6)
    src = src if src is not None else node.emit()
    a = ['--step=%r' % step, '--min=%r' % z0, '--max=%r' % z1] + list(args)
    if ctx.max_fn != 100:
        a.append('--max-fn=%d' % ctx.max_fn)
    out = 'o.stlb' if binary else 'o.stl'
    r, data = hob.hob(exe, src, a, files=files, out=out)
    res = dict(src=src, args=a, files=files, rc=r.rc, err=r.etext[-600:], decided=0, inside=0, slabs=0, fail=None, inc=False, layers=0)
    if r.timeout:
        res['inc'] = True
        res['fail'] = ('hang', 'no answer within time limit')
        return res
    ck = hob.crash_kind(r)
    if ck:
        res['fail'] = ('crash-' + ck, 'rc=%d %s' % (r.rc, r.etext[-400:]))
        return res
    if r.rc != 0:
        res['fail'] = ('rejected', 'rc=%d %s' % (r.rc, r.etext[-400:]))
        return res
    if data is None:
        res['fail'] = ('no-output', r.etext[-400:])
        return res
    try:
        N, T = outp.stl_bin(data) if binary else outp.stl_ascii(data)
        sl = outp.slabs(T)
    except outp.Bad as e:
        res['fail'] = ('malformed', str(e))
        return res
    res['slabs'] = len(sl)
    cnt = 0
    zs = []
    while True:
        z = z0 + cnt * step
        if z > z1 + 1e-9:
            break
        zs.append(z)
        cnt += 1
    res['layers'] = len(zs)
    byz = {}
    for s in sl:
        k = int(round((s['z0'] - z0) / step))
        if not (0 <= k < len(zs)) or abs(s['z0'] - zs[k]) > 1e-6 * max(1, abs(zs[k])) + (1e-5 if binary else 0):
            res['fail'] = ('layer-z', 'slab bottom at %r is no slice position' % s['z0'])
            return res
        byz[k] = s
    idx = list(range(len(zs)))
    if len(idx) > max_slabs:
        idx = sorted(nrng.choice(len(zs), max_slabs, replace=False).tolist())
    for k in idx:
        n, ins, msg = compare_slab(node, byz.get(k), zs[k], ctx, nrng, bb, nrand=nrand, nnear=nnear)
        res['decided'] += n
        res['inside'] += ins
        if msg:
            res['fail'] = ('membership', msg)
            return res
    return res


def shrink(node, fails, budget=200):
    """greedy structural reduction of a failing model: drop children, hoist children"""
    import copy
    cnt = [0]

    def variants(n):
        kids = getattr(n, 'kids', None)
        if not kids:
            return
        for i, k in enumerate(kids):
            if len(kids) > 1:
                m = copy.copy(n)
                m.kids = kids[:i] + kids[i+1:]
                yield m
            if k.dim == n.dim and not isinstance(n, g.Block):
                yield k
            for v in variants(k):
                m = copy.copy(n)
                m.kids = kids[:i] + [v] + kids[i+1:]
                yield m
    progress = True
    while progress and cnt[0] < budget:
        progress = False
        for v in variants(node):
            cnt[0] += 1
            if cnt[0] > budget:
                break
            try:
                if fails(v):
                    node = v
                    progress = True
                    break
            except Exception:
                continue
    return node


def outline(T):
    """boundary segments (S,4) of a set of 2D triangles: edges that are in one triangle only"""
    c = {}
    for t in np.round(T, 9).tolist():
        for k in range(3):
            a, b = tuple(t[k]), tuple(t[(k + 1) % 3])
            e = (a, b) if a < b else (b, a)
            c[e] = c.get(e, 0) + 1
    r = [e[0] + e[1] for e, n in c.items() if n % 2]
    return np.array(r).reshape(-1, 4)


def same_region(A, B, seed, n=300, thr=1e-3):
    """compare the regions covered by two sets of 2D triangles; None or a message"""
    if len(A) == 0 and len(B) == 0:
        return None
    nrng = np.random.default_rng(int(seed * 1e9))
    V = np.concatenate([A.reshape(-1, 2), B.reshape(-1, 2)])
    lo, hi = V.min(0), V.max(0)
    S = np.concatenate([outline(A), outline(B)])
    P = nrng.uniform(lo - .2, hi + .2, (n, 2))
    if len(S):
        k = nrng.integers(0, len(S), n)
        t = nrng.uniform(0, 1, n)[:, None]
        a, b = S[k, :2], S[k, 2:]
        P = np.concatenate([P, a + t * (b - a) + nrng.normal(0, thr * 3, (n, 2))])
        P = P[~g.near(P, S, thr)]
    x, y = outp.tri_count(P, A), outp.tri_count(P, B)
    bad = x != y
    if bad.any():
        i = int(np.argmax(bad))
        return 'point (%.6f,%.6f) is covered %d vs %d times (%d of %d points differ)' % (P[i, 0], P[i, 1], x[i], y[i], bad.sum(), len(P))
    aa, ab = np.abs(outp.tri_area2(A)).sum() / 2, np.abs(outp.tri_area2(B)).sum() / 2
    per = np.hypot(*(S[:, 2:] - S[:, :2]).T).sum() if len(S) else 0
    if abs(aa - ab) > thr * (per + 1):
        return 'areas differ: %.6f vs %.6f' % (aa, ab)
    return None


def same_layers(A, B, r, thr=2e-3, n=100):
    """compare the slabs of two models; layers that are empty by a hair do not count"""
    if [round(s['z0'], 5) for s in A] != [round(s['z0'], 5) for s in B]:
        za, zb = {round(s['z0'], 5): s for s in A}, {round(s['z0'], 5): s for s in B}
        for z in set(za) ^ set(zb):
            s = za.get(z) or zb.get(z)
            t = s['bottom'][:, :, :2]
            if np.abs(outp.tri_area2(t)).sum() / 2 > thr * np.hypot(*(np.ptp(t.reshape(-1, 2), 0))):
                return 'layers at %r vs %r' % (sorted(za), sorted(zb))
        A = [s for s in A if round(s['z0'], 5) in zb]
        B = [s for s in B if round(s['z0'], 5) in za]
    for s, t in zip(A, B):
        e = same_region(s['bottom'][:, :, :2], t['bottom'][:, :, :2], r.random(), n=n, thr=thr)
        if e:
            return 'z=%r: %s' % (s['z0'], e)
    return None
