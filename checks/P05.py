"""The layer stack follows --min, --max, --step, -z and --layer-gap."""
from common import main, hob
import outp, gen, models, modelcmp, big
import geom as g
import bisect, math, random, re
import numpy as np


def leaf(G, r):
    k = r.randrange(4)
    if k == 0:
        n = g.cube([G.pos(1, 8), G.pos(1, 8), G.pos(1, 8)], r.random() < .5)
    elif k == 1:
        n = g.cylinder(G.pos(1, 8), G.pos(1, 5), G.pos(1, 5), G.fn(), r.random() < .5)
    elif k == 2:
        n = g.sphere(G.pos(1, 5), G.fn())
    else:
        n = G.polyhedron()
    if r.random() < .1:
        n = g.RoundSphere(G.pos(1, 5))
    if r.random() < .5:
        n = G.xf([n])
    return n


def layers(fmt, data):
    """(z0, z1) of every layer with material"""
    if fmt in ('stl', 'stlb'):
        N, T = outp.stl_bin(data) if fmt == 'stlb' else outp.stl_ascii(data)
        return [(s['z0'], s['z1']) for s in outp.slabs(T)]
    if fmt == 'scad':
        return [(l['z'], l['z'] + l['h']) for l in outp.scad_layers(data.decode()) if l['polys']]
    zs, gr = set(), 0
    for v, i, gr in outp.js_groups(data.decode()):
        zs.update(np.round(v[:, 2], 9).tolist())
    return sorted(zs), gr


def near(s, x):
    """distance to the closest element of a sorted list"""
    i = bisect.bisect(s, x)
    return min([abs(y - x) for y in s[max(0, i - 1):i + 1]], default=math.inf)


def _one(a):
    exe, seed = a
    r = random.Random(seed)
    G = gen.Gen(r)
    large = seed % 32 == 7
    kids = [leaf(G, r) for _ in range(r.choice([1, 1, 2, 3]))]
    if large:
        # many layers
        kids = [r.choice([lambda: g.cube([G.pos(1, 8), G.pos(1, 8), G.pos(1, 8)]), lambda: g.cylinder(G.pos(1, 8), 3., G.pos(1, 3), r.randint(3, 6))])()]
    n = g.Block(kids) if r.random() < .6 else g.Block([g.union(*kids)])
    if r.random() < .3:
        # what is subtracted does not count for the bounding box
        n = g.Block([g.difference(*(kids[:1] + [g.cylinder(200., .05, .05, 5, True)]))])
        kids = kids[:1]
    bs = [k.bbox(g.Ctx(), g.I4) for k in kids]
    if len(kids) == 1 and not large and r.random() < .35:
        # an intersection ends where the first of its children ends
        a, b = float(bs[0][0][2]), float(bs[0][1][2])
        kk = [kids[0]]
        for _ in range(r.choice([1, 2, 2])):
            za, zb = G.f(a - 3, b + 3), G.f(a - 3, b + 3)
            if zb < za:
                za, zb = zb, za
            if zb - za > 1 and min(b, zb) - max(a, za) > .4:
                a, b = max(a, za), min(b, zb)
                kk.append(g.translate([-100., -100., za], g.cube([200., 200., zb - za])))
        r.shuffle(kk)
        n = g.Block([g.intersection(*kk)])
        bs[0] = (np.array([0., 0., a]), np.array([0., 0., b]))
    if r.random() < .15:
        # what is certainly empty does not count
        n.kids.append(g.intersection(g.cube([3., 3., 3.]), g.translate([G.f(4, 300), 0., -50.], g.cube([9., 9., 900.]))))
        r.shuffle(n.kids)
    lo, hi = min(float(b[0][2]) for b in bs), max(float(b[1][2]) for b in bs)
    h = hi - lo
    args = []
    step = .2
    if r.random() < .85:
        step = r.choice([round(h / r.uniform(1.2, 30), 4), .1, .25, .5, 1., .3])
        step = max(step, .02)
        if step > 1.9 * h:
            step = round(h / 2, 4)
        args += r.choice([['--step=%r' % step], ['--step', '%r' % step], ['-step=%r' % step]])
    if large:
        nl = big.size(r, 100, 5000)
        step = round(h / nl, 6)
        args = ['--step=%r' % step]
    elif h / step > 400:
        step = round(h / 50, 3)
        args = ['--step=%r' % step]
    zmin, zmax = lo + step / 2, hi
    k = r.randrange(6 if not large else 4)
    if k == 1:
        zmin = round(r.uniform(lo - h, hi - h * .1), 3)
        args += ['--min=%r' % zmin]
    elif k == 2:
        zmax = round(r.uniform(lo + step, hi + h), 3)
        args += ['--max=%r' % zmax]
    elif k == 3:
        zmin = round(r.uniform(lo - h, hi), 3)
        zmax = zmin + round(r.uniform(step * .3, 2 * h), 3)
        args += ['--max=%r' % zmax, '--min=%r' % zmin]
    elif k == 4:
        zmin = zmax = round(r.uniform(lo, hi), 3)
        args += ['-z=%r' % zmin]
    elif k == 5:
        # exact multiples: max itself is not sliced
        step = r.choice([.25, .5, 1., .125])
        zmin = math.floor(r.uniform(lo - 1, hi - .3) / step) * step
        zmax = zmin + step * r.randint(1, 40)
        args = ['--step=%r' % step, '--min=%r' % zmin, '--max=%r' % zmax]
    fmt = r.choice(['stl', 'stl', 'stlb', 'scad', 'js'])
    gap = .01 if fmt in ('stl', 'stlb') else 0.
    if large and (gap > step * .5 or r.random() < .3):
        gap = round(step / r.choice([3, 5, 10]), 6)
        args += ['--layer-gap=%r' % gap]
    elif r.random() < .3:
        gap = r.choice([0.001, .015, round(step / 2, 5), .02])
        args += ['--layer-gap=%r' % gap]
    elif r.random() < .1:
        args += ['--layer-gap=-1']
    r.shuffle(args) if not any(x == '--step' for x in args) else None
    info = dict(src=n.emit(), args=args + [fmt], kind=None, msg=None, nl=0)
    if not (gap < step * .9) or zmin > zmax or step / 2 > h * .98:
        return None
    q = (zmax - zmin) / step
    if zmin == zmax:
        cnt = 1
    elif k == 5:
        cnt = round(q)
    else:
        if abs(q - round(q)) < 1e-4:
            return None         # too close to tell
        cnt = math.ceil(q)
    want = [zmin + i * step for i in range(cnt)]
    qq, data = hob.hob(exe, n.emit(), args, out='o.' + fmt)
    ck = hob.crash_kind(qq)
    if ck or qq.rc != 0 or data is None:
        info.update(kind='crash-' + ck if ck else 'rejected', msg='rc=%s %s' % (qq.rc, qq.etext[-300:]))
        return info
    t = re.search(r'Info: Z: min=(\S+), step=(\S+), layer_cnt=(\d+), max=(\S+?),', qq.etext)
    if t:
        # the messages have few digits
        v = (zmin, step, cnt, zmin + step * (cnt - 1))
        if int(t.group(3)) != cnt or any(abs(float(t.group(i + 1)) - v[i]) > 1e-4 * max(1, abs(v[i])) for i in (0, 1, 3)):
            info.update(kind='info', msg='expected min, step, layer_cnt, max %r, reported: %s' % (v, t.group(0)))
            return info
        info['info'] = 1
    try:
        got = layers(fmt, data)
    except (outp.Bad, ValueError, KeyError) as e:
        info.update(kind='malformed', msg=repr(e))
        return info
    info['nl'] = len(got[0]) if fmt == 'js' else len(got)
    # layers that certainly have material
    P = {}
    ctx = g.Ctx()
    sure = []
    for z in want:
        s = any((lambda b: b[0][2] + .02 < z < b[1][2] - .02)(b) for b in bs)
        sure.append(s)
    tol = lambda z: (2e-6 if fmt == 'stlb' else 1e-8) * max(1, abs(z)) + 1e-9
    if fmt == 'js':
        lv, gr = got
        eps = .51 * gr
        sx, lv = sorted(w for z in want for w in (z, z + step - gap)), sorted(lv)
        for z in lv:
            if near(sx, z) > eps + 1e-9 * abs(z):
                info.update(kind='height', msg='level %r belongs to no expected layer' % z)
                return info
        for z, s in zip(want, sure):
            if s:
                for w in (z, z + step - gap):
                    if near(lv, w) > eps + 1e-9 * abs(w):
                        info.update(kind='missing', msg='layer at %r: no vertices at %r' % (z, w))
                        return info
        return info
    for a, b in got:
        j = min(max(0, round((a - zmin) / step)), cnt - 1)
        if abs(want[j] - a) > tol(a):
            info.update(kind='height', msg='layer at %r is no expected height (nearest %r)' % (a, want[j]))
            return info
        if abs((b - a) - (step - gap)) > 4 * tol(max(abs(a), abs(b))):
            info.update(kind='thickness', msg='layer at %r has thickness %r, expected %r' % (a, b - a, step - gap))
            return info
    ga = sorted(a for a, b in got)
    for z, s in zip(want, sure):
        if s and near(ga, z) > tol(z):
            info.update(kind='missing', msg='no layer at %r' % z)
            return info
    return info


def _alone(a):
    """a layer cut alone equals the same layer within a range"""
    exe, seed = a
    m = models.source(seed)
    if m is None:
        return None
    r = m['rng']
    lo, hi = float(m['bb'][0][2]), float(m['bb'][1][2])
    step = round(max(.05, (hi - lo) / r.choice([3, 6, 11])), 3)
    zmin = round(lo - r.uniform(0, step), 3)
    src = m['src']
    info = dict(src=src, args=m['args'] + ['--step=%r' % step, '--min=%r' % zmin], kind=None, msg=None, nl=0)
    q, data = hob.hob(exe, src, info['args'], files=m['files'], out='o.stl')
    if q.rc != 0 or data is None:
        info.update(kind='rejected', msg='rc=%s %s' % (q.rc, q.etext[-300:]))
        return info
    sl = outp.slabs(outp.stl_ascii(data)[1])
    if not sl:
        return info
    for s in r.sample(sl, min(2, len(sl))):
        z = s['z0']
        q, data = hob.hob(exe, src, m['args'] + ['--step=%r' % step, '-z=%r' % z], files=m['files'], out='o.stl')
        if q.rc != 0 or data is None:
            info.update(kind='rejected', msg='-z=%r rc=%s %s' % (z, q.rc, q.etext[-300:]))
            return info
        s2 = outp.slabs(outp.stl_ascii(data)[1])
        info['nl'] += 1
        if len(s2) != 1 or abs(s2[0]['z0'] - z) > 1e-9 * max(1, abs(z)):
            info.update(kind='alone', msg='-z=%r gives layers at %r' % (z, [x['z0'] for x in s2]))
            return info
        msg = modelcmp.same_region(s['bottom'][:, :, :2], s2[0]['bottom'][:, :, :2], r.random())
        if msg:
            info.update(kind='alone', msg='-z=%r: %s' % (z, msg))
            return info
    return info


def run():
    chk = hob.Check('P05', rule='models with known extent (one in 32 with up to 5000 layers), all combinations of --min, --max, --step, -z and --layer-gap in four output formats; '
                    'layers cut alone are compared with layers of a range; counts when at least one layer was compared')
    exe = hob.build('plain')
    for fn, n, lab in ((_one, chk.n(3000, 60000), 'stack'), (_alone, chk.n(600, 15000), 'alone')):
        for x in hob.pmap(fn, [(exe, chk.seed * 1000033 + i) for i in range(n)], chunk=10):
            if x is None:
                continue
            chk.case((lab, x['src'], tuple(x['args'])), x['nl'] > 0)
            chk.stat(lab)
            chk.stat('info_lines', x.get('info', 0))
            chk.stat('layers', x['nl'])
            if x['kind']:
                chk.violation(x['kind'], '%s\nargs: %s\n%s' % (x['msg'], ' '.join(x['args']), x['src']), {'model.scad': x['src']})
    chk.assumptions += ['stacks whose end falls on a slice height by accident are not judged', 'models thinner than half a step are not judged']
    chk.finish(chk.n(2000, 40000))


if __name__ == '__main__':
    main(run)
