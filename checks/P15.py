"""All output formats describe the same layers; suffixes and --dump options select the format."""
from common import main, hob
import big, outp, gen, models, modelcmp
import geom as g
import random, re
import numpy as np

E = np.zeros((0, 3, 2))


def js_layers(text, heights, thick):
    """per height: dict(bottom, top, side) of 2D triangles / base segments; exact heights come from the STL"""
    P, T, N = [], [], []
    ps = outp.js_pushes(text)
    gr = 0
    lev = {}
    for p in ps:
        gr = p['grid']
        v, n = p['vertex'][p['index']], p['normal'][p['index']] / p['scaleV']
        z = v[:, :, 2]
        if (np.abs(np.linalg.norm(n, axis=2) - 1) > 1e-3).any():
            raise outp.Bad('JS: normal is not of unit length')
        if (n[:, 0] != n[:, 1]).any() or (n[:, 0] != n[:, 2]).any():
            raise outp.Bad('JS: normals within a triangle differ')
        n = n[:, 0]
        up, dn, sd = n[:, 2] > .5, n[:, 2] < -.5, np.abs(n[:, 2]) < 1e-6
        if not (up | dn | sd).all():
            raise outp.Bad('JS: slanted normal')
        for sel, nm in ((up, 'top'), (dn, 'bottom')):
            if (z[sel].max(1) != z[sel].min(1)).any():
                raise outp.Bad('JS: face not horizontal')
            for zz in np.unique(z[sel]):
                lev.setdefault((nm, float(zz)), []).append(v[sel & (z[:, 0] == zz)][:, :, :2])
        s = v[sd]
        for t, nn in zip(s, n[sd]):
            lo, hi = t[:, 2].min(), t[:, 2].max()
            lev.setdefault(('side', float(lo)), []).append((t, nn, hi))
    out = []
    for zz in heights:
        d = {}
        for nm, w in (('bottom', zz), ('top', zz + thick), ('side', zz)):
            k = [x for x in lev if x[0] == nm and abs(x[1] - w) <= .51 * gr + 1e-9 * abs(w)]
            l = [y for x in k for y in lev.pop(x)]
            d[nm] = l if nm == 'side' else (np.concatenate(l) if l else E)
        out.append(d)
    if lev:
        raise outp.Bad('JS: geometry at unexpected height %r' % (sorted(lev)[0],))
    return out, gr


def sides_region(sides, gr, hi):
    """segments (S,4) of the walls; checks that each is a rectangle"""
    seg = []
    for t, nn, h in sides:
        if abs(h - hi) > .51 * gr + 1e-9 * abs(hi):
            raise outp.Bad('JS: wall reaches %r instead of %r' % (h, hi))
        lo = t[:, 2].min()
        b = [p for p in t if p[2] == lo]
        if len(b) == 2:
            seg.append([b[0][0], b[0][1], b[1][0], b[1][1]])
            d = b[1][:2] - b[0][:2]
        e1, e2 = t[1] - t[0], t[2] - t[0]
        c = np.cross(e1, e2)
        if np.dot(c, nn) <= 0:
            raise outp.Bad('JS: normal %s against the winding of wall %s' % (nn, t.tolist()))
    return np.array(seg).reshape(-1, 4)


def _one(a):
    exe, seed = a
    m = models.source(seed)
    if m is None:
        return None
    r = m['rng']
    lo, hi = float(m['bb'][0][2]), float(m['bb'][1][2])
    step = round(max(.05, (hi - lo) / r.choice([2, 4, 7])), 4)
    gap = r.choice([None, None, .01, .02, 0.005])
    if seed % 32 == 7 and len(m['src']) < 1000:
        # many layers
        step = round((hi - lo) / big.size(r, 50, 900), 6)
        gap = round(step / 3, 6)
    args = m['args'] + ['--step=%r' % step, '--min=%r' % round(lo - step * r.uniform(.1, .9), 4)]
    if gap is not None:
        args.append('--layer-gap=%r' % gap)
    src = m['src']
    info = dict(src=src, args=args, kind=None, msg=None, nl=0)

    def bad(kind, msg):
        info.update(kind=kind, msg=msg)
        return info

    def get(x, name):
        q, data = hob.hob(exe, src, args + x, files=m['files'], out=name)
        if q.rc != 0 or data is None:
            raise outp.Bad('rc=%s %s' % (q.rc, q.etext[-300:]))
        return data
    try:
        A = outp.slabs(outp.stl_ascii(get([], 'o.stl'))[1])
        B = outp.slabs(outp.stl_bin(get(r.choice([[], ['--stl-txt']]), r.choice(['o.stlb', 'o.stb'])))[1])
        dump = get(['--no-tri'] if r.random() < .5 else [], r.choice(['o.scad', 'o.csg'])).decode()
        S = [l for l in outp.scad_layers(dump) if l['polys']]
        nd = get(['--no-diff'], 'o.js').decode()
        hs = [s['z0'] for s in A]
        thick = step - (gap or 0)
        J, gr = js_layers(nd, hs, thick)
        D, gr = js_layers(get([], 'o.js').decode(), hs, thick)
    except (outp.Bad, KeyError, ValueError, TypeError) as e:
        return bad('malformed', repr(e))
    if len(B) != len(hs) or any(abs(s['z0'] - h) > 2e-7 * max(1, abs(h)) for s, h in zip(B, hs)):
        return bad('binary', 'layers at %r instead of %r' % ([s['z0'] for s in B], hs))
    if len(S) != len(hs) or any(abs(l['z'] - h) > 1e-9 * max(1, abs(h)) or abs(l['h'] - thick) > 1e-8 for l, h in zip(S, hs)):
        return bad('scad', 'layers at %r instead of %r' % ([(l['z'], l['h']) for l in S], hs))
    nrng = np.random.default_rng(seed)
    for i in range(len(A)) if len(A) < 30 else sorted(r.sample(range(len(A)), 30)):
        s = A[i]
        z = s['z0']
        bot = s['bottom'][:, :, :2]
        info['nl'] += 1
        e = modelcmp.same_region(bot, B[i]['bottom'][:, :, :2], r.random(), n=60)
        if e:
            return bad('binary', 'z=%r: %s' % (z, e))
        # points off the outline
        out = modelcmp.outline(bot)
        bb = bot.reshape(-1, 2)
        P = nrng.uniform(bb.min(0) - .2, bb.max(0) + .2, (100, 2))
        k = nrng.integers(0, len(out), 100)
        t = nrng.uniform(0, 1, 100)[:, None]
        P = np.concatenate([P, out[k, :2] + t * (out[k, 2:] - out[k, :2]) + nrng.normal(0, 3e-3, (100, 2))])
        P = P[~g.near(P, out, 5e-4)]
        want = outp.tri_count(P, bot)
        # polygons of the SCAD dump, even-odd
        seg = []
        for p in S[i]['polys']:
            if 'other' in p:
                return bad('scad', 'z=%r: unexpected %r' % (z, p))
            pts, paths = p['points'], p['paths'] or [list(range(len(p['points'])))]
            for pa in paths:
                for u, v in zip(pa, pa[1:] + pa[:1]):
                    seg.append(pts[int(u)] + pts[int(v)])
        got = g.parity(P, np.array(seg).reshape(-1, 4))
        if (got != want).any():
            j = int(np.argmax(got != want))
            return bad('scad', 'z=%r: point %s: SCAD dump says %s, STL %s' % (z, P[j].tolist(), bool(got[j]), want[j]))
        for nm in ('bottom', 'top'):
            got = outp.tri_count(P, J[i][nm])
            if (got != want).any():
                j = int(np.argmax(got != want))
                return bad('js', 'z=%r: point %s: %s of JS covers it %d times, STL %d' % (z, P[j].tolist(), nm, got[j], want[j]))
        # what a neighbour layer hides may be left out (--no-diff), nothing else may
        for nm, k in (('bottom', i - 1), ('top', i + 1)):
            hid = np.zeros(len(P), int)
            if 0 <= k < len(A) and abs(abs(A[k]['z0'] - z) - step) < 1e-6:
                Q = A[k]['bottom'][:, :, :2]
                hid = outp.tri_count(P, Q)
                nr = g.near(P, modelcmp.outline(Q), 5e-4)
            else:
                nr = np.zeros(len(P), bool)
            got = outp.tri_count(P, D[i][nm])
            w = want * (1 - hid)
            b = (got != w) & (got != want) & ~nr
            if b.any():
                j = int(np.argmax(b))
                return bad('js-diff', 'z=%r: point %s: %s of JS covers it %d times, expected %d' % (z, P[j].tolist(), nm, got[j], w[j]))
        for X in (J, D):
            try:
                sg = sides_region(X[i]['side'], gr, z + thick)
            except outp.Bad as e:
                return bad('js', 'z=%r: %s' % (z, e))
            got = g.parity(P, sg)
            if (got != want).any():
                j = int(np.argmax(got != want))
                return bad('js', 'z=%r: point %s: walls of JS say %s, STL %s' % (z, P[j].tolist(), bool(got[j]), want[j]))
    return info


def _huge(a):
    """more triangles than fit 16 bits"""
    exe, seed = a
    r = random.Random(seed)
    n = r.choice([r.randint(66000, 80000), 65536, r.randint(130000, 160000)])
    fn = r.randint(60, 100)
    k = n // (4 * fn - 4) + 1
    h = round(r.uniform(5, 100), 2)
    src = 'translate([%d,%d,0]) cylinder(h=%r,r1=%r,r2=%r,$fn=%d);' % (r.randint(-9, 9), r.randint(-9, 9), h, round(r.uniform(3, 9), 2), round(r.uniform(3, 9), 2), fn)
    args = ['--step=%r' % (h / k), '--layer-gap=%r' % (h / k / 3), '--min=%r' % (h / k / 2)]
    info = dict(src=src, args=args, kind=None, msg=None, nt=0)
    D = {}
    for o in ('o.stl', 'o.stlb'):
        q, D[o] = hob.hob(exe, src, args, out=o)
        if q.rc != 0:
            info.update(kind='malformed', msg='rc=%s %s' % (q.rc, q.etext[-300:]))
            return info
    try:
        B = outp.stl_bin(D['o.stlb'])[1].reshape(-1, 9)
        v = re.findall(rb'^ *vertex +(\S+) +(\S+) +(\S+) *$', D['o.stl'], re.M)
        A = np.array(v).astype(float).reshape(-1, 9)
    except (outp.Bad, ValueError) as e:
        info.update(kind='malformed', msg=repr(e))
        return info
    info['nt'] = len(A)
    if len(A) != len(B) or len(A) != k * (4 * fn - 4):
        info.update(kind='binary', msg='%d triangles in binary STL, %d in text, expected %d' % (len(B), len(A), k * (4 * fn - 4)))
        return info
    for i in range(3):
        x, y = [np.sort(t.reshape(-1, 3)[:, i]) for t in (A, B)]
        if np.abs(x - y).max() > 1e-4:
            info.update(kind='binary', msg='binary and text have different vertices')
    return info


def kind_of(data):
    """which format this is"""
    if data is None:
        return None
    if len(data) == 0:
        return 'empty'
    try:
        t = data.decode()
    except UnicodeDecodeError:
        t = None
    if t is not None:
        if t.startswith('solid'):
            return 'stl'
        if t.startswith('%!PS'):
            return 'ps'
        if t.lstrip().startswith('scene.push'):
            return 'js'
        if 'polygon(' in t and 'linear_extrude' in t and 'translate([0,0' in t:
            return 'csg2'
        if 'multmatrix' in t or 'polyhedron' in t:
            return 'csg3'
        if 'cylinder' in t:
            return 'scad'
    return 'stlb'


DUMPS = {'--dump-stl': 'stl', '--dump-stlb': 'stlb', '--dump-csg2': 'csg2', '--dump-ps': 'ps', '--dump-js': 'js'}
SUF = {'.stl': 'stl', '.stlb': 'stlb', '.stb': 'stlb', '.scad': 'csg2', '.csg': 'csg2', '.ps': 'ps', '.js': 'js'}


def _select(a):
    exe, args, out, want = a
    q, data = hob.hob(exe, 'cylinder(h=2,r=3,$fn=5);', ['--step=1'] + args, out=out)
    got = kind_of(data if out else q.out)
    e = None
    if want is None:
        if q.rc != 1 or not q.err:
            e = 'accepted, rc=%s' % q.rc
    else:
        if q.rc != 0:
            e = 'rc=%s %s' % (q.rc, q.etext[-200:])
        elif got != want:
            e = 'wrote %s instead of %s' % (got, want)
        elif out and q.out:
            e = 'unexpected standard output %r' % q.out[:60]
    return args, out, want, e


def run():
    chk = hob.Check('P15', rule='each random model is written in five formats, layers compared pairwise; every combination of suffix and --dump option; '
                    'counts when at least one layer was compared or a selection was decided')
    exe = hob.build('plain')
    for x in hob.pmap(_one, [(exe, chk.seed * 1000033 + i) for i in range(chk.n(1000, 25000))], chunk=5):
        if x is None:
            continue
        chk.case(x['src'], x['nl'] > 0)
        chk.stat('layers', x['nl'])
        if x['kind']:
            chk.violation(x['kind'], '%s\nargs: %s\n%s' % (x['msg'], ' '.join(x['args']), x['src']), {'model.scad': x['src']})
    for x in hob.pmap(_huge, [(exe, chk.seed * 1000211 + i) for i in range(chk.n(3, 40))]):
        chk.case(x['src'], x['nt'] > 0)
        chk.stat('huge_triangles', x['nt'])
        if x['kind']:
            chk.violation(x['kind'], '%s\nargs: %s\n%s' % (x['msg'], ' '.join(x['args']), x['src']), {'model.scad': x['src']})
    jobs = []
    for d, w in DUMPS.items():
        jobs.append((exe, [d], None, w))
        jobs.append((exe, [d], 'o.xyz', w))
        for s in SUF:
            jobs.append((exe, [d], 'o' + s, w))
        for d2, w2 in DUMPS.items():
            jobs.append((exe, [d, d2], None, w2))
    for s, w in SUF.items():
        jobs.append((exe, [], 'o' + s, w))
        jobs.append((exe, ['--stl-bin'], 'o' + s, 'stlb' if w == 'stl' else w))
        jobs.append((exe, ['--stl-txt'], 'o' + s, w))
        jobs.append((exe, ['--stl-bin', '--stl-txt'], 'o' + s, w))
        jobs.append((exe, [], 'o.stl.d' + s, w))
    for s in ('o.xyz', 'o', 'stl', 'o.', 'o.stl.', 'o.STLX'):
        jobs.append((exe, [], s, None))
    for args, out, want, e in hob.pmap(_select, jobs, chunk=4):
        chk.case(('select', args, out))
        chk.stat('selections')
        if e:
            chk.violation('select', 'options %s, output file %s (expected %s): %s' % (args, out, want, e))
    chk.assumptions += ['JS positions are rounded to the grid', 'points within 5e-4 mm of an outline are not judged',
                        'the difference pass (--no-diff) is not part of this tree: JS faces hidden by a neighbour layer may be there or not']
    chk.finish(chk.n(800, 20000))


if __name__ == '__main__':
    main(run)
