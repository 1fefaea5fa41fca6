"""JavaScript output is well formed; indexes are in range; arrays match."""
from common import main, hob
import outp, gen, models, modelcmp, big as bg
import geom as g
import json, os, random, subprocess, tempfile
import numpy as np

NODE = r"""
const fs = require('fs'), vm = require('vm');
const res = [];
for (const f of process.argv.slice(2)) {
    const scene = [];
    let e = null;
    try { vm.runInNewContext("'use strict';" + fs.readFileSync(f, 'latin1'), {scene: scene}); } catch (x) { e = '' + x; }
    res.push({e: e, s: scene.map(p => ({keys: Object.keys(p).sort().join(), group: Object.keys(p.group).filter(k => p.group[k] === true),
        scaleV: p.scaleV, scaleC: p.scaleC, shiftI: p.shiftI, nv: p.vertex.length, nn: p.normal.length, nc: p.color.length, ni: p.index.length,
        int: [p.vertex, p.normal, p.color, p.index].every(a => a.every(Number.isInteger)),
        h: [p.vertex, p.normal, p.color, p.index].map(a => a.reduce((x, y) => (x * 31 + y) % 1000003, 7))}))});
}
console.log(JSON.stringify(res));
"""


def hsh(a):
    x = 7
    for y in a:
        x = int(np.fmod(x * 31 + y, 1000003))
    return x


def struct(ps, T, hs, thick, groups):
    """structure of the pushed groups against the triangles T of the STL; a message or None"""
    for p in ps:
        V, I, N, C = p['vertex'], p['index'], p['normal'], p['color']
        if p['scaleC'] != 255:
            return 'scaleC is %r' % p['scaleC']
        if p['group'] != groups:
            return 'groups %r instead of %r' % (p['group'], groups)
        if len(np.unique(I)) != len(V):
            return '%d vertices, %d used' % (len(V), len(np.unique(I)))
        if (C != C[0]).any():
            return 'colors differ'
        n = N / p['scaleV']
        if (np.abs(np.linalg.norm(n, axis=1) - 1) > 1e-3).any():
            return 'normal is not of unit length: %s' % n[np.argmax(np.abs(np.linalg.norm(n, axis=1) - 1))]
        t = V[I]
        e = np.cross(t[:, 1] - t[:, 0], t[:, 2] - t[:, 0])
        l = np.linalg.norm(e, axis=1)
        if (l == 0).any():
            return 'triangle without area %s' % t[np.argmax(l == 0)].tolist()
        for k in range(3):
            d = (e * n[I[:, k]]).sum(1) / l
            # short edges on the grid have a rounded direction
            lim = np.where(np.abs(n[I[:, k]][:, 2]) > .5, .999, .9)
            if (d < lim).any():
                j = int(np.argmin(d))
                return 'normal %s does not fit triangle %s' % (n[I[j, k]].tolist(), t[j].tolist())
    # as many triangles as in the STL file, at the same places
    J = np.concatenate([p['vertex'][p['index']] for p in ps] or [np.zeros((0, 3, 3))])
    if len(J) != len(T):
        return '%d triangles, STL has %d' % (len(J), len(T))
    if len(J) == 0:
        return None
    gr = ps[0]['grid']
    # (the STL has its own layer gap; heights are identified by their level)
    lev = np.unique(np.array([y for h in hs for y in (h[0], h[0] + thick)]))
    lev = lev[np.concatenate([[True], np.diff(lev) > 1e-9])]

    def key(X, z):
        d = np.abs(z[:, :, None] - lev) if len(z) * len(lev) < 2e7 else None
        k = d.argmin(2) if d is not None else np.clip(np.searchsorted(lev, z - .6 * gr), 0, len(lev) - 1)
        if np.abs(z - lev[k]).max() > .51 * gr + 1e-9:
            return None
        q = np.rint(X[:, :, :2] / gr).astype(np.int64)
        return sorted(map(tuple, np.sort(q[:, :, 0] + (q[:, :, 1] << 22) + (k << 46), axis=1).tolist()))
    z = T[:, :, 2].copy()
    for h in hs:
        z[np.abs(z - h[1]) < 1e-9] = h[0] + thick
    a, b = key(J, J[:, :, 2]), key(T, z)
    if a is None or b is None:
        return 'triangle at unexpected height'
    if a != b:
        return 'triangles differ from those of the STL'
    return None


def _one(a):
    exe, seed, big = a
    r = random.Random(seed)
    if big:
        G = gen.Gen(r)
        n = g.Block([r.choice([lambda: g.sphere(float(r.randint(2, 9)), 97), lambda: g.cylinder(5., 4., 2., 100),
                               lambda: g.difference(g.sphere(5., 90), g.cylinder(20., 1., 1.5, 60, True)),
                               lambda: g.union(*[g.translate([3. * i, 0., 0.], g.cylinder(4., 1., 1., 50)) for i in range(6)])])()])
        bb = n.bbox(g.Ctx(), g.I4)
        m = dict(src=n.emit(), args=[], files=None, bb=bb)
        lay = r.choice([60, 90, 150])
        if r.random() < .3:
            # many layers
            n = g.Block([g.cylinder(40., 4., 2., r.randint(3, 12))])
            bb = n.bbox(g.Ctx(), g.I4)
            m.update(src=n.emit(), bb=bb)
            lay = bg.size(r, 150, 1500)
    else:
        m = models.source(seed)
        if m is None:
            return None
        lay = r.choice([1, 3, 8])
    lo, hi = float(m['bb'][0][2]), float(m['bb'][1][2])
    step = round(max(.02, (hi - lo) / lay), 4)
    args = m['args'] + ['--step=%r' % step]
    sa, ja = [], []
    if not big and r.random() < .2:
        # thin layers of a part of the model
        step = float('%.3g' % 10 ** r.uniform(-3.3, -1.3))
        z0 = round(lo + (hi - lo) * r.uniform(.02, .98), 4)
        args = m['args'] + ['--step=%r' % step, '--min=%r' % z0, '--max=%r' % (z0 + step * r.uniform(.1, 3))]
        sa, ja = ['--layer-gap=%r' % (step * .25)], r.choice([[], ['--layer-gap=0']])
    if r.random() < .3:
        args.append('--grid=%s' % r.choice(['2^10', '2^14', '1000', '2^12', '777.5']))
    groups, ga = [], []
    for _ in range(r.choice([0, 0, 1, 2])):
        ws = [''.join(r.choice("abcXYZ019_-'\\\".") for _ in range(r.randint(1, 5))) for _ in range(r.randint(1, 3))]
        ga.append('--js-group=' + r.choice(['', ' ', ',']) + r.choice([' ', ',', ';', ', ', '\t']).join(ws) + r.choice(['', ';']))
        groups += ws
    groups = list(dict.fromkeys(groups))
    if r.random() < .1:
        ga.append('--js-color-rand=%d' % r.randint(0, 50))
    info = dict(src=m['src'], args=args + ja + ga, kind=None, msg=None, nt=0, push=0, node=None)
    q, s = hob.hob(exe, m['src'], args + sa, files=m['files'], out='o.stl')
    q2, j = hob.hob(exe, m['src'], args + ja + ga, files=m['files'], out='o.js')
    for x, d in ((q, s), (q2, j)):
        if x.rc != 0 or d is None:
            info.update(kind='rejected', msg='rc=%s %s' % (x.rc, x.etext[-300:]))
            return info
    try:
        T = outp.stl_ascii(s)[1]
        hs = [(x['z0'], x['z1']) for x in outp.slabs(T)]
        jt = j.decode('latin1')
        ps = outp.js_pushes(jt)
        for p in ps:
            p['group'] = list(dict.fromkeys(p['group']))
        if ps and step < 2 * ps[0]['grid']:
            # the height of a layer is not a positive number of grid units
            return None
        # the strict text parser does not know escapes in group names: those are left to node
        esc = any("'" in w or '\\' in w for w in groups)
        e = struct(ps, T, hs, step, ps[0]['group'] if esc and ps else groups)
    except (outp.Bad, ValueError) as x:
        e = repr(x)
        ps = []
    info['nt'] = len(T)
    info['push'] = len(ps)
    if e:
        info.update(kind='structure', msg=e)
        return info
    if seed % 8 == 0 or groups or big:
        with tempfile.TemporaryDirectory(prefix='hobn-') as d:
            with open(d + '/a.js', 'wb') as f:
                f.write(j)
            with open(d + '/n.js', 'w') as f:
                f.write(NODE)
            o = subprocess.run(['node', d + '/n.js', d + '/a.js'], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if o.returncode == 0:
            x = json.loads(o.stdout)[0]
            info['node'] = True
            if x['e']:
                info.update(kind='script', msg=x['e'])
            elif len(x['s']) != len(ps):
                info.update(kind='script', msg='%d groups pushed, %d seen' % (len(x['s']), len(ps)))
            else:
                for p, y in zip(ps, x['s']):
                    k = 'color,group,index,normal,scaleC,scaleV,shiftI,vertex'
                    if not (y['nv'] == y['nn'] == len(p['vertex']) * 3 and y['nc'] == len(p['vertex']) * 4 and y['ni'] == len(p['index']) * 3):
                        info.update(kind='script', msg='array lengths %r' % y)
                    elif not y['int'] or abs(y['scaleV'] - p['scaleV']) > 1e-6 * p['scaleV'] or y['keys'] not in (k, k + ',xform'):
                        info.update(kind='script', msg='values %r' % y)
                    elif sorted(y['group']) != sorted(groups):
                        info.update(kind='script', msg='groups %r instead of %r' % (y['group'], groups))
    return info


def run():
    chk = hob.Check('P16', rule='JS written for random models and for models with more triangles than fit into one group; parsed strictly, '
                    'every eighth also run in node; counts when there is at least one triangle')
    exe = hob.build('plain')
    b = chk.seed * 1000033
    jobs = [(exe, b + i, True) for i in range(chk.n(16, 200))] + [(exe, b + i, False) for i in range(chk.n(1400, 30000))]
    for x in hob.pmap(_one, jobs, chunk=4):
        if x is None:
            continue
        chk.case((x['src'], tuple(x['args'])), x['nt'] > 0)
        chk.stat('triangles', x['nt'])
        chk.stat('groups', x['push'])
        chk.stat('more_than_one_group', int(x['push'] > 1))
        if x['node']:
            chk.stat('run_in_node')
        if x['kind']:
            chk.violation(x['kind'], '%s\nargs: %s\n%s' % (x['msg'], x['args'], x['src']), {'model.scad': x['src']})
    chk.assumptions += ['walls shorter than some grid units may have normals of the rounded direction']
    chk.finish(chk.n(1200, 25000))


if __name__ == '__main__':
    main(run)
