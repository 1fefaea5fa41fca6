"""Dumps of the intermediate stages are equivalent models."""
from common import main, hob
import outp, gen, models, modelcmp
import geom as g
import random, re
import numpy as np
import P23

NUM = re.compile(r'(?<![\w$])[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?')
COL = ['color("red")', 'color("#aBc",0.5)', 'color([0.1,1,0.3])', 'color([.2,.25,0.7,.125])', 'color(undef)', 'color(c=undef,alpha=0.7)',
       'color(alpha=1,c="DarkSlateGray")']

EMPTY = ['linear_extrude(1) difference() { square(1); square(2); }', 'intersection() { cube(1); translate([9,0,0]) cube(2); }',
         'difference() { cube(1); translate([-1,-1,-1]) cube(9); }', 'intersection() { linear_extrude(2) intersection() { square(1); '
         'translate([2,2]) square(1); } cube(3); }', 'difference() { linear_extrude(1) difference() { circle(1); square(5, true); } cube(1); }']


def same_dump(a, b):
    """texts equal up to the last digit of numbers"""
    if a == b:
        return None
    if NUM.sub('N', a) != NUM.sub('N', b):
        x, y = NUM.sub('N', a).split('\n'), NUM.sub('N', b).split('\n')
        for i in range(min(len(x), len(y))):
            if x[i] != y[i]:
                return 'line %d: %r vs %r' % (i + 1, a.split('\n')[i][:200], b.split('\n')[i][:200])
        return '%d vs %d lines' % (len(x), len(y))
    u, v = [np.array([float(t) for t in NUM.findall(s)]) for s in (a, b)]
    d = np.abs(u - v) > 4e-15 * np.abs(u) + 1e-300
    if d.any():
        i = int(np.argmax(d))
        return 'number %r became %r' % (u[i], v[i])
    return None


def tiny(D):
    """a dumped polyhedron has distinct points that are closer than the resolution of the tool (about 1e-5)"""
    for m in re.finditer(r'polyhedron\(points=\[(\[.*?\])\],', D, re.S):
        P = np.array([[float(x) for x in t.split(',')] for t in re.findall(r'\[([^\[\]]*)\]', m.group(1))])
        P = P[np.lexsort(P.T[::-1])]
        for k in range(1, min(len(P), 200)):
            d = P[k:] - P[:-k]
            if (np.abs(d).max(1) < 4e-5).any():
                return True
            if (d[:, 0] > 4e-5).all():
                break
    return False


def decorate(n, r):
    """colors, marks (without effect on the geometry expected here) and plain blocks"""
    for x, c in P23.nodes(n):
        if not c:
            continue
        if r.random() < .08:
            x.mod = x.mod + r.choice('##') + x.mod
        if r.random() < .12 and x.dim == 3:
            x.mod = r.choice(COL) + ' ' + x.mod
        # (the only child of a transformation is written without braces: nothing may precede it)
        if r.random() < .03 and x.dim == 3 and (len(c) == 1 or len(c[-1].kids) > 1 and c[-1].name):
            # another operand: an object that turns out to be empty
            x.mod = r.choice(EMPTY) + ' ' + x.mod


# statements with numbers N that are kept by the dump (H: halved)
PREC3 = ['cube([N,N,N]);', 'cube([N,N,N],center=true);', 'sphere(N);', 'sphere(r=N,$fn=7);', 'sphere(d=H);', 'cylinder(h=N,r1=N,r2=N);', 'cylinder(h=N,d1=H,r2=N,$fn=9);',
         'cylinder(N,N,N,center=true);', 'linear_extrude(height=N,twist=N,scale=[N,N]) %s', 'linear_extrude(N,slices=4) %s', 'linear_extrude(height=N,scale=N,center=true) %s',
         'rotate_extrude(angle=N,$fn=5) translate([2000000,0]) %s', 'rotate(a=[N,N,N]) %s', 'rotate([N,N,N]) %s', 'rotate(N,[N,N,N]) %s', 'rotate(a=N,v=[N,N,N]) %s', 'mirror([N,N,N]) %s',
         'scale([N,N,N]) %s', 'scale(v=N) %s', 'translate([N,N,N]) %s', 'translate(v=[N,N]) %s', 'multmatrix([[N,0,0,N],[0,N,N,N],[0,0,N,N]]) %s',
         'polyhedron(points=[[0,0,0],[N,0,0],[0,N,0],[0,0,N]],faces=[[0,1,2],[0,2,3],[0,3,1],[1,3,2]]);', 'union() { %s %s }', 'difference() { %s %s }']
PREC2 = ['circle(N);', 'circle(d=H,$fn=6);', 'square([N,N]);', 'square(N,center=true);', 'polygon([[0,0],[N,0],[N,N],[0,N]]);', 'rotate(N) %s', 'mirror([N,N]) %s', 'translate([N,N]) %s',
         'scale([N,N]) %s', 'intersection() { %s %s }']


def _prec(a):
    """numbers with all digits"""
    exe, seed = a
    r = random.Random(seed)
    want = []

    def make(T, depth):
        t = r.choice([x for x in T if depth > 0 or '%s' not in x])
        T2 = PREC2 if 'extrude' in t else T
        return re.sub('%s', lambda m: make(T2, depth - 1), t)

    def num(m):
        x = r.choice([1., 10., 100., 1000., 1e5, .01]) * r.uniform(.1, 1)
        if r.random() < .2:
            x = float('%.*g' % (r.randint(7, 13), x))
        if m.group() == 'N' and r.random() < .1:
            return repr(x).rjust(20)
        want.append((x, m.group()))
        return r.choice([repr(x), repr(x), '%.17e' % x, '%.17f' % x if x > 1 else repr(x)])
    src = re.sub(r'\b[NH]\b', num, make(PREC3, 3))
    info = dict(src=src, kind=None, msg=None, n=len(want))
    for d in ('syn', 'scad'):
        q, _ = hob.hob(exe, src, ['--dump-' + d])
        if q.rc != 0:
            info.update(kind='precision', msg='--dump-%s: rc=%s %s' % (d, q.rc, q.etext[-300:]))
            return info
        have = np.array([float(x) for x in NUM.findall(q.out.decode())])
        for x, k in want:
            y = x / 2 if k == 'H' and d == 'scad' else x
            if not (len(have) and np.abs(have - y).min() <= 4e-15 * abs(y)):
                info.update(kind='precision', msg='--dump-%s: number %r is not in the dump\n%s' % (d, y, q.out.decode()[:2000]))
                return info
    return info


def _one(a):
    exe, seed = a
    r = random.Random(seed)
    files = None
    args = []
    src = bb = None
    if seed % 4 == 0:
        G = gen.Gen(r)
        t, want, root, chain = P23.model(G, r)
        if want is None:
            return None
        try:
            bb = want.bbox(g.Ctx(), g.I4)
        except Exception:
            return None
        if not (bb[0] < bb[1]).all():
            return None
        src = t if isinstance(t, str) else t.emit()
    else:
        m = models.source(seed, models._names + ['P17', 'P18'], large=.07)
        if m is None:
            return None
        bb, files, args, r = m['bb'], m['files'], m['args'], m['rng']
        n = m['node']
        if files is None and m['src'] == n.emit():
            n = P23.clone(n)
            decorate(n, r)
            src = n.emit()
        else:
            src = m['src']
    if r.random() < .2:
        src = r.choice(['{\n%s}\n', 'group(){{%s};}\n', '{{};%s\n}{;}\n', '{ {%s} }']) % src
    lo, hi = float(bb[0][2]), float(bb[1][2])
    step = round(max(.03, (hi - lo) / r.choice([2, 3, 5])), 4)
    z0 = round(lo + step * r.uniform(-.6, .6), 4)
    zs = ['--step=%r' % step, '--min=%r' % z0]
    info = dict(src=src, args=args + zs, kind=None, msg=None, n={})

    def bad(kind, msg):
        info.update(kind=kind, msg=msg)
        return info

    def tool(s, x, out=None):
        q, data = hob.hob(exe, s, args + x, files=files, out=out)
        if q.rc != 0:
            raise outp.Bad('rc=%s %s\n%s' % (q.rc, ' | '.join(l[:200] for l in q.etext.split('\n') if 'Error:' in l), q.etext[-300:]))
        return data if out else q.out.decode()

    def layers(s, x=zs):
        return outp.slabs(outp.stl_ascii(tool(s, x, 'o.stl'))[1])

    try:
        A = layers(src)
    except outp.Bad as e:
        return bad('original', str(e))
    thr = 2e-3
    for d in ('syn', 'scad', 'csg3'):
        try:
            D = tool(src, ['--dump-' + d])
        except outp.Bad as e:
            return bad(d, 'dump fails: %s' % e)
        if d == 'csg3':
            if 'hob3l_xor' in D:
                info['n']['csg3_xor'] = 1
                continue
            # a sphere with the default $fn is dumped for readers without --max-fn
            D1 = re.sub(r'(\bsphere\(.*?)\$fn=\d+', r'\1$fn=0', D)
        else:
            D1 = D
        try:
            B = layers(D1)
            D2 = tool(D1, ['--dump-' + d])
        except outp.Bad as e:
            if d == 'csg3' and 'Duplicate point' in str(e) and tiny(D1):
                info['n']['csg3_below_resolution'] = 1
                continue
            return bad(d, 'dump not readable: %s\n%s' % (e, D1[:3000]))
        info['n'][d] = 1
        if d != 'csg3':
            e = same_dump(D, D2)
            if e:
                return bad(d, 'dump of the dump differs: %s\n%s' % (e, D[:3000]))
        e = modelcmp.same_layers(A, B, r, thr)
        if e:
            return bad(d, 'dump shows another model: %s\n%s' % (e, D[:4000]))
        info['n']['layers_' + d] = len(A)
    # the 2D stage: the layers come back as prisms
    try:
        D = tool(src, zs + ['--layer-gap=0'] + r.choice([[], ['--no-tri'], ['--no-tri'], ['--tri']]), 'o.scad').decode()
        L = [l for l in outp.scad_layers(D) if l['polys']]
        if len(L) != len(A):
            return bad('csg2', '%d layers instead of %d' % (len(L), len(A)))
        if L:
            for k in sorted(r.sample(range(len(L)), min(2, len(L)))):
                B = layers(D, ['-z=%r' % (L[k]['z'] + step * r.uniform(.2, .8))])
                if len(B) != 1:
                    return bad('csg2', '%d layers when reading back layer %d' % (len(B), k))
                e = modelcmp.same_region(A[k]['bottom'][:, :, :2], B[0]['bottom'][:, :, :2], r.random(), n=200, thr=thr)
                if e:
                    return bad('csg2', 'layer at %r read back: %s\n%s' % (L[k]['z'], e, D[:4000]))
                info['n']['layers_csg2'] = info['n'].get('layers_csg2', 0) + 1
    except outp.Bad as e:
        return bad('csg2', str(e))
    return info


def run():
    chk = hob.Check('P19', rule='each random model is dumped at every stage, the dump is sliced and dumped again; counts when layers were compared for '
                    'at least the syntax, SCAD and 2D stages')
    exe = hob.build('plain')
    for x in hob.pmap(_one, [(exe, chk.seed * 1000033 + 77 + i) for i in range(chk.n(900, 25000))], chunk=5):
        if x is None:
            continue
        chk.case(x['src'], x['n'].get('layers_csg2', 0) > 0)
        for k, v in x['n'].items():
            chk.stat(k, v)
        if x['kind']:
            chk.violation(x['kind'], '%s\nargs: %s\n%s' % (x['msg'], ' '.join(x['args']), x['src']), {'model.scad': x['src']})
    k = 0
    for x in hob.pmap(_prec, [(exe, chk.seed * 1000033 + 77 + i) for i in range(chk.n(500, 8000))], chunk=10):
        k += x['n'] > 0
        chk.evaluations += 1
        chk.stat('numbers_with_all_digits', x['n'])
        if x['kind']:
            chk.violation(x['kind'], '%s\n%s' % (x['msg'], x['src']), {'model.scad': x['src']})
    chk.more_nontrivial += k
    chk.assumptions += ['3D dumps with points closer than 4e-5 mm to each other may be refused for duplicate points',
                        'hob3l_xor in 3D dumps is documented as not readable: such dumps are not read back',
                        'points within 2e-3 mm of an outline are not judged']
    chk.finish(chk.n(600, 15000))


if __name__ == '__main__':
    main(run)
