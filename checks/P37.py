"""Work and memory grow in step with the size of the model."""
from common import main, hob
import math, os, time, random, struct, tempfile, shutil

# family: (generator(n, rng) -> (scad, args, files), [sizes: each twice the one before], growth of work, growth of memory)
# growth of work: 2 is linear (n log n is below 2.3), 4 is quadratic
# one layer of 30 objects of 20 points each may need LAYER bytes until the end
LIN, QUAD, MEM, LAYER = 2.75, 5.5, 3.4, 90000
FAM = {}


def fam(name, *sizes, w=LIN, m=MEM):
    def deco(f):
        FAM[name] = (f, sizes, w, m)
        return f
    return deco


def outline(pts, paths=None):
    return 'linear_extrude(3) polygon([%s]%s);' % (','.join('[%.5f,%.5f]' % q for q in pts), ',paths=%r' % paths if paths else '')


def mesh(n):
    m = max(4, int(math.sqrt(n / 2)))
    k = max(4, n // (2 * m))
    P, F = [], []
    for i in range(1, m):
        for j in range(k):
            t, f = math.pi * i / m, 2 * math.pi * j / k + .01
            P.append((10 * math.sin(t) * math.cos(f), 10 * math.sin(t) * math.sin(f), 10 * math.cos(t)))
    a = len(P)
    P += [(0, 0, 10), (0, 0, -10)]
    for i in range(m - 2):
        for j in range(k):
            l = (j + 1) % k
            F += [(i * k + j, (i + 1) * k + j, (i + 1) * k + l), (i * k + j, (i + 1) * k + l, i * k + l)]
    for j in range(k):
        l = (j + 1) % k
        F += [(a, j, l), (a + 1, (m - 2) * k + l, (m - 2) * k + j)]
    return P, F


def stla(P, F):
    return 'solid\n' + ''.join('facet normal 0 0 0\nouter loop\n' + ''.join('vertex %.6f %.6f %.6f\n' % P[x] for x in f) + 'endloop\nendfacet\n' for f in F) + 'endsolid\n'


def stlb(P, F):
    return b' ' * 80 + struct.pack('<I', len(F)) + b''.join(struct.pack('<12fH', 0, 0, 0, *P[a], *P[b], *P[c], 0) for a, b, c in F)


def tetras(n):
    P, F = [], []
    for i in range(n // 4):
        x, y = 3. * (i % 50), 3. * (i // 50)
        k = len(P)
        P += [(x, y, 0), (x + 2, y, 0), (x, y + 2, 0), (x, y, 2)]
        F += [(k, k + 2, k + 1), (k, k + 1, k + 3), (k, k + 3, k + 2), (k + 1, k + 2, k + 3)]
    return P, F


Z = ['-z', '.5']


@fam('circle', 1000, 2000, 4000)
def _(n, r):
    return 'linear_extrude(1) circle(r=10,$fn=%d);' % n, ['--max-fn=100000'], {}


@fam('cylinder-js', 1000, 2000, 4000)
def _(n, r):
    return 'cylinder(r=10,h=1,$fn=%d);' % n, ['--max-fn=100000', '--dump-js'], {}


@fam('sphere', 200, 283, 400)
def _(n, r):
    # n * n / 2 points
    return ''.join('translate([%d,0,0]) sphere(r=%d,$fn=%d);' % (40 * i, 10, n) for i in range(2)), ['--max-fn=100000', '-z', '.3'], {}


for _o in ('--dump-js', '--dump-ps', '--dump-stlb', '--dump-csg2', '--dump-stl'):
    @fam('layers' + _o[1:], 200, 400, 800)
    def _(n, r, o=_o):
        return 'cylinder(r=5,h=100,$fn=20);translate([3,0,0])cube(40);', ['--step=%g' % (100. / n), o], {}


@fam('layers-diff', 50, 100, 200)
def _(n, r):
    return 'difference() { sphere(r=50,$fn=20); cylinder(r=10,h=200,center=true); }', ['--step=%g' % (100. / n)], {}


@fam('layers-inner', 100, 200, 400)
def _(n, r):
    # many objects, but a simple result
    return ''.join('cylinder(r=%d,h=100,$fn=20);' % (i + 1) for i in range(30)), ['--step=%g' % (100. / n)], {}


@fam('layers-no-diff', 100, 200, 400)
def _(n, r):
    return 'intersection() { sphere(50); cube(40); }', ['--step=%g' % (40. / n), '--no-diff'], {}


@fam('saw', 1000, 2000, 4000)
def _(n, r):
    return outline([(i * 100. / n, (i % 2) * 3 + r.random()) for i in range(n)] + [(100, -5), (0, -5)]), Z, {}


@fam('saw-vertical', 1000, 2000, 4000)
def _(n, r):
    return outline([((i % 2) * 3 + r.random(), i * 100. / n) for i in range(n)] + [(-5, 100), (-5, 0)]), Z, {}


@fam('comb', 1000, 2000, 4000)
def _(n, r):
    p = []
    for i in range(n // 4):
        p += [(4. * i, 0), (4. * i, 50), (4. * i + 2, 50), (4. * i + 2, 0)]
    return outline(p + [(n, -3), (-1, -3)]), Z + ['--grid=1024'], {}


@fam('comb-horizontal', 1000, 2000, 4000)
def _(n, r):
    p = []
    for i in range(n // 4):
        p += [(0, 4. * i), (50, 4. * i), (50, 4. * i + 2), (0, 4. * i + 2)]
    return outline(p + [(-3, n), (-3, -1)]), Z + ['--grid=1024'], {}


@fam('spiral', 500, 1000, 2000)
def _(n, r):
    p, q = [], []
    for i in range(n // 2):
        t = i * 2 * math.pi / 24
        p.append(((5 + t) * math.cos(t), (5 + t) * math.sin(t)))
        q.append(((8 + t) * math.cos(t), (8 + t) * math.sin(t)))
    return outline(p + q[::-1]), Z, {}


@fam('star', 1000, 2000, 4000)
def _(n, r):
    rr = [20 if i % 2 else r.uniform(5, 8) for i in range(n)]
    return outline([(rr[i] * math.cos(i * 2 * math.pi / n), rr[i] * math.sin(i * 2 * math.pi / n)) for i in range(n)]), Z, {}


@fam('stairs', 1000, 2000, 4000)
def _(n, r):
    p = []
    for i in range(n // 2):
        p += [(i, i), (i + 1, i)]
    return outline(p + [(-2, n // 2)]), Z + ['--grid=512'], {}


@fam('line-points', 1000, 2000, 4000)
def _(n, r):
    # all on one line
    return outline([(i, 0) for i in range(n)] + [(n / 2., 9)]), Z + ['--grid=512'], {}


@fam('rings', 50, 100, 200, w=QUAD, m=5.)
def _(n, r):
    pts, paths = [], []
    for i in range(n):
        paths.append(list(range(len(pts), len(pts) + 12)))
        pts += [((i + 1) * math.cos(j * math.pi / 6), (i + 1) * math.sin(j * math.pi / 6)) for j in range(12)]
    return outline(pts, paths), Z, {}


@fam('hole-paths', 100, 200, 400, w=QUAD, m=5.)
def _(n, r):
    pts, paths = [(-5, -5), (200, -5), (200, 200), (-5, 200)], [[0, 1, 2, 3]]
    for i in range(n):
        paths.append(list(range(len(pts), len(pts) + 3)))
        x, y = 3 * (i % 40), 3 * (i // 40)
        pts += [(x, y), (x + 1, y + r.random()), (x, y + 1.5)]
    return outline(pts, paths), Z, {}


@fam('crossings', 8, 11, 16, w=QUAD, m=5.)
def _(n, r):
    # 2n lines cross 2n lines; the faces are combined like n * n objects
    p = []
    for i in range(n):
        p += [(2 * i, -1), (2 * i, 2 * n), (2 * i + 1, 2 * n), (2 * i + 1, -1)]
    q = []
    for i in range(n):
        q += [(-2, 2 * i), (2 * n, 2 * i), (2 * n, 2 * i + 1), (-2, 2 * i + 1)]
    return outline(p + q, [list(range(4 * n)), list(range(4 * n, 8 * n))]), Z + ['--grid=1024'], {}


@fam('row', 100, 200, 400, w=QUAD, m=5.)
def _(n, r):
    return ''.join('translate([%d,0,0]) cube([1,1,2]);\n' % (2 * i) for i in range(n)), Z, {}


@fam('holes', 100, 200, 400, w=QUAD, m=5.)
def _(n, r):
    return 'difference() { cube([100,100,2]); ' + ''.join('translate([%d,%d,-1]) cube([1,1,4]);\n' % (2 + 2 * (i % 20), 2 + 2 * (i // 20)) for i in range(n)) + '}', Z, {}


@fam('union-2d', 100, 200, 400, w=QUAD, m=5.)
def _(n, r):
    return 'linear_extrude(1) {' + ''.join('translate([%d,0]) square(1);\n' % (2 * i) for i in range(n)) + '}', Z, {}


@fam('chain', 50, 100, 200, w=QUAD, m=5.)
def _(n, r):
    return ''.join('translate([%g,0,0]) cylinder(r=1,h=2,$fn=8);' % (1.3 * i) for i in range(n)), Z, {}


@fam('tower', 200, 400, 800)
def _(n, r):
    # only one object is in the layer
    return ''.join('translate([0,0,%d]) cube([1,1,1]);\n' % i for i in range(n)), Z, {}


@fam('tower-layers', 50, 100, 200, w=QUAD, m=5.)
def _(n, r):
    return ''.join('translate([0,0,%d]) cube([1,1,1]);\n' % i for i in range(n)), ['--step=1'], {}


@fam('nesting', 90, 180, 360)
def _(n, r):
    return 'translate([0.01,0,0]) ' * n + 'cube(1);', Z, {}


@fam('blocks', 90, 180, 360)
def _(n, r):
    return 'union() { ' * n + 'cube(1);' + '}' * n, Z, {}


@fam('diff-nest', 40, 80, 160, w=QUAD)
def _(n, r):
    return 'difference() { ' * n + 'cube(4);' + ''.join('translate([%g,1,1]) cube(.01); }' % (.02 * i) for i in range(n)), Z, {}


@fam('stl-ascii', 2000, 4000, 8000)
def _(n, r):
    return 'import("a.stl");', Z, {'a.stl': stla(*mesh(n))}


@fam('stl-binary', 2000, 4000, 8000)
def _(n, r):
    return 'import("a.stl");', Z, {'a.stl': stlb(*mesh(n))}


@fam('stl-shuffled', 2000, 4000, 8000)
def _(n, r):
    P, F = mesh(n)
    r.shuffle(F)
    return 'import("a.stl");', Z, {'a.stl': stlb(P, F)}


@fam('stl-pieces', 800, 1600, 3200)
def _(n, r):
    return 'import("a.stl");', ['-z', '.7'], {'a.stl': stlb(*tetras(n))}


@fam('stl-fan', 1000, 2000, 4000)
def _(n, r):
    # a cone of n triangles around one corner
    P = [(10 * math.cos(i * 2 * math.pi / n), 10 * math.sin(i * 2 * math.pi / n), 0) for i in range(n)] + [(0, 0, 0), (0, 0, 5)]
    F = [(i, (i + 1) % n, n + 1) for i in range(n)] + [((i + 1) % n, i, n) for i in range(n)]
    return 'import("a.stl");', ['-z', '2'], {'a.stl': stlb(P, F)}


@fam('polyhedron', 2000, 4000, 8000)
def _(n, r):
    P, F = mesh(n)
    return 'polyhedron(points=%s,faces=%s);' % ([[round(x, 5) for x in p] for p in P], [list(f)[::-1] for f in F]), Z, {}


@fam('polyhedron-face', 500, 1000, 2000)
def _(n, r):
    P = [(10 * math.cos(i * 2 * math.pi / n), 10 * math.sin(i * 2 * math.pi / n), z) for z in (0, 1) for i in range(n)]
    F = [list(range(n)), list(range(n, 2 * n))[::-1]] + [[i, n + i, n + (i + 1) % n, (i + 1) % n] for i in range(n)]
    return 'polyhedron(points=%s,faces=%s);' % ([[round(x, 5) for x in p] for p in P], F), Z, {}


@fam('svg-path', 1000, 2000, 4000)
def _(n, r):
    return 'linear_extrude(1) import("a.svg");', Z, {'a.svg': '<svg><path d="M0 -9 ' + ' '.join('%g %g' % (i * 100. / n, (i % 2) * 3 + r.random()) for i in range(n)) + ' 100 -9"/></svg>'}


@fam('svg-polygon', 1000, 2000, 4000)
def _(n, r):
    return 'linear_extrude(1) import("a.svg");', Z, {'a.svg': '<svg><polygon points="0 -9 ' + ','.join('%g %g' % (i * 100. / n, (i % 2) * 3 + r.random()) for i in range(n)) + ',100 -9"/></svg>'}


@fam('svg-curves', 20, 40, 80)
def _(n, r):
    return 'linear_extrude(1) import("a.svg");', Z, {'a.svg': '<svg><path d="M0 0 ' + ' '.join('q 1 %d 2 0 ' % (1 + i % 3) for i in range(n)) + ' l 0 -9 -100 0"/></svg>'}


@fam('svg-shapes', 100, 200, 400, w=QUAD, m=5.)
def _(n, r):
    return 'linear_extrude(1) import("a.svg");', Z, {'a.svg': '<svg>' + ' '.join('<rect x="%d" width="1" height="1"/>' % (2 * i) for i in range(n)) + '</svg>'}


@fam('svg-skipped', 1000, 2000, 4000)
def _(n, r):
    return 'linear_extrude(1) import("a.svg");', Z, {'a.svg': '<svg>' + ' '.join('<foo x="%d" width="1"> some text<!-- x --></foo>\n' % (2 * i) for i in range(n)) + '<rect width="9" height="9"/></svg>'}


@fam('svg-nested', 50, 100, 200)
def _(n, r):
    return 'linear_extrude(1) import("a.svg");', Z, {'a.svg': '<svg>' + '<g transform="translate(.1)">' * n + '<rect width="9" height="9"/>' + '</g>' * n + '</svg>'}


@fam('svg-attributes', 1000, 2000, 4000)
def _(n, r):
    return 'linear_extrude(1) import("a.svg");', Z, {'a.svg': '<svg>' + '<rect %s width="9" height="9"/></svg>' % ' '.join('a%d="&lt;%d"' % (i, i) for i in range(n))}


@fam('comments', 20000, 40000, 80000)
def _(n, r):
    return '/*' + 'x y\n' * n + '*/ // a\n' + '// %d\n' % n * (n // 10) + 'cube(1);', Z, {}


@fam('lines', 20000, 40000, 80000)
def _(n, r):
    return '\n' * n + 'cube(1);', Z, {}


@fam('error-late', 10000, 20000, 40000)
def _(n, r):
    return '//\n' * n + 'cube(1)\n' + '\n' * n, Z, {}


@fam('warnings', 1000, 2000, 4000)
def _(n, r):
    return 'foo();\n' * n + 'cube(1);', Z + ['--unsupported-functor=warn'], {}


@fam('string', 20000, 40000, 80000)
def _(n, r):
    return 'foo("%s"); cube(1);' % (r.choice('xyz') * n), Z + ['--unsupported-functor=ignore'], {}


@fam('digits', 20000, 40000, 80000)
def _(n, r):
    return 'cube(1.%s1);' % ('0' * n), Z, {}


@fam('arguments', 2000, 4000, 8000)
def _(n, r):
    return 'foo(%s); cube(1);' % ','.join('a%d=%d' % (i, i) for i in range(n)), Z + ['--unsupported-functor=ignore'], {}


@fam('vector', 2000, 4000, 8000)
def _(n, r):
    return 'foo([%s]); cube(1);' % ','.join('%d' % i for i in range(n)), Z + ['--unsupported-functor=ignore'], {}


@fam('includes', 50, 100, 200)
def _(n, r):
    return ''.join('include <f%d.scad>\n' % i for i in range(n)), Z, {'f%d.scad' % i: 'translate([%d,0,0]) %%cube(1);' % i for i in range(n)}


@fam('empty-blocks', 2000, 4000, 8000)
def _(n, r):
    return 'group() {}\n' * n + 'cube(1);', Z, {}


@fam('hull', 1000, 2000, 4000)
def _(n, r):
    return 'linear_extrude(1) hull() polygon([%s]);' % ','.join('[%.4f,%.4f]' % (10 * math.cos(i * 2 * math.pi / n), 10 * math.sin(i * 2 * math.pi / n)) for i in range(n)), Z, {}


@fam('hull-inner', 1000, 2000, 4000)
def _(n, r):
    return 'linear_extrude(1) hull() polygon([%s,[100,-5],[0,-5]]);' % ','.join('[%.4f,%.4f]' % (i * 100. / n, (i % 2) * 3 + r.random()) for i in range(n)), Z, {}


@fam('projection', 200, 283, 400)
def _(n, r):
    return 'linear_extrude(2) projection(cut=true) sphere(r=10,$fn=%d);' % n, ['-z', '.3', '--max-fn=100000'], {}


@fam('rotate-extrude', 160, 320, 640)
def _(n, r):
    return 'rotate_extrude($fn=%d) translate([10,0]) circle(r=3,$fn=16);' % n, ['-z', '.1', '--max-fn=10000'], {}


@fam('twist', 200, 400, 800)
def _(n, r):
    return 'linear_extrude(height=10,twist=90,slices=%d) square(10);' % n, ['-z', '4.9'], {}


for _o in ('syn', 'scad', 'csg3'):
    @fam('dump-' + _o, 1000, 2000, 4000)
    def _(n, r, o=_o):
        return ''.join('translate([%d,0,0]) color("red") cube([1,1,2]);\n' % (2 * i) for i in range(n)), ['--dump-' + o], {}


def _one(a):
    exe, name, n, seed = a
    f, sizes, w, m = FAM[name]
    src, args, files = f(n, random.Random('%s-%s' % (name, seed)))
    d = tempfile.mkdtemp(prefix='hobv-grow-')
    try:
        for k, c in dict(files, **{'m.scad': src}).items():
            with open(os.path.join(d, k), 'wb') as fh:
                fh.write(c if isinstance(c, bytes) else c.encode())
        t0 = time.time()
        q = hob.run([exe, 'm.scad'] + args + ['-o', 'o.out'] + ([] if any('dump' in x for x in args) else ['--dump-stl']),
                    cwd=d, timeout=300, env={'HOB_COUNT': os.path.join(d, 'count')})
        try:
            with open(os.path.join(d, 'count')) as fh:
                e, b, p = map(int, fh.read().split())
        except (OSError, ValueError):
            return name, n, None, 'status %s timeout %s %s' % (q.rc, q.timeout, q.etext[-300:]), src, args
        if os.environ.get('P37DEBUG'):
            print('TIME %.1f %s %d' % (time.time() - t0, name, n), flush=True)
        o = os.path.join(d, 'o.out')
        return name, n, (e, b, p, os.path.getsize(o) if os.path.exists(o) else 0, q.rc), q.etext[-200:], src[:2000], args
    finally:
        shutil.rmtree(d)


def run():
    c = hob.Check('P37', rule='families of models, each in three sizes n, 2n, 4n, run in a build that counts executed edges and bytes handled by the C library and measures the heap; the '
                  'increments from n to 2n and from 2n to 4n are compared, so constant costs cancel out; counts each model measured')
    exe = hob.build('count')
    k = 4 if c.tier == 'quick' else 8
    jobs = []
    for name, (f, sizes, w, m) in FAM.items():
        jobs += [(exe, name, s * (k if w == LIN and name not in ('nesting', 'blocks', 'svg-nested') else 1), c.seed) for s in sizes]
    jobs.sort(key=lambda j: -j[2] * (30 if FAM[j[1]][2] == QUAD else 1))
    R = {}
    for name, n, v, t, src, args in hob.pmap(_one, jobs):
        R.setdefault(name, []).append((n, v, t, src, args))
    for name, (f, sizes, wmax, mmax) in FAM.items():
        L = sorted(R[name], key=lambda x: x[0])
        for n, v, t, src, args in L:
            c.case((name, n), v is not None)
        if any(v is None for n, v, t, src, args in L):
            n, v, t, src, args = [x for x in L if x[1] is None][0]
            c.violation('no-answer-' + name, 'n=%d %s: %s' % (n, ' '.join(args), t), {'m.scad': src})
            continue
        if any(v[4] != (name == 'error-late') for n, v, t, src, args in L):
            c.violation('status-' + name, 'statuses %r %s' % ([v[4] for n, v, t, src, args in L], L[-1][2]), {'m.scad': L[0][3]})
            continue
        W = [v[0] + v[1] for n, v, t, src, args in L]
        M = [v[2] for n, v, t, src, args in L]
        g = (W[2] - W[1]) / max(1, W[1] - W[0])
        h = M[2] / max(1, M[1])
        c.stat('edges_executed', sum(v[0] for n, v, t, src, args in L))
        if os.environ.get('P37DEBUG'):
            print('%-18s work %.2f  memory %.2f  %.3g %.3g' % (name, g, h, W[2], M[2]), L[2][1][3:])
        if g > wmax and W[2] - W[1] > 20000:
            c.violation('work-' + name, 'sizes %r: work %r: the increment grows by %.2f for twice the size, limit %.2f\n%s' % ([x[0] for x in L], W, g, wmax, ' '.join(L[0][4])), {'m.scad': L[0][3]})
        elif h > mmax and M[2] - M[1] > 1 << 20:
            c.violation('memory-' + name, 'sizes %r: heap %r: grows by %.2f for twice the size, limit %.2f\n%s' % ([x[0] for x in L], M, h, mmax, ' '.join(L[0][4])), {'m.scad': L[0][3]})
        elif name == 'layers-inner' and (M[2] - M[1]) / (L[2][0] - L[1][0]) > LAYER:
            c.violation('memory-layers', '%s: %r layers need %r bytes of heap: %d bytes per layer, limit %d' % (name, [x[0] for x in L], M, (M[2] - M[1]) / (L[2][0] - L[1][0]), LAYER), {'m.scad': L[0][3]})
        elif len(c.samples) < 5:
            c.sample('%s: sizes %r, work %r, heap %r' % (name, [x[0] for x in L], W, M))
    c.assumptions += ['combining n objects may take quadratic work: intermediate results are swept again', 'work done inside the C library is counted per byte for copying and comparing only']
    c.finish(3 * len(FAM) - 3)


if __name__ == '__main__':
    main(run)
