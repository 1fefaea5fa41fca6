"""Arguments: any documented way to write a call means the same; anything else is an error at the right place."""
from common import main, hob
import random, re


class Par:
    """name, values (rng -> text), default text (None: required), texts that are errors, neutral (value does not matter)"""

    def __init__(self, name, good, default=None, bad=(), neutral=False, alt=None):
        self.name, self.good, self.default, self.bad, self.neutral, self.alt = name, good, default, list(bad), neutral, alt


def n(v):
    return ('%d' % v) if v == int(v) else repr(v)


def pos(r):
    return n(r.choice([r.randint(1, 9), r.randint(1, 40) / 4, round(r.uniform(.5, 9), 3)]))


def anyf(r):
    return n(r.choice([r.randint(-9, 9), r.randint(-40, 40) / 4, round(r.uniform(-9, 9), 3)]))


def nz(r):
    t = anyf(r)
    return t if float(t) else '2'


def arr(f, k):
    return lambda r: '[' + ','.join(f(r) for _ in range(k)) + ']'


def alt_same(t):
    """[a,a,a] may be written a"""
    return t


def fnv(r):
    return str(r.choice([3, 4, 5, 6, 7, 8, 12, 20]))


NOFLT = ['"1"', '"x"', 'undef', '[1]', '[]', '[0:1]', '[0:1:3]', 'foo', '[1,2]', '"', '[[1]]', 'nan']
NOFLT.remove('"')
NOUINT = ['-1', '1.5', '0.5', '4294967296', '-4294967296', '1e3', '9223372036854775807', '"3"', 'undef', '[3]', '[]', '[1:2]', 'PI', 'foo', '4.25']
NOBOOL = ['"true"', '"x"', 'undef', '[true]', '[]', '[0:1]', '1.5', 'foo', 'True', 'yes']
NOV3 = ['"1"', 'undef', '[]', '[1]', '[1,2,3,4]', '[1,"2",3]', '[1,[2],3]', '[1,undef,3]', '[0:2]', '[[1,2,3]]', 'foo', '[1,2,foo]']
NOV2 = ['"1"', 'undef', '[]', '[1]', '[1,2,3]', '[1,"2"]', '[1,[2]]', '[undef,3]', '[0:2]', '[[1,2]]', 'foo']
NOSTR = ['1', '1.5', 'true', 'undef', '["x.stl"]', '[]', '[0:1]', 'foo']


def boolv(r):
    return r.choice(['true', 'false'])


def alt_bool(r, t):
    return t if r.random() < .6 else r.choice(['1', '2', '17']) if t == 'true' else '0'


def alt_vec(k):
    """[a,a,a] is a"""
    def f(r, t):
        v = t.strip('[]').split(',')
        return v[0] if len(v) == k and len(set(v)) == 1 else t
    return f


def alt_z(z):
    """the third value may be left out if it is z"""
    def f(r, t):
        v = t.strip('[]').split(',')
        if len(v) == 3 and v[2] == z and r.random() < .7:
            return '[%s,%s]' % (v[0], v[1])
        return t
    return f


def sizev(k):
    def f(r):
        if r.random() < .35:
            return '[' + ','.join([pos(r)] * k) + ']'
        return arr(pos, k)(r)
    return f


CENTER = Par('center', boolv, 'false', NOBOOL, alt=alt_bool)
FA = Par('$fa', anyf, '12', NOFLT, True)
FS = Par('$fs', anyf, '2', NOFLT, True)
FN = Par('$fn', fnv, '0', NOUINT)
FNX = Par('$fn', fnv, '0', NOUINT, True)
CONV = Par('convexity', lambda r: str(r.randint(0, 20)), '1', NOUINT, True)
CUBE = 'cube([4,3,2]);'
POLY = 'polygon([[0,0],[3,1],[1,4]]);'


def mat(r):
    """upper triangular with big diagonal: invertible"""
    M = [[0.] * 4 for _ in range(3)]
    for i in range(3):
        for j in range(4):
            if j > i:
                M[i][j] = r.choice([0, 0, float(r.randint(-3, 3)), r.randint(-9, 9) / 4])
        M[i][i] = r.choice([1., 1., 2., -1., .5])
    return '[%s,[0,0,0,1]]' % ','.join('[%s]' % ','.join(n(x) for x in row) for row in M)


def alt_mat(r, t):
    """leave out what is as in the unit matrix"""
    M = [[x for x in row.split(',')] for row in re.findall(r'\[([^\[\]]*)\]', t)]
    U = [['1', '0', '0', '0'], ['0', '1', '0', '0'], ['0', '0', '1', '0'], ['0', '0', '0', '1']]
    while len(M) > 2 and M[-1] == U[len(M) - 1] and r.random() < .8:
        M.pop()
    for i, row in enumerate(M):
        while len(row) > 2 and row[-1] == U[i][len(row) - 1] and r.random() < .5:
            row.pop()
    return '[' + ','.join('[%s]' % ','.join(x) for x in M) + ']'


BADMAT = ['1', '"x"', 'undef', '[]', '[1,2,3]', '[[1,0,0,0]]', '[[1,0,0,0],[0,1,0,0],[0,0,1,0],[0,0,0,1],[0,0,0,1]]', '[[1,0,0,0,0],[0,1,0,0],[0,0,1,0],[0,0,0,1]]',
          '[[1],[0,1,0,0],[0,0,1,0],[0,0,0,1]]', '[[],[]]', '[[1,0,0,0],[0,1,0,0],[0,0,1,0],[0,0,0,2]]', '[[1,0,0,0],[0,1,0,0],[0,0,1,0],[0,0,1,1]]',
          '[[1,0,0,0],[0,1,0,0],[0,0,1,0],[1,0,0,1]]', '[[1,0,0,0],[0,1,0,0],[0,0,1,0],[0,0,0,0]]', '[[1,0,0,"0"],[0,1,0,0]]', '[[1,0,0,0],"x"]', '[[1,0,0,0],3]', '[[1,0,0,0],[0,1,0,[0]]]']
SINGULAR = ['[[1,0,0,0],[0,0,0,0],[0,0,1,0],[0,0,0,1]]', '[[1,2,0],[2,4,0]]', '[[0,0],[0,0]]', '[[1,2,3,4],[2,4,6,1],[0,0,1,0]]']


def conflict_round(r, have):
    return have


# functor -> (positional parameters, named parameters, body, text around (2D or 3D), bad whole-argument texts reported at the functor)
F = {
    'cube': ([Par('size', sizev(3), '[1,1,1]', [x for x in NOV3], alt=alt_vec(3)), CENTER], [], None, 3),
    'square': ([Par('size', sizev(2), '[1,1]', [x for x in NOV2], alt=alt_vec(2)), CENTER], [], None, 2),
    'sphere': ([Par('r', pos, '1', NOFLT)], [FA, FS, FN], None, 3),
    'circle': ([Par('r', pos, '1', NOFLT)], [FA, FS, FN], None, 2),
    'cylinder': ([Par('h', pos, '1', NOFLT), Par('r1', pos, '1', NOFLT), Par('r2', pos, '1', NOFLT), CENTER], [FA, FS, FN], None, 3),
    'polyhedron': ([Par('points', lambda r: '[[0,0,0],[%s,0,0],[0,%s,0],[0,0,%s]]' % (pos(r), pos(r), pos(r)), None,
                        ['1', '"x"', 'undef', '[1,2,3]', '[[0,0],[5,0],[0,5],[0,0]]', '[[0,0,0],[5,0,0],[0,5,0],[0,0,"5"]]', '[[0,0,0],[5,0,0],[0,5,0],7]', '[[0,0,0,0],[5,0,0,0],[0,5,0,0],[0,0,5,0]]']),
                    Par('faces', lambda r: '[[0,1,2],[1,0,3],[2,1,3],[0,2,3]]', None,
                        ['1', '"x"', 'undef', '[0,1,2]', '[[0,1],[1,0,3],[2,1,3],[0,2,3]]', '[[0,1,2],[1,0,3],[2,1,3],[0,2,4]]', '[[0,1,2],[1,0,-3],[2,1,3],[0,2,3]]', '[[0,1,2],[1,0,3.0],[2,1,3],[0,2,3]]',
                         '[[0,1,2],[1,0,3],[2,1,3],[0,2,"3"]]', '[[],[1,0,3],[2,1,3],[0,2,3]]', '[[0,1,2],[1,0,3],[2,1,3],[0,2,18446744073709551615]]', '[[0,1,2],[1,0,3],[2,1,3],[0,2,9223372036854775807]]'])],
                   [CONV], None, 3),
    'polygon': ([Par('points', lambda r: '[[0,0],[%s,0],[0,%s],[-%s,0]]' % (pos(r), pos(r), pos(r)), None,
                     ['1', '"x"', 'undef', '[1,2,3]', '[[0,0,0],[5,0,0],[0,5,0],[1,1,1]]', '[[0,0],[5,0],[0,"5"],[1,1]]', '[[0,0],[5,0],[0],[1,1]]']),
                 Par('paths', lambda r: '[[0,1,2,3]]', '[[0,1,2,3]]',
                     ['1', '"x"', '[0,1,2]', '[[0,1]]', '[[0,1,4]]', '[[0,1,-1]]', '[[0,1,2.0]]', '[[0,1,"2"]]', '[[0,1,2],[]]', '[[0,1,18446744073709551615]]', '[[0,1,9223372036854775807]]'],
                     alt=lambda r, t: r.choice([t, 'undef'])),
                 CONV], [], None, 2),
    'import': ([Par('file', lambda r: '"x.stl"', None, NOSTR), Par('layer', lambda r: '"foo"', '"a"', NOSTR, True), CONV],
               [Par('center', boolv, 'false', NOBOOL, True), Par('dpi', pos, '72', NOFLT, True), FA, FS, FNX], None, 3),
    'linear_extrude': ([Par('height', pos, None, NOFLT)],
                       [CENTER, Par('slices', lambda r: str(r.randint(1, 5)), '1', NOUINT), Par('twist', anyf, '0', NOFLT),
                        Par('scale', lambda r: r.choice(['[%s,%s]' % ((pos(r),) * 2), arr(pos, 2)(r), '[1,1]', '[0,0]']), '[1,1]', [x for x in NOV2], alt=alt_vec(2)), CONV, FA, FS, FNX], POLY, 3),
    'rotate_extrude': ([], [Par('angle', lambda r: n(r.choice([360, 90, 180, 270, 45.5, r.randint(10, 350)])), '360', NOFLT), CONV, FA, FS, FN], 'translate([1,0,0]) ' + POLY, 3),
    'projection': ([Par('cut', lambda r: 'true', None, NOBOOL + ['false', '0'], alt=alt_bool)], [CONV], CUBE, 2),
    'multmatrix': ([Par('m', mat, None, BADMAT + SINGULAR, alt=alt_mat)], [], CUBE, 3),
    'translate': ([Par('v', lambda r: '[%s,%s,%s]' % (anyf(r), anyf(r), r.choice([anyf(r), '0'])), None, NOV3 + ['5'], alt=alt_z('0'))], [], CUBE, 3),
    'mirror': ([Par('v', lambda r: '[%s,%s,%s]' % (nz(r), anyf(r), r.choice([anyf(r), '0'])), None, NOV3 + ['5', '[0,0,0]', '[0,0]'], alt=alt_z('0'))], [], CUBE, 3),
    'scale': ([Par('v', lambda r: r.choice([arr(nz, 3)(r), '[%s,%s,1]' % (nz(r), nz(r)), '[%s,%s,%s]' % ((nz(r),) * 3)]), None, NOV3 + ['[0,1,1]', '[1,0]', '[1,1,0]', '0'],
                   alt=lambda r, t: alt_vec(3)(r, t) if len(set(t.strip('[]').split(','))) == 1 and r.random() < .6 else alt_z('1')(r, t))], [], CUBE, 3),
    'rotate': ([Par('a', lambda r: r.choice([anyf, lambda q: str(q.choice([30, 45, 90, 180]))])(r), None, ['"1"', 'undef', '[]', '[1]', '[1,2]', '[1,2,3,4]', '[1,"2",3]', '[0:1]', 'foo']),
                Par('v', lambda r: r.choice([arr(nz, 3)(r), '[0,0,1]', '[1,0,0]', '[0,-2,0]']), '[0,0,1]', [x for x in NOV3] + ['1', '[1,2]', '[0,0,0]'])], [], CUBE, 3),
    'rotate ': ([Par('a', arr(anyf, 3), None, ['[1]', '[1,2]', '[1,2,3,4]', '[1,"2",3]', '[[1,2,3]]'])], [], CUBE, 3),
    'color': ([Par('c', lambda r: '[.5,.25,1]', None, ['1', 'true', '[1]', '[0:1]', '"nocolor"', '[1,1,2]'], True), Par('alpha', lambda r: r.choice(['0', '1', '.5']), '1', NOFLT + ['2', '-1'], True)], [], CUBE, 3),
}
TET = 'solid x\n' + ''.join('facet normal 0 0 0\nouter loop\n%sendloop\nendfacet\n' % ''.join('vertex %s\n' % v for v in f) for f in
                            [('0 0 0', '0 5 0', '5 0 0'), ('0 0 0', '5 0 0', '0 0 5'), ('5 0 0', '0 5 0', '0 0 5'), ('0 5 0', '0 0 0', '0 0 5')]) + 'endsolid x\n'
# value errors that are reported for the functor as a whole, and combinations that exclude each other
WHOLE = {
    'cube': ['size=0', 'size=[1,0,1]', '[0,1,1]', '[1,1,0],true'],
    'square': ['size=[1,0]', '[0,1]', 'size=0'],
    'sphere': ['r=0', '-1', 'd=0', 'd=-2', 'r=1,d=2', '1,d=2', 'd=2,r=1'],
    'circle': ['r=1,d=2', '1,d=2', 'd=2,r=1', 'd=2,$fn=5,r=2', 'r=0'],
    'cylinder': ['h=0', '-1', 'h=-2,r=1', 'r=0', 'd=0', 'r1=0,r2=0', 'd1=0,d2=0', '1,0,0', 'r=1,r1=1', 'r=1,r2=1', 'd=1,d1=1', 'd=1,d2=1', 'd=1,r=1', 'r1=1,d1=1', 'r2=1,d2=1', '1,1,d1=2', '1,1,1,d2=2', '1,2,r=1', '1,2,2,r=3',
                 'r1=1,d=2', 'r2=1,d=2', 'd1=2,r=1', 'd2=2,r=1', '1,1,d=3', 'd=1,r1=1,r2=1', 'r=1,d1=1,d2=1', '1,2,3,true,r=1', '1,2,3,true,d=1'],
    'polyhedron': ['points=[[0,0,0],[5,0,0],[0,5,0],[0,0,5]]', '[[0,0,0],[5,0,0],[0,5,0],[0,0,5]],[[0,1,2],[1,0,3],[2,1,3],[0,2,3]],triangles=[[0,1,2],[1,0,3],[2,1,3],[0,2,3]]',
                   'points=[[0,0,0],[5,0,0],[0,5,0],[0,0,5]],triangles=[[0,1,2],[1,0,3],[2,1,3],[0,2,3]],faces=[[0,1,2],[1,0,3],[2,1,3],[0,2,3]]',
                   '[[0,0,0],[5,0,0],[0,5,0],[0,0,5]],[[0,1,2],[1,0,3],[2,1,3]]', '[[0,0,0],[5,0,0],[0,5,0],[0,0,5]],[]'],
    'linear_extrude': ['0', '-1', 'height=0,center=true', '1,slices=0', '1,scale=-1', '1,scale=[1,-1]', '1,scale=[0,1]', '1,scale=[1,0]'],
    'rotate_extrude': ['angle=0', 'angle=-10'],
    'projection': ['', 'cut=false', 'convexity=2', 'cut=0'],
    'import': ['"nofile.stl"', '"x.foo"', '""', 'file="./nodir/x.stl"'],
    'rotate': ['[1,2,3],[0,0,1]', 'a=[1,2,3],v=[1,0,0]', 'v=[1,0,0],a=[1,2,3]', 'v=[1,0,0]'],
}


def wrap(f, args, ml=False):
    """statement text; ml: one argument per line, line of functor is 3"""
    name = f.strip()
    P, N, body, dim = F[f]
    sep = ',\n' if ml else ', '
    t = name + '(' + ('\n' if ml and args else '') + sep.join(args) + ') ' + (body or ';')
    if dim == 2:
        t = 'linear_extrude(2)\n' + ('\n' if ml else '') + t
    elif ml:
        t = '\n\n' + t
    return t


def outs(exe, src):
    """dump of the 3D stage and the output"""
    q, _ = hob.hob(exe, src, ['--dump-csg3'], files={'x.stl': TET})
    return q


def values(r, f):
    P, N, body, dim = F[f]
    V = {}
    for p in P + N:
        V[p.name] = p.good(r) if p.default is None or r.random() < .6 else p.default
    return V


def dia(r, f, V, ex):
    """round things: replace radii by the other notations; V -> list of (name, text) for the radius"""
    if f in ('sphere', 'circle'):
        v = V.pop('r')
        if v == F[f][0][0].default and r.random() < .5:
            return []
        return [r.choice([('r', v), ('d', n(2 * float(v)))])]
    if f == 'cylinder':
        a, b = V.pop('r1'), V.pop('r2')
        if a == b and r.random() < .6:
            return [] if a == '1' and r.random() < .4 else [r.choice([('r', a), ('d', n(2 * float(a)))])]
        o = []
        for k, v in ((1, a), (2, b)):
            if v == '1' and r.random() < .5:
                continue
            o.append(r.choice([('r%d' % k, v), ('d%d' % k, n(2 * float(v)))]))
        return o
    return []


def _ways(a):
    exe, seed = a
    r = random.Random(seed)
    f = r.choice(sorted(F))
    P, N, body, dim = F[f]
    V = values(r, f)
    if f == 'cylinder' and r.random() < .4:
        V['r2'] = V['r1']
    full = wrap(f, ['%s=%s' % (p.name, V[p.name]) for p in P + N if not p.neutral or p.default is None or r.random() < .3])
    W = dict(V)
    k = r.randint(0, len(P))
    posn, named = [], []
    mode = f in ('sphere', 'circle', 'cylinder') and r.random() < .6
    if mode:
        k = min(k, 1 if f == 'cylinder' else 0)
    for p in P[:k]:
        v = W.pop(p.name)
        posn.append(p.alt(r, v) if p.alt else v)
    if mode:
        named += dia(r, f, W, posn)
    rest = [p for p in P[k:] + N if p.name in W]
    for p in rest:
        v = W[p.name]
        if p.neutral:
            if p.default is None:       # required but without influence
                named.append((p.name, v))
            elif r.random() < .3:
                named.append((p.name, p.good(r)))
            continue
        if p.default is not None and v == p.default and r.random() < .7:
            continue
        named.append((p.name, p.alt(r, v) if p.alt else v))
    if f == 'polyhedron' and r.random() < .5:
        named = [('triangles' if x == 'faces' else x, v) for x, v in named]
    warn = r.random() < .15
    if warn:
        named.append((r.choice(['foo', 'Center', '$fx', 'h0', 'radius', '$t']), r.choice(['1', '"x"', 'undef', '[1,2]', '[0:1]', 'true'])))
    r.shuffle(named)
    call = wrap(f, posn + ['%s=%s' % x for x in named])
    A, B = outs(exe, full), outs(exe, call)
    k = hob.crash_kind(A) or hob.crash_kind(B)
    if k:
        return ('died', '%s\n%s\n%s\n%s' % (k, full, call, B.etext[-500:]), call), call, f
    if A.rc != 0 or B.rc != 0:
        return ('rejected', 'status %s %s\n%s\n%s\n%s' % (A.rc, B.rc, full, call, (A.etext + B.etext)[-500:]), call), call, f
    if A.out != B.out:
        return ('meaning', 'two ways to write the call differ\n%s\n%s\n%s\n%s' % (full, call, A.out[:600].decode(), B.out[:600].decode()), call), call, f
    if warn != (b'Warning' in B.err):
        return ('warning', 'unknown parameter: %s\n%s' % (B.etext[-300:], call), call), call, f
    return None, call, f


def _wrong(a):
    exe, seed = a
    r = random.Random(seed)
    f = r.choice(sorted(F))
    P, N, body, dim = F[f]
    V = values(r, f)
    al = P + N
    k = r.randrange(7)
    args, line = None, None
    if k == 6:          # radii and diameters of the same thing
        f = r.choice(['cylinder', 'cylinder', 'sphere', 'circle'])
        P, N, body, dim = F[f]
        if f == 'cylinder':
            ks = r.sample(['r', 'd', 'r1', 'r2', 'd1', 'd2'], r.choice([2, 2, 2, 3]))
            args = ['h=%s' % pos(r)] if r.random() < .5 else []
        else:
            ks, args = ['r', 'd'], []
        r.shuffle(ks)
        for x in ks:
            args.append('%s=%s' % (x, pos(r)))
        if f != 'cylinder' and r.random() < .5:
            args = [pos(r), 'd=%s' % pos(r)]
        if f == 'cylinder' and ks[0] in ('r1', 'r2') and r.random() < .5:
            args = [pos(r)] * (2 if ks[0] == 'r1' else 3) + args[-len(ks) + 1:]
            if ks[0] == 'r2':
                ks.append('r1')
        if r.random() < .3:
            args.append('$fn=%d' % r.randint(3, 9))
        if f == 'cylinder' and not ((set(ks) & {'r', 'd'}) or {'r1', 'd1'} <= set(ks) or {'r2', 'd2'} <= set(ks)):
            src = wrap(f, args, True)
            q, d = hob.hob(exe, src, [], out='o.stl')
            return (('rejected', '%s: status %s\n%s' % (src, q.rc, q.etext[-300:]), src) if q.rc else None), src, f
        if len(set(a.split('=')[0] for a in args if '=' in a)) < len([a for a in args if '=' in a]) or (len(args) and any('=' not in a for a in args) and any(a.split('=')[0] in ('r1', 'h') for a in args)):
            return None, None, f    # given twice: not judged
        what = 'radius and diameter'
    given = [p for p in al if p.default is None or r.random() < .4]
    if k == 6:
        pass
    elif k <= 1:          # a value of the wrong type
        c = [p for p in al if p.bad]
        p = r.choice(c)
        b = r.choice(p.bad)
        if p not in given:
            given.append(p)
        # positional as far as possible, or named
        m = 0
        while m < len(P) and P[m] in given and r.random() < .6:
            m += 1
        rest = [q for q in given if q not in P[:m]]
        r.shuffle(rest)
        L = P[:m] + rest
        args = [('' if i < m else q.name + '=') + (b if q is p else V[q.name]) for i, q in enumerate(L)]
        line = 4 + L.index(p)
        what = '%s=%s' % (p.name, b)
    elif k == 2:        # required parameter missing
        c = [p for p in al if p.default is None]
        if not c:
            return None, None, f
        p = r.choice(c)
        L = [q for q in given if q is not p]
        r.shuffle(L)
        args = ['%s=%s' % (q.name, V[q.name]) for q in L]
        line = 3
        what = 'without ' + p.name
        if not p.name or f == 'polyhedron' and p.name == 'faces':
            what += ' (no faces)'
    elif k == 3:        # one value too many
        args = [V[p.name] for p in P] + [r.choice(['1', 'true', '"x"', '[1,2]', 'undef', '0', '5.5'])]
        line = 3 + len(args)
        what = 'surplus value'
        if f.strip() == 'rotate' and f != 'rotate':
            return None, None, f
    elif k == 4:        # value without name after a name
        if not al:
            return None, None, f
        m = r.randint(0, len(P))
        q = r.choice((P + N)[m:] or P)
        args = [V[p.name] for p in P[:m]] + ['%s=%s' % (q.name, V[q.name])] + [V[p.name] for p in P[m:] if p is not q][:1]
        if len(args) < m + 2:
            args.append(r.choice(['1', 'true', '[1,2,3]']))
        line = 3 + len(args)
        what = 'value after name'
    else:
        if f not in WHOLE:
            return None, None, f
        what = r.choice(WHOLE[f])
        args = [what] if what else []
        line = None
    src = wrap(f, args, True)
    q, d = hob.hob(exe, src, [], out='o.stl', files={'x.stl': TET})
    if q.rc != 1 or not q.err.startswith(b'm.scad:') and b'Error' not in q.err:
        return ('accepted', '%s with %s: status %s\n%s\n%s' % (f, what, q.rc, src, q.etext[-300:]), src), src, f
    m = re.match(r'(?:m\.scad:\d+:\d+: Warning.*\n(?:.*\n)*?)?m\.scad:(\d+):(\d+): Error: ', q.etext)
    if not m:
        return ('place', '%s with %s: no place is named\n%s\n%s' % (f, what, src, q.etext[-300:]), src), src, f
    l = int(m.group(1))
    if l < 3 and not (dim == 2 and k > 4) or l > src.count('\n') + 1 or (line and l not in (line, 3)) or (line and k in (0, 3, 4) and what not in SEMANTIC and f != 'rotate' and l != line):
        return ('place', '%s with %s: reported in line %d, expected %s\n%s\n%s' % (f, what, l, line, src, q.etext[-300:]), src), src, f
    return None, src, f


SEMANTIC = set('m=' + x for x in SINGULAR) | {'v=[0,0,0]', 'v=[0,0]', 'v=[0,1,1]', 'v=[1,0]', 'v=[1,1,0]', 'v=0', 'cut=false', 'cut=0'}


def run():
    chk = hob.Check('P21', rule='calls of every functor written in random documented ways (positional, named in any order, defaults left out, other notations of the same value) whose 3D stage is compared with '
                    'that of the fully named call; faulty calls that must be rejected in the right line; counts per distinct text')
    exe = hob.build('plain')
    for fn, lab, cnt in ((_ways, 'ways', chk.n(3000, 100000)), (_wrong, 'wrong', chk.n(3500, 100000))):
        for b, ident, f in hob.pmap(fn, [(exe, chk.seed * 100003 + i) for i in range(cnt)], chunk=8):
            if ident is None:
                continue
            chk.case((lab, ident))
            chk.stat(lab)
            chk.stat('%s_%s' % (lab, f.strip()))
            if b:
                chk.violation(b[0] + '-' + f.strip(), b[1], {'m.scad': b[2]})
    chk.assumptions += ['not judged: truth values given as numbers and numbers as truth values, the same parameter given twice, arguments of functors without parameters']
    chk.finish(chk.n(3000, 60000))


if __name__ == '__main__':
    main(run)
