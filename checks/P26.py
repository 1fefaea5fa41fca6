"""Boolean algebra laws between whole models (metamorphic)."""
from common import main, hob
import outp, gen, models, modelcmp
import geom as g
import copy, random
import numpy as np

UN = ('union', 'group')


def op(n):
    """'+', '&', '-' or None for nodes which are pure operators"""
    if type(n) is not g.Rec or len(n.kids) < 1:
        return None
    return {'union': '+', 'group': '+', 'intersection': '&', 'difference': '-'}.get(n.name)


def R(name, *k):
    return g.Rec(name, list(k))


def skew(n):
    """an extrusion whose sides are not flat: the corners inside an outline's straight edges, which
    depend on how the outline was combined, shape these sides, so its 2D children stay as they are"""
    if not hasattr(n, 'h') or not getattr(n, 'kids', None) or n.kids[0].dim != 2:
        return False
    if getattr(n, 'twist', None):
        return True
    sc = getattr(n, 'sc', None)
    return isinstance(sc, (list, tuple)) and len(set(sc)) > 1


def rewrite(n, r, log):
    """one equivalent form of the node"""
    o = op(n)
    U = r.choice(UN)
    laws = ['wrap', 'idem', 'xform', 'demorgan-empty']
    k = list(n.kids) if getattr(n, 'kids', None) else []
    if o in ('+', '&') and len(k) > 1:
        laws += ['permute', 'permute', 'assoc', 'assoc', 'absorb']
    if o == '&' and len(k) > 1 and any(op(x) == '+' and len(x.kids) > 1 for x in k):
        laws += ['distr'] * 3
    if o == '-' and len(k) > 1:
        laws += ['sub-union', 'sub-chain', 'sub-permute']
        if op(k[0]) == '+' and len(k[0].kids) > 1:
            laws += ['sub-distr'] * 2
        if any(op(x) == '&' and len(x.kids) > 1 for x in k[1:]):
            laws += ['sub-inter'] * 2
        if any(op(x) == '-' and len(x.kids) > 1 for x in k[1:]):
            laws += ['sub-sub'] * 2
    if isinstance(n, g.Xf) and k:
        laws += ['push', 'push', 'push']
    if type(n) is g.LinExt and len(k) > 1 and not skew(n):
        laws += ['ext'] * 3
    l = r.choice(laws)
    log.append(l)
    c = copy.copy(n)
    if l == 'wrap':
        return R(r.choice(['union', 'group', 'intersection', 'difference']), n)
    if l == 'idem':
        return R(r.choice(['union', 'intersection', 'group']), n, n)
    if l == 'demorgan-empty':
        # A = A - (A - A), A = A + (A - A)
        return r.choice([lambda: R('difference', n, R('difference', n, n)), lambda: R(U, n, R('difference', n, n)),
                         lambda: R(U, R('difference', n, n), n)])()
    if l == 'xform':
        k = r.randrange(4)
        if n.dim == 2:
            if k == 0:
                v = [round(r.uniform(-5, 5), 2) for _ in range(2)]
                return g.translate(v, g.translate([-x for x in v], n))
            if k == 1:
                a = r.choice([30., 90., 12.5])
                return g.rotate(a, g.rotate(-a, n))
            if k == 2:
                return g.mirror([1., 0.], g.mirror([1., 0.], n))
            return g.scale([2., .5], g.scale([.5, 2.], n))
        if k == 0:
            v = [round(r.uniform(-5, 5), 2) for _ in range(3)]
            return g.translate(v, g.translate([-x for x in v], n))
        if k == 1:
            a, v = r.choice([30., 90., 12.5, 180.]), r.choice([[0., 0., 1.], [1., 0., 0.], [1., 2., 3.]])
            return g.rotate_av(a, v, g.rotate_av(-a, v, n))
        if k == 2:
            v = r.choice([[1., 0., 0.], [0., 1., 1.], [1., -1., .5]])
            return g.mirror(v, g.mirror(v, n))
        return g.scale([2., .5, -1.], g.scale([.5, 2., -1.], n))
    if l == 'permute':
        r.shuffle(k)
        c.kids = k
        return c
    if l == 'assoc':
        i = r.randrange(len(k) - 1)
        j = r.randint(i + 2, len(k))
        name = n.name if o == '&' else U
        c.kids = k[:i] + [R(name, *k[i:j])] + k[j:]
        if r.random() < .3 and op(k[0]) == o:
            c.kids = list(k[0].kids) + k[1:]
        return c
    if l == 'absorb':
        # A + (A & B) = A,  A & (A + B) = A   with A = k0
        b = k[1]
        a = k[0]
        x = R(U, a, R('intersection', a, b)) if r.random() < .5 else R('intersection', R(U, b, a), a)
        c.kids = [x] + k[1:]
        return c
    if l == 'distr':
        i = r.choice([i for i, x in enumerate(k) if op(x) == '+' and len(x.kids) > 1])
        return R(U, *[R('intersection', *(k[:i] + [y] + k[i+1:])) for y in k[i].kids])
    if l == 'sub-union':
        return R('difference', k[0], R(U, *k[1:]))
    if l == 'sub-chain':
        i = r.randint(1, len(k) - 1)
        return R('difference', R('difference', *k[:i]), *k[i:])
    if l == 'sub-permute':
        t = k[1:]
        r.shuffle(t)
        return R('difference', k[0], *t)
    if l == 'sub-distr':
        return R(U, *[R('difference', y, *k[1:]) for y in k[0].kids])
    if l == 'sub-inter':
        i = r.choice([i for i, x in enumerate(k) if i and op(x) == '&' and len(x.kids) > 1])
        rest = k[1:i] + k[i+1:]
        return R(U, *[R('difference', k[0], y, *rest) for y in k[i].kids])
    if l == 'sub-sub':
        # A - (B - C) = (A - B) + (A & C)
        i = r.choice([i for i, x in enumerate(k) if i and op(x) == '-' and len(x.kids) > 1])
        rest = k[1:i] + k[i+1:]
        a = k[0] if not rest else R('difference', k[0], *rest)
        b = k[i].kids
        return R(U, R('difference', a, b[0]), R('intersection', a, R(U, *b[1:]) if len(b) > 2 else b[1]))
    if l == 'push':
        # T { A B } = union { T A, T B };  T(A op B) = T A op T B
        if len(k) == 1 and op(k[0]):
            return R(k[0].name, *[_with(n, [y]) for y in k[0].kids])
        return R(U, *[_with(n, [y]) for y in k])
    if l == 'ext':
        return R(U, *[_with(n, [y]) for y in k])
    raise AssertionError(l)


def _with(n, kids):
    m = copy.copy(n)
    m.kids = kids
    return m


def size(n):
    return 1 + sum(size(k) for k in (getattr(n, 'kids', None) or []))


def walk(n, r, log, p):
    kids = getattr(n, 'kids', None)
    if kids and not isinstance(n, g.Hull) and not skew(n):
        n = _with(n, [walk(k, r, log, p) for k in kids])
    if isinstance(n, g.Block):
        if r.random() < .4 and len(n.kids) > 1:
            log.append('top')
            k = list(n.kids)
            r.shuffle(k)
            n = g.Block(k if r.random() < .5 else [R(r.choice(UN), *k)])
        return n
    if r.random() < p and size(n) < 60:
        n = rewrite(n, r, log)
    return n


def base(G, r):
    k = r.randrange(4)
    if k == 0:
        return g.Block([G.tree3(r.choice([1, 2, 2])) for _ in range(r.choice([1, 2, 3]))])
    if k == 1:
        return g.Block([g.LinExt([G.tree2(2) for _ in range(r.choice([1, 2, 3]))], G.pos(1, 5))])

    def box():
        return g.translate([float(r.randint(0, 4)) for _ in range(3)], g.cube([float(r.randint(1, 4)) for _ in range(3)]))

    def tree(d):
        if d == 0:
            return box() if r.random() < .8 else G.leaf3()
        return r.choice([g.union, g.difference, g.difference, g.intersection, g.group])(*[tree(d - 1) for _ in range(r.randint(2, 3))])
    return g.Block([tree(r.randint(1, 3))])


def _one(a):
    exe, seed = a
    r = random.Random(seed)
    G = gen.Gen(r)
    n = base(G, r)
    log = []
    m = n
    for _ in range(20):
        m = walk(n, r, log, r.choice([.15, .3, .5]))
        if log and size(m) < 400:
            break
        log = []
    if not log:
        return None
    try:
        bb = n.bbox(g.Ctx(), g.I4)
    except Exception:
        return None
    lo, hi = float(bb[0][2]), float(bb[1][2])
    h = hi - lo
    step = round(max(.05, h / 5), 5)
    args = ['--step=%r' % step, '--min=%r' % round(lo - step * r.uniform(.1, .9), 5), '--max=%r' % round(hi + step, 4)]
    info = dict(a=n.emit(), b=m.emit(), args=args, log=log, kind=None, msg=None, nl=0)
    sl = []
    for src in (info['a'], info['b']):
        q, data = hob.hob(exe, src, args, out='o.stl')
        ck = hob.crash_kind(q)
        if ck or q.rc != 0 or data is None:
            info.update(kind='crash-' + ck if ck else 'rejected', msg='rc=%s %s' % (q.rc, q.etext[-300:]))
            return info
        try:
            sl.append({round(s['z0'], 6): s for s in outp.slabs(outp.stl_ascii(data)[1])})
        except outp.Bad as e:
            info.update(kind='malformed', msg=str(e))
            return info
    E = np.zeros((0, 3, 2))
    for z in sorted(set(sl[0]) | set(sl[1])):
        A, B = [s[z]['bottom'][:, :, :2] if z in s else E for s in sl]
        info['nl'] += 1
        msg = modelcmp.same_region(A, B, r.random(), n=150)
        if msg:
            info.update(kind='law', msg='z=%r: %s' % (z, msg))
            return info
    return info


def run():
    chk = hob.Check('P26', rule='pairs of models equivalent by random chains of algebraic laws applied at random places; counts when at least one layer was compared')
    exe = hob.build('plain')
    for x in hob.pmap(_one, [(exe, chk.seed * 1000033 + i) for i in range(chk.n(2400, 60000))], chunk=10):
        if x is None:
            continue
        chk.case((x['a'], x['b']), x['nl'] > 0)
        chk.stat('layers', x['nl'])
        for l in x['log']:
            chk.stat('law_' + l)
        if x['nl'] and len(x['b']) < 700:
            chk.sample(x['a'] + '  == (%s)\n' % ','.join(x['log']) + x['b'])
        if x['kind']:
            chk.violation(x['kind'], '%s\nlaws: %s\nargs: %s\n%s\n--- versus\n%s' % (x['msg'], x['log'], ' '.join(x['args']), x['a'], x['b']),
                          {'a.scad': x['a'], 'b.scad': x['b']})
    chk.assumptions += ['points within 1e-3 mm of an outline are not judged',
                        'no law is applied inside a twisted or unevenly scaled extrusion, whose sides depend on the corners within the straight edges of its outline']
    chk.finish(chk.n(1500, 35000))


if __name__ == '__main__':
    main(run)
