"""Modifiers * ! # % select what is built."""
from common import main, hob
import e2e, gen, geom as g
import outp, modelcmp
import copy, random, re
import numpy as np


def nodes(n, chain=()):
    """all (node, path of ancestors)"""
    yield n, chain
    for k in getattr(n, 'kids', None) or []:
        yield from nodes(k, chain + (n,))


def clone(n):
    m = copy.copy(n)
    if getattr(n, 'kids', None) is not None:
        m.kids = [clone(k) for k in n.kids]
    return m


def prune(n):
    """what remains after leaving out the objects marked * and %, and what is ignored because it is empty"""
    if '*' in n.mod or '%' in n.mod:
        return None
    if getattr(n, 'kids', None) is None:
        return n
    k = [x for x in (prune(y) for y in n.kids) if x is not None]
    if not k:
        return None
    m = copy.copy(n)
    m.kids = k
    return m


def tree(G, r, deep):
    k = r.random()
    if k < .3:
        return G.tree3(deep)
    if k < .5:
        n = g.difference(*[G.tree3(r.randint(0, 1)) for _ in range(r.randint(2, 5))])
    elif k < .6:
        n = g.intersection(*[g.translate([G.f(-1, 1) for _ in range(3)], g.cube(G.pos(6, 9), True)) for _ in range(r.randint(2, 4))])
    elif k < .75:
        n = g.LinExt([G.tree2(r.randint(1, 2)) for _ in range(r.randint(1, 3))], G.pos(1, 6))
    else:
        n = g.group(*[G.tree3(r.randint(0, 1)) for _ in range(r.randint(2, 4))])
    return G.xf([n]) if r.random() < .5 else n


def model(G, r):
    """text model with marks, and the unmarked model that is built"""
    top = g.Block([tree(G, r, r.choice([1, 2, 2])) for _ in range(r.choice([1, 2, 3]))])
    top = clone(top)
    all_ = [(n, c) for n, c in nodes(top) if c]
    root = None
    if r.random() < .4:
        cand = [(n, c) for n, c in all_ if n.dim == 3 and all(a.dim == 3 for a in c)]
        root, chain = r.choice(cand)
        root.mod += '!'
    elif r.random() < .1:
        # a first child of a difference
        pass
    p = r.choice([.05, .1, .2])
    forb = ([root] + list(chain)) if root is not None else []
    for n, c in all_:
        if r.random() < p:
            m = r.choice('**%#')
            if any(n is x for x in forb):
                m = '#'
            n.mod = ''.join(r.sample([n.mod, m], 2)) if n.mod else m
            if r.random() < .1 and m != '!':
                n.mod += r.choice('#' + m)
    if root is None:
        want = prune(top)
        chain = ()
    else:
        w = prune(root)
        want = g.Block([w]) if w is not None else None
    return top, want, root, chain


def mk(G, r, i):
    while True:
        top, want, root, chain = model(G, r)
        if want is not None:
            break
    args = r.choice([[], [], ['--js-keep-ctxt'], ['--js-no-keep-ctxt']])
    return want, dict(src=top.emit(), args=args)


def _xform(a):
    """--js-keep-ctxt: the scene shows the marked object in its original place"""
    exe, seed = a
    r = random.Random(seed)
    G = gen.Gen(r)
    while True:
        top, want, root, chain = model(G, r)
        if want is not None and root is not None:
            break
    src = top.emit()
    info = dict(src=src, kind=None, msg=None, n=0)
    try:
        bb = want.bbox(g.Ctx(), g.I4)
    except Exception:
        return None
    h = float(bb[1][2] - bb[0][2])
    q, data = hob.hob(exe, src, ['--js-keep-ctxt', '--step=%r' % round(h / 3.3, 4)], out='o.js')
    if q.rc != 0 or data is None:
        info.update(kind='rejected', msg=q.etext[-300:])
        return info
    M = np.eye(4)
    for c in chain:
        if isinstance(c, g.Xf):
            M = M @ c.m
    try:
        ps = outp.js_pushes(data.decode())
    except outp.Bad as e:
        info.update(kind='malformed', msg=str(e))
        return info
    for p in ps:
        if p['xform'] is None:
            info.update(kind='xform', msg='no xform')
            return info
        v = np.array([float(x) for x in p['xform'].strip('[] ').split(',')]).reshape(4, 4).T
        v[:3, 3] *= 1000
        info['n'] += 1
        if np.abs(v - M).max() > 2e-4 * max(1, np.abs(M).max()):
            info.update(kind='xform', msg='xform is\n%s\nexpected\n%s' % (v, M))
            return info
    return info


def run():
    chk = hob.Check('P23', rule='random models with random marks at any depth; the oracle is the model of the remaining unmarked parts; '
                    'counts when more than 20 sample points were decided to be inside')
    exe = hob.build('plain')
    e2e.batch(chk, exe, mk, chk.n(2600, 50000), nlay=5, nrand=80, nnear=80)
    for x in hob.pmap(_xform, [(exe, chk.seed * 1000033 + i) for i in range(chk.n(500, 10000))], chunk=10):
        if x is None:
            continue
        chk.case(('xform', x['src']), x['n'] > 0)
        chk.stat('xforms', x['n'])
        if x['kind']:
            chk.violation(x['kind'], x['msg'] + '\n' + x['src'], {'model.scad': x['src']})
    # two marks ! are an error
    for src in ('!cube(1);!cube(2);', 'union(){!cube(1);translate([0,0,3])!sphere(1,$fn=5);}', '!union(){!cube(1);}'):
        q, data = hob.hob(exe, src, out='o.stl')
        chk.case(src, True)
        if q.rc != 1 or not q.err:
            chk.violation('two-roots', 'accepted: rc=%s\n%s' % (q.rc, src), {'model.scad': src})
    chk.assumptions += ['an object marked ! is taken out of its surroundings: transformations around it do not apply (only --js-keep-ctxt reports them)',
                        'marks * and % around an object marked !, and ! inside 2D objects, are not judged']
    chk.finish(chk.n(1800, 30000))


if __name__ == '__main__':
    main(run)
