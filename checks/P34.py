"""PostScript: an interpreter of the operators used, compared with the layers of the STL output."""
from common import main, hob
import outp, models, modelcmp
import random, re
import numpy as np

W, H, M = 595.0, 842.0, 56.0
MM = 72 / 25.4


class Bad(Exception):
    pass


def interpret(text):
    """-> (comments: list, pages: list of list of objects)
    objects: ('fill', points, rgb), ('stroke', points, rgb, width, closed), ('dot', (x, y, r), rgb), ('show', (x, y), text)"""
    if not text.startswith('%!PS-Adobe-3.0\n'):
        raise Bad('no PostScript header')
    if not text.endswith('%%EOF\n'):
        raise Bad('no %%EOF at the end')
    com = []
    pages = []
    cur = None
    rest = []
    st = dict(rgb=(0, 0, 0), lw=1.0, path=None, pos=None)
    stack, saves, gs = [], [], []

    def need(n):
        if len(stack) < n:
            raise Bad('stack underflow')
        a = stack[len(stack) - n:]
        del stack[len(stack) - n:]
        return a

    for line in text.split('\n'):
        if line.startswith('%'):
            if line.startswith('%%'):
                com.append((line, len(pages)))
            if line.startswith('%%Page:'):
                if cur is not None:
                    raise Bad('page within a page')
                cur = []
                pages.append(cur)
                st = dict(rgb=(0, 0, 0), lw=1.0, path=None, pos=None)
            continue
        for t in re.findall(r'\((?:[^()\\]|\\.)*\)|/\w+|\S+', line):
            if re.fullmatch(r'-?(\d+\.?\d*|\.\d+)([eE][-+]?\d+)?', t):
                stack.append(float(t))
            elif t[0] in '(/':
                stack.append(t)
            elif cur is None:
                raise Bad('%s outside of a page' % t)
            elif t == 'newpath':
                st['path'] = []
            elif t == 'moveto':
                p = tuple(need(2))
                if st['path'] is None:
                    st['path'] = []
                st['path'].append(dict(p=[p], closed=False))
                st['pos'] = p
            elif t == 'lineto':
                if not st['path']:
                    raise Bad('lineto without a point')
                st['path'][-1]['p'].append(tuple(need(2)))
            elif t == 'closepath':
                if not st['path']:
                    raise Bad('closepath without a path')
                st['path'][-1]['closed'] = True
            elif t == 'arc':
                x, y, r, a, b = need(5)
                if (a, b) != (0, 360):
                    raise Bad('partial arc')
                if st['path'] is None:
                    raise Bad('arc without newpath')
                st['path'].append(dict(arc=(x, y, r), closed=False))
            elif t == 'setrgbcolor':
                c = tuple(need(3))
                if not all(0 <= x <= 1 for x in c):
                    raise Bad('colour %r' % (c,))
                st['rgb'] = c
            elif t == 'setgray':
                st['rgb'] = tuple(need(1)) * 3
            elif t in ('setlinecap', 'setlinejoin'):
                need(1)
            elif t == 'setlinewidth':
                st['lw'] = need(1)[0]
            elif t in ('fill', 'stroke'):
                if not st['path']:
                    raise Bad('%s without a path' % t)
                for q in st['path']:
                    if 'arc' in q:
                        cur.append(('dot', q['arc'], st['rgb'], t))
                    elif t == 'fill':
                        cur.append(('fill', q['p'], st['rgb']))
                    else:
                        cur.append(('stroke', q['p'], st['rgb'], st['lw'], q['closed']))
                st['path'] = None
            elif t == 'gsave':
                gs.append(dict(st, path=[dict(q) for q in st['path']] if st['path'] is not None else None))
            elif t == 'grestore':
                if not gs:
                    raise Bad('grestore')
                st = gs.pop()
            elif t == 'save':
                saves.append(dict(st))
            elif t == 'restore':
                if not saves:
                    raise Bad('restore')
                st = saves.pop()
            elif t == 'findfont':
                need(1)
                stack.append('font')
            elif t == 'scalefont':
                need(2)
                stack.append('font')
            elif t == 'setfont':
                if need(1) != ['font']:
                    raise Bad('setfont')
            elif t == 'show':
                x, = need(1)
                if st['pos'] is None or not isinstance(x, str) or x[0] != '(':
                    raise Bad('show')
                cur.append(('show', st['pos'], x[1:-1]))
                st['path'] = None
            elif t == 'showpage':
                if saves or gs or stack:
                    raise Bad('unbalanced page')
                cur = None
            else:
                raise Bad('unknown operator %r' % t[:40])
    if cur is not None or stack or saves or gs:
        raise Bad('unbalanced at the end')
    return com, pages


def mat_rot(ax, deg):
    a = np.radians(deg)
    c, s = np.cos(a), np.sin(a)
    m = np.eye(4)
    i, j = [(1, 2), (2, 0), (0, 1)][ax]
    m[i, i] = m[j, j] = c
    m[i, j], m[j, i] = -s, s
    return m


def full_bb(node, ctx):
    import geom as g
    return None


def colour(r):
    c = [r.choice([0, 255, r.randint(0, 255)]) for _ in range(3)]
    return r.choice(['%02x%02x%02x', '%02X%02X%02X', '0x%02x%02x%02x']) % tuple(c), tuple(x / 255 for x in c)


def match(A, B, tol):
    """two sets of point tuples (n,k,2), each tuple up to rotation/reversal and the whole up to order"""
    if len(A) != len(B):
        return '%d instead of %d' % (len(A), len(B))
    if not len(A):
        return None

    def key(T):
        c = T.mean(1)
        return c
    from scipy.spatial import cKDTree
    from scipy.sparse import csr_matrix
    from scipy.sparse.csgraph import maximum_bipartite_matching
    ca, cb = key(A), key(B)
    tr = cKDTree(cb)
    I, J = [], []
    for i in range(len(A)):
        for j in tr.query_ball_point(ca[i], tol * 2):
            d = np.abs(A[i][:, None, :] - B[j][None, :, :]).max(2)
            if (d.min(0) <= tol).all() and (d.min(1) <= tol).all():
                I.append(i)
                J.append(j)
    mt = maximum_bipartite_matching(csr_matrix((np.ones(len(I)), (I, J)), shape=(len(A), len(B))), perm_type='column')
    if (mt < 0).any():
        return 'no counterpart of %s' % A[np.nonzero(mt < 0)[0][0]].round(3).tolist()
    return None


def one(a):
    exe, seed = a
    for k in range(6):
        m = models.source(seed * 6 + k, large=.1)
        if m is not None:
            break
    else:
        return None
    r = random.Random(seed * 17 + 3)
    lo, hi = float(m['bb'][0][2]), float(m['bb'][1][2])
    step = round(max(.05, (hi - lo) / r.choice([1, 2, 4])), 4)
    if seed % 40 == 7:
        # many pages
        step = round(max(.04, (hi - lo) / r.randint(60, 400)), 4)
    args = m['args'] + ['--step=%r' % step, '--min=%r' % round(lo + step * r.uniform(-.9, .4), 4)]
    if r.random() < .3:
        args.append('--max=%r' % round(hi + step * r.uniform(0, 2), 4))
    info = dict(src=m['src'], files=m['files'], kind=None, msg=None, n=dict())
    po = []
    X = np.eye(4)
    fit = None
    opt = dict(tri=True, path=True, mark=True, single=False, lw=.4, cpath=(0, 0, 0), ctri=(0, .6, .6), cfill=(.8, .8, .8), cvertex=(1, 0, 0), cmark=(0, 0, 1))
    mode = r.choice(['tri', 'tri', 'both'])
    po += dict(tri=[], notri=['--no-tri'], both=['--path'])[mode]
    for _ in range(r.choice([0, 1, 2, 3, 5])):
        k = r.randrange(13)
        if k == 0:
            po.append('--ps-no-tri'); opt['tri'] = False
        elif k == 1:
            po.append('--ps-no-path'); opt['path'] = False
        elif k == 2:
            po.append('--ps-no-mark'); opt['mark'] = False
        elif k == 3:
            po.append('--ps-no-wire'); opt.update(tri=False, path=False, mark=False)
        elif k == 4:
            po.append('--ps-single-page'); opt['single'] = True
        elif k in (5, 6, 7):
            d = r.choice([90, -90, 180, 30, 45, round(r.uniform(-180, 180), 2)])
            po.append('--ps-rot-%s=%r' % ('xyz'[k - 5], d))
            X = mat_rot(k - 5, d) @ X
        elif k == 8:
            s = r.choice([.5, 2, .1, 3.25])
            po.append('--ps-scale=%r' % s)
            X = np.diag([s, s, s, 1]) @ X
        elif k == 9:
            fit = r.choice(['fit', 'max'])
            po.append('--ps-scale-' + fit)
        elif k == 10:
            w = r.choice([0.1, 1, 2.5, 0])
            po.append('--ps-line-width=%r' % w); opt['lw'] = w
        else:
            nm = r.choice(['path', 'tri', 'fill', 'vertex', 'mark'])
            t, c = colour(r)
            po.append('--ps-color-%s=%s' % (nm, t)); opt['c' + nm] = c
    pp = 0
    if r.random() < .15:
        pp = r.choice([1, 2, -1, .5])
        po.append('--ps-persp=%r' % pp)
        P = np.eye(4)
        P[3, 2] = pp / -1000.0
        X = P @ X
    info['args'] = args + po

    def bad(kind, msg):
        info.update(kind=kind, msg=msg)
        return info
    q, stl = hob.hob(exe, m['src'], args, files=m['files'], out='o.stl')
    if q.rc != 0:
        return bad('rejected', q.etext[-300:])
    q, ps = hob.hob(exe, m['src'], args + po, files=m['files'], out='o.ps')
    if q.rc != 0 or ps is None:
        return bad('failed', 'rc %s: %s' % (q.rc, q.etext[-300:]))
    try:
        S = outp.slabs(outp.stl_ascii(stl)[1])
        com, pages = interpret(ps.decode('latin-1'))
    except (Bad, outp.Bad) as e:
        return bad('malformed', '%s' % e)
    # structure
    c = [x[0] for x in com]
    pg = [x for x in c if x.startswith('%%Page:')]
    if pg != ['%%%%Page: %d %d' % (i + 1, i + 1) for i in range(len(pages))]:
        return bad('pages', 'page comments %r' % pg[:5])
    pc = [x for x in c if x.startswith('%%Pages:')]
    if len(pc) not in (1, 2) or (len(pc) == 2 and pc[0] != '%%Pages: (atend)') or pc[-1] != '%%%%Pages: %d' % len(pages):
        return bad('pages', '%r with %d pages' % (pc, len(pages)))
    bc = [x for x in c if x.startswith('%%BoundingBox:')]
    if len(bc) not in (1, 2) or (len(bc) == 2 and bc[0] != '%%BoundingBox: (atend)'):
        return bad('boundingbox', '%r' % bc)
    if '%%EndComments' not in c or '%%Trailer' not in c or c[-1] != '%%EOF' or c.index('%%EndComments') > c.index('%%Trailer') or (pg and c.index(pg[0]) < c.index('%%EndComments')):
        return bad('comments', '%r' % c[:10])
    info['n'] = dict(layers=len(S), pages=len(pages))
    if len(pages) != (1 if opt['single'] else len(S)):
        return bad('pages', '%d pages for %d layers' % (len(pages), len(S)))
    if not S:
        return info
    # the mapping to the page
    mul, ax, ay = MM, np.floor(W / 2), H / 2
    if fit:
        bb = m['bb'] if fit == 'fit' else None
        if bb is None:
            bb = getattr(m['node'], 'fullbb', lambda *_: None)(m['ctx'])
        if bb is not None:
            x0, y0, x1, y1 = bb[0][0], bb[0][1], bb[1][0], bb[1][1]
        else:
            fit = 'unknown'
    allp = []
    got = []
    if opt['single']:
        # bottom to top: split at the number of triangles or paths expected later
        objs = [o for o in pages[0] if o[0] != 'show']
    scales = {}

    def fwd(P, z):
        Q = np.concatenate([P, np.full(P.shape[:-1] + (1,), z), np.ones(P.shape[:-1] + (1,))], -1) @ X.T
        return Q[..., :2] / Q[..., 3:4], Q[..., 3]
    nfill = 0
    for i, s in enumerate(S):
        z = s['z0']
        T, w = fwd(s['bottom'][:, :, :2], z)
        if (np.abs(w) < .05).any():
            info['n']['skipped_w'] = 1
            return info
        if opt['single']:
            o = objs
            if mode != 'notri':
                fills = [x for x in o if x[0] == 'fill'][nfill:nfill + len(T)]
                nfill += len(T)
            else:
                fills = []
        else:
            o = [x for x in pages[i] if x[0] != 'show']
            lab = [x for x in pages[i] if x[0] == 'show']
            if len(lab) != 1 or not re.match(r'z=(\S+) zi=(\d+)$', lab[0][2]):
                return bad('label', '%r' % lab)
            if abs(float(lab[0][2].split()[0][2:]) - z) > 1e-5 * max(1, abs(z)):
                return bad('label', '%r on the page of z=%r' % (lab, z))
            fills = [x for x in o if x[0] == 'fill']
        F = np.array([x[1] for x in fills if len(x[1]) == 3]).reshape(-1, 3, 2)
        if mode == 'notri':
            if fills:
                return bad('notri', 'triangles with --no-tri')
        else:
            if any(len(x[1]) != 3 for x in fills):
                return bad('shape', 'a filled shape is no triangle')
            if any(np.abs(np.array(x[2]) - opt['cfill']).max() > 1e-5 for x in fills):
                return bad('colour', 'fill colours %r instead of %r' % (set(x[2] for x in fills), opt['cfill']))
        # solve for the scale if it is to fit: compare later
        got.append((z, T, F, o, s))
    if fit == 'unknown' or fit:
        # scale and place are read off the drawing and judged by what they are documented to do
        A = np.concatenate([t.reshape(-1, 2) for _, t, f, _, _ in got])
        if mode == 'notri':
            B = np.array([x[1][:2] for _, _, _, o, _ in got for x in o if x[0] == 'dot' and x[3] == 'fill']).reshape(-1, 2)
        else:
            B = np.concatenate([f.reshape(-1, 2) for _, t, f, _, _ in got])
        if not len(B):
            info['n']['nothing_drawn'] = 1
            return info
        ea, eb = A.max(0) - A.min(0), B.max(0) - B.min(0)
        k = int(np.argmax(ea))
        if ea[k] < 1e-3:
            return info
        mul = eb[k] / ea[k]
        ax, ay = (B.max(0) + B.min(0)) / 2 - mul * (A.max(0) + A.min(0)) / 2
        if np.array_equal(X, np.eye(4)) and fit in ('fit',):
            # the box of the added parts of the model fills the page less the margin
            sx, sy = (W - M) / (x1 - x0), (H - M) / (y1 - y0)
            e = min(sx, sy)
            # (the box known here may be larger than the one of the vertices)
            if mul < e * (1 - 2e-3) - 2e-3 / ea[k]:
                return bad('fit', 'scale %g instead of at least %g for the box %r..%r' % (mul, e, (x0, y0), (x1, y1)))
        if np.array_equal(X, np.eye(4)):
            if B[:, 0].min() < M / 2 - 1 or B[:, 0].max() > W - M / 2 + 1 or B[:, 1].min() < M / 2 - 1 or B[:, 1].max() > H - M / 2 + 1:
                return bad('fit', 'the drawing %s..%s leaves the page' % (B.min(0).tolist(), B.max(0).tolist()))
        info['n']['fitted'] = 1
    ext = []
    for z, T, F, o, s in got:
        T = T * mul + [ax, ay]
        big = max(1.0, np.abs(T).max())
        tol = big * 1e-5 + mul * 3e-4 * max(1, np.abs(X).max()) + 1e-3
        info['n']['triangles'] = info['n'].get('triangles', 0) + len(T)
        if mode != 'notri':
            e = match(T, F, tol)
            if e:
                return bad('region', 'z=%r: triangles: %s' % (z, e))
        if opt['single']:
            continue
        pts = np.unique(T.reshape(-1, 2).round(9), axis=0)
        dots = [x for x in o if x[0] == 'dot']
        strokes = [x for x in o if x[0] == 'stroke']
        D = np.array([x[1] for x in dots]).reshape(-1, 3)
        if not opt['path']:
            if dots:
                return bad('nopath', 'points with --ps-no-path')
        else:
            if any(np.abs(np.array(x[2]) - opt['cvertex']).max() > 1e-5 for x in dots):
                return bad('colour', 'vertex colours %r instead of %r' % (set(x[2] for x in dots), opt['cvertex']))
            from scipy.spatial import cKDTree
            if mode != 'notri':
                d1 = cKDTree(D[:, :2]).query(pts)[0] if len(D) else np.array([9e9])
                if d1.max() > tol * 2:
                    return bad('points', 'z=%r: a vertex of the layer is not drawn' % z)
                d1 = cKDTree(pts).query(D[:, :2])[0]
                if d1.max() > tol * 2:
                    return bad('points', 'z=%r: a point is drawn that is no vertex of the layer' % z)
            info['n']['dots'] = info['n'].get('dots', 0) + len(D)
        if any(abs(x[3] - opt['lw']) > 1e-5 for x in strokes):
            return bad('linewidth', '%r' % set(x[3] for x in strokes))
        tri = [x for x in strokes if x[4] and len(x[1]) == 3]
        closed = [x for x in strokes if x[4]]
        opens = [x for x in strokes if not x[4]]
        nt = len(F) if opt['tri'] and mode != 'notri' else 0
        paths = closed[nt:]
        ts = closed[:nt]
        if nt and (len(tri) < nt or any(np.abs(np.array(x[2]) - opt['ctri']).max() > 1e-5 for x in ts)):
            return bad('wire', 'z=%r: %d boundaries of %d triangles drawn' % (z, len(ts), nt))
        if not opt['path'] or mode == 'tri':
            if paths or opens:
                return bad('nopath', 'z=%r: %d paths, %d marks where none are due' % (z, len(paths), len(opens)))
        else:
            if any(np.abs(np.array(x[2]) - opt['cpath']).max() > 1e-5 for x in paths):
                return bad('colour', 'path colours %r instead of %r' % (set(x[2] for x in paths), opt['cpath']))
            if len(opens) != (len(paths) if opt['mark'] else 0):
                return bad('mark', 'z=%r: %d marks on %d paths' % (z, len(opens), len(paths)))
            if not paths:
                info['n']['layers_without_paths'] = info['n'].get('layers_without_paths', 0) + 1
                continue
            # the paths bound the region: even-odd at points off the outline
            seg = np.array([[*x[1][k], *x[1][(k + 1) % len(x[1])]] for x in paths for k in range(len(x[1]))]).reshape(-1, 4)
            nr = np.random.default_rng(seed)
            P = nr.uniform(T.reshape(-1, 2).min(0) - 1, T.reshape(-1, 2).max(0) + 1, (200, 2))
            d = seg_dist(P, seg)
            P = P[d > max(tol * 3, 1e-3)]
            inside = evenodd(P, seg)
            want = outp.tri_count(P, T) > 0
            near = seg_dist(P, modelcmp.outline(T)) < max(tol * 3, 1e-3)
            if (inside != want)[~near].any():
                return bad('region', 'z=%r: the paths do not bound the layer at %s' % (z, P[(inside != want) & ~near][0].tolist()))
            info['n']['path_points'] = info['n'].get('path_points', 0) + int((~near).sum())
            for x, mk in zip(paths, opens):
                p0, p1 = np.array(x[1][0]), np.array(x[1][1])
                a_, b_ = np.array(mk[1][0]), np.array(mk[1][1])
                if np.abs(a_ - (p0 + p1) / 2).max() > tol * 2 or abs(np.linalg.norm(b_ - a_) - 2) > .02 + tol or (np.linalg.norm(p1 - p0) > 20 * tol and abs(np.dot(b_ - a_, p1 - p0)) > .02 * np.linalg.norm(p1 - p0) + 10 * tol):
                    return bad('mark', 'z=%r: mark %s on the edge %s %s' % (z, mk[1], x[1][0], x[1][1]))
                if any(np.abs(np.array(mk[2]) - opt['cmark']).max() > 1e-5 for _ in [0]):
                    return bad('colour', 'mark colour')
                e = p1 - p0
                le = np.linalg.norm(e)
                if le > 1 and abs(np.linalg.det(X[:2, :2])) > 1e-2 and not pp and X[2, 2] > 0 or le > 1 and np.array_equal(X, np.eye(4)):
                    t = a_ + (b_ - a_) / 2 * min(.2, le * .1)
                    if seg_dist(t[None], seg[np.abs(seg - [*p0, *p1]).max(1) > 1e-9])[0] > .4 and seg_dist(t[None], modelcmp.outline(T))[0] > max(tol * 3, 1e-3):
                        info['n']['marks_judged'] = info['n'].get('marks_judged', 0) + 1
                        if not (outp.tri_count(t[None], T) > 0)[0]:
                            return bad('mark', 'z=%r: the mark %s is outside of the polygon' % (z, mk[1]))
    # the comment on the bounding box covers what is drawn
    A = np.concatenate([np.array(x[1]).reshape(-1, 2) for p in pages for x in p if x[0] == 'fill' or (x[0] == 'stroke' and x[4])] +
                       [np.array(x[1][:2]).reshape(-1, 2) for p in pages for x in p if x[0] == 'dot'] + [np.zeros((0, 2))])
    if len(A) and np.abs(A).max() < 9e4:
        b = [float(v) for v in bc[-1].split()[1:]]
        e = [np.floor(A[:, 0].min()), np.floor(A[:, 1].min()), np.ceil(A[:, 0].max()), np.ceil(A[:, 1].max())]
        if np.abs(np.array(b) - e).max() > 1.01:
            return bad('boundingbox', '%r instead of %r' % (b, e))
    return info


def fit(a):
    """the scale options on cuboids, whose boxes are known exactly"""
    exe, seed = a
    r = random.Random(seed * 29 + 11)
    off = [r.choice([0, 0, -60, 80, r.uniform(-200, 200)]) for _ in range(2)]

    def box(big):
        p = [round(off[i] + r.uniform(-15, 15), 2) if i < 2 else round(r.uniform(-3, 0), 2) for i in range(3)]
        d = [round(r.uniform(1, 25 if big else 6), 2) for i in range(2)] + [6]
        return p, d

    def emit(b):
        return 'translate([%r,%r,%r]) cube([%r,%r,%r]);' % (*b[0], *b[1])
    add, sub = [], []
    src = ''
    for _ in range(r.randint(1, 3)):
        if r.random() < .6:
            x, y = box(True), box(True)
            add.append(x)
            sub.append(y)
            src += 'difference() { %s %s }\n' % (emit(x), emit(y))
        else:
            x = box(False)
            add.append(x)
            src += emit(x) + '\n'
    which = r.choice(['fit', 'max'])
    args = ['--step=%r' % r.choice([1, 2, 10]), '--ps-scale-' + which]
    if r.random() < .3:
        args.append('--ps-scale-' + which)
    info = dict(src=src, files=None, args=args, kind=None, msg=None, n=dict(fit_cases=1))
    q, ps = hob.hob(exe, src, args, out='o.ps')
    if q.rc != 0 or ps is None:
        info.update(kind='failed', msg='rc %s: %s' % (q.rc, q.etext[-300:]))
        return info
    try:
        com, pages = interpret(ps.decode('latin-1'))
    except Bad as e:
        info.update(kind='malformed', msg=str(e))
        return info
    al = add if which == 'fit' else add + sub
    lo = np.min([b[0][:2] for b in al], axis=0)
    hi = np.max([np.add(b[0], b[1])[:2] for b in al], axis=0)
    e = min((W - M) / (hi[0] - lo[0]), (H - M) / (hi[1] - lo[1]))
    cx = np.array([np.floor(W / 2), H / 2])
    P = np.array([p for pg in pages for o in pg if o[0] == 'fill' for p in o[1]]).reshape(-1, 2)
    if not len(P):
        return info
    info['n']['triangles'] = len(P) // 3
    # back to the model: every corner is a combination of box coordinates
    Q = (P - cx) / e + (lo + hi) / 2
    for i in range(2):
        v = np.array(sorted(x for b in add + sub for x in (b[0][i], b[0][i] + b[1][i])))
        d = np.abs(Q[:, i:i + 1] - v).min(1)
        if d.max() > 1.1 / e + 2e-3:
            info.update(kind='fit', msg='--ps-scale-%s: a vertex at %s on the page is %s in the model, none there (box %s..%s)' % (
                which, P[d.argmax()].tolist(), Q[d.argmax()].tolist(), lo.tolist(), hi.tolist()))
    return info


def seg_dist(P, S):
    if not len(S) or not len(P):
        return np.full(len(P), 9e9)
    out = np.full(len(P), 9e9)
    for i in range(0, len(S), 500):
        s = S[i:i + 500]
        a, d = s[:, :2], s[:, 2:] - s[:, :2]
        l = np.maximum((d * d).sum(1), 1e-30)
        t = np.clip(((P[:, None] - a) * d).sum(2) / l, 0, 1)
        out = np.minimum(out, np.linalg.norm(P[:, None] - a - t[:, :, None] * d, axis=2).min(1))
    return out


def evenodd(P, S):
    a, b = S[:, :2], S[:, 2:]
    y = P[:, 1:2]
    c = (a[:, 1] > y) != (b[:, 1] > y)
    with np.errstate(divide='ignore', invalid='ignore'):
        x = a[:, 0] + (y - a[:, 1]) * (b[:, 0] - a[:, 0]) / (b[:, 1] - a[:, 1])
    return ((c & (P[:, 0:1] < x)).sum(1) % 2) == 1


def run():
    c = hob.Check('P34', rule='a model written as PostScript with random options, interpreted and compared with its STL; distinct by source and options')
    exe = hob.build('plain')
    n = c.n(700, 30000)
    L = hob.pmap(one, [(exe, c.seed * 1000000 + i) for i in range(n)], chunk=4)
    for x in L + hob.pmap(fit, [(exe, c.seed * 1000000 + i) for i in range(n // 2)], chunk=4):
        if x is None:
            continue
        c.case((x['src'], x.get('args')), bool(x['n'].get('triangles')))
        for k, v in x['n'].items():
            c.stat(k, v)
        if x['kind']:
            f = {'m.scad': x['src']}
            f.update(x['files'] or {})
            c.violation(x['kind'], '%s\nargs %s' % (x['msg'], ' '.join(x['args'])), f)
        elif x['n'].get('triangles', 0) and len(c.samples) < 3:
            c.sample(dict(args=x['args'], observed=x['n'], source=x['src'][:300]))
    c.finish(min_nontrivial=100)


if __name__ == '__main__':
    main(run)
