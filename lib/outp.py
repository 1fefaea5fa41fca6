"""Parsers of hob3l's output formats."""
import re, struct
import numpy as np


class Bad(Exception):
    """output is not well formed"""


def stl_ascii(data):
    """strict ASCII STL parser; returns (normals (T,3), tris (T,3,3))"""
    t = data.decode('ascii')
    lines = t.split('\n')
    if not lines[0].startswith('solid'):
        raise Bad('STL: no solid header')
    name = lines[0][5:].strip()
    N, V = [], []
    i = 1
    nl = len(lines)
    num = r'(-?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?)'
    while True:
        if i >= nl:
            raise Bad('STL: truncated')
        w = lines[i].split()
        if not w:
            raise Bad('STL: empty line %d' % (i + 1))
        if w[0] == 'endsolid':
            if ' '.join(w[1:]) != name:
                raise Bad('STL: endsolid name differs')
            break
        if w[:2] != ['facet', 'normal'] or len(w) != 5:
            raise Bad('STL line %d: %r' % (i + 1, lines[i]))
        if i + 6 >= nl:
            raise Bad('STL: truncated')
        if lines[i+1].split() != ['outer', 'loop'] or lines[i+5].split() != ['endloop'] or lines[i+6].split() != ['endfacet']:
            raise Bad('STL facet structure at line %d' % (i + 1))
        vv = []
        for k in (2, 3, 4):
            x = lines[i+k].split()
            if len(x) != 4 or x[0] != 'vertex':
                raise Bad('STL vertex line %d: %r' % (i+k+1, lines[i+k]))
            vv.append([float(x[1]), float(x[2]), float(x[3])])
        N.append([float(w[2]), float(w[3]), float(w[4])])
        V.append(vv)
        i += 7
    if any(l.strip() for l in lines[i+1:]):
        raise Bad('STL: data after endsolid')
    return np.array(N).reshape(-1, 3), np.array(V).reshape(-1, 3, 3)


def stl_bin(data):
    if len(data) < 84:
        raise Bad('binary STL: too short')
    if data[:5] == b'solid':
        raise Bad('binary STL: header starts with "solid"')
    n = struct.unpack('<I', data[80:84])[0]
    if len(data) != 84 + 50 * n:
        raise Bad('binary STL: %d triangles announced, size %d' % (n, len(data)))
    a = np.frombuffer(data, dtype=np.dtype([('n', '<f4', 3), ('v', '<f4', (3, 3)), ('a', '<u2')]), offset=84, count=n)
    if n and a['a'].any():
        raise Bad('binary STL: attribute bytes not zero')
    return a['n'].astype(float), a['v'].astype(float)


def slabs(tris):
    """split STL triangles into slabs: list of dict(z0, z1, bottom, top, side)
    in ascending order; raises Bad if triangles do not form slabs"""
    if len(tris) == 0:
        return []
    zmin = tris[:, :, 2].min(1)
    zmax = tris[:, :, 2].max(1)
    flat = zmin == zmax
    lv = np.unique(tris[:, :, 2])
    side = np.nonzero(~flat)[0]
    pairs = sorted(set(zip(zmin[side].tolist(), zmax[side].tolist())))
    used = [z for p in pairs for z in p]
    if len(set(used)) != len(used):
        raise Bad('slabs share z levels: %r' % pairs[:6])
    if set(used) != set(lv.tolist()):
        raise Bad('flat triangles outside of slabs')
    out = []

    def group(idx):
        z = zmin[idx]
        o = np.argsort(z, kind='stable')
        s, z = idx[o], z[o]
        return lambda v: tris[s[np.searchsorted(z, v, 'left'):np.searchsorted(z, v, 'right')]]
    gf, gs = group(np.nonzero(flat)[0]), group(side)
    for (a, b) in pairs:
        out.append(dict(z0=a, z1=b, bottom=gf(a), top=gf(b), side=gs(a)))
    for p, q in zip(out, out[1:]):
        if not p['z1'] < q['z0']:
            raise Bad('slabs overlap in z')
    return out


# --- SCAD polygon stack (dump of stage 4)

_tok = re.compile(r'\s*(?://[^\n]*\n\s*)*(?:([A-Za-z_$][A-Za-z_0-9$]*)|(-?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?)|("(?:[^"\\]|\\.)*")|([\[\](){},;=#%*!]))')


class ScadTok:
    def __init__(self, text):
        self.t, self.p = text, 0

    def next(self):
        m = _tok.match(self.t, self.p)
        if not m:
            if self.t[self.p:].strip() == '' or re.match(r'\s*(//[^\n]*\n?\s*)*$', self.t[self.p:]):
                return None
            raise Bad('SCAD token at %r' % self.t[self.p:self.p+40])
        self.p = m.end()
        if m.group(1) is not None:
            return ('id', m.group(1))
        if m.group(2) is not None:
            return ('num', float(m.group(2)))
        if m.group(3) is not None:
            return ('str', m.group(3))
        return ('p', m.group(4))

    def peek(self):
        q = self.p
        x = self.next()
        self.p = q
        return x


def scad_parse(text):
    """generic SCAD call tree: list of (modifier, name, args[(name|None, value)], children|None)"""
    k = ScadTok(text)

    def val():
        t = k.next()
        if t is None:
            raise Bad('SCAD eof')
        if t == ('p', '['):
            r = []
            while k.peek() != ('p', ']'):
                r.append(val())
                if k.peek() == ('p', ','):
                    k.next()
                elif k.peek() != ('p', ']'):
                    raise Bad('SCAD list')
            k.next()
            return r
        if t[0] == 'num':
            return t[1]
        if t[0] == 'str':
            return t[1]
        if t[0] == 'id':
            return {'true': True, 'false': False}.get(t[1], t)
        raise Bad('SCAD value %r' % (t,))

    def stmts(end):
        out = []
        while True:
            t = k.next()
            if t is None:
                if end:
                    raise Bad('SCAD missing }')
                return out
            if t == ('p', '}'):
                if not end:
                    raise Bad('SCAD stray }')
                return out
            if t == ('p', ';'):
                continue
            mod = ''
            while t and t[0] == 'p' and t[1] in '#%*!':
                mod += t[1]
                t = k.next()
            if t is None or t[0] != 'id':
                raise Bad('SCAD statement %r' % (t,))
            name = t[1]
            args = []
            if k.next() != ('p', '('):
                raise Bad('SCAD ( expected after ' + name)
            while k.peek() != ('p', ')'):
                q = k.p
                a = k.next()
                if a and a[0] == 'id' and k.peek() == ('p', '='):
                    k.next()
                    args.append((a[1], val()))
                else:
                    k.p = q
                    args.append((None, val()))
                if k.peek() == ('p', ','):
                    k.next()
                elif k.peek() != ('p', ')'):
                    raise Bad('SCAD args of %s: %r' % (name, k.peek()))
            k.next()
            n = k.peek()
            if n == ('p', ';'):
                k.next()
                out.append((mod, name, args, None))
            elif n == ('p', '{'):
                k.next()
                out.append((mod, name, args, stmts(True)))
            else:
                one = stmt1()
                out.append((mod, name, args, [one]))

    def stmt1():
        # a single child statement
        q = k.p
        depth = 0
        t = k.next()
        mod = ''
        while t and t[0] == 'p' and t[1] in '#%*!':
            mod += t[1]
            t = k.next()
        if t is None or t[0] != 'id':
            raise Bad('SCAD child %r' % (t,))
        name = t[1]
        args = []
        if k.next() != ('p', '('):
            raise Bad('SCAD ( expected')
        while k.peek() != ('p', ')'):
            p = k.p
            a = k.next()
            if a and a[0] == 'id' and k.peek() == ('p', '='):
                k.next()
                args.append((a[1], val()))
            else:
                k.p = p
                args.append((None, val()))
            if k.peek() == ('p', ','):
                k.next()
        k.next()
        n = k.peek()
        if n == ('p', ';'):
            k.next()
            return (mod, name, args, None)
        if n == ('p', '{'):
            k.next()
            return (mod, name, args, stmts(True))
        return (mod, name, args, [stmt1()])
    return stmts(False)


def scad_layers(text):
    """stage-4 SCAD dump -> list of dict(z, h, polys=[dict(points, paths)])"""
    out = []

    def walk(l, z):
        for mod, name, args, kids in l:
            if name == 'translate':
                v = args[0][1]
                if v[0] != 0 or v[1] != 0:
                    raise Bad('translate in xy')
                walk(kids or [], z + v[2])
            elif name == 'linear_extrude':
                d = dict(args)
                h = d.get('height', args[0][1] if args else None)
                polys = []

                def polyw(q):
                    for m2, n2, a2, k2 in q:
                        if n2 == 'polygon':
                            dd = dict(a2)
                            polys.append(dict(points=dd['points'], paths=dd.get('paths')))
                        elif n2 in ('union', 'group', 'color'):
                            polyw(k2 or [])
                        else:
                            polys.append(dict(other=n2))
                            polyw(k2 or [])
                polyw(kids or [])
                out.append(dict(z=z, h=h, polys=polys))
            elif name in ('group', 'union', 'color'):
                walk(kids or [], z)
            else:
                raise Bad('unexpected %s in polygon stack' % name)
    walk(scad_parse(text), 0.0)
    return out


# --- 2D helpers

def tri_count(P, T, chunk=2000000):
    """how many triangles (T,3,2) contain each point (strictly, away from edges)"""
    n = len(P)
    res = np.zeros(n, int)
    if len(T) == 0:
        return res
    step = max(1, chunk // len(T))
    a, b, c = T[:, 0], T[:, 1], T[:, 2]

    def cr(p, u, v):
        return (v[:, 0] - u[:, 0]) * (p[:, 1:2] - u[:, 1]) - (v[:, 1] - u[:, 1]) * (p[:, 0:1] - u[:, 0])
    for i in range(0, n, step):
        p = P[i:i+step]
        s0, s1, s2 = cr(p, a, b) > 0, cr(p, b, c) > 0, cr(p, c, a) > 0
        res[i:i+step] = ((s0 == s1) & (s1 == s2)).sum(1)
    return res


def tri_area2(T):
    """twice the signed areas of (T,3,2)"""
    return ((T[:, 1, 0] - T[:, 0, 0]) * (T[:, 2, 1] - T[:, 0, 1]) - (T[:, 1, 1] - T[:, 0, 1]) * (T[:, 2, 0] - T[:, 0, 0]))


# --- JavaScript / WebGL

_jspush = re.compile(r"scene\.push\(\{\s*(.*?)\}\);\n", re.S)


def js_pushes(text):
    """strict parser of the JS output: list of dict(group, scaleV, scaleC, shiftI, vertex, normal, color, index)
    with vertex (N,3) in mm, color (N,4), index (T,3)"""
    out = []
    pos = 0
    for m in _jspush.finditer(text):
        if text[pos:m.start()].strip():
            raise Bad('JS: text between pushes: %r' % text[pos:m.start()][:60])
        pos = m.end()
        d = {}
        body = m.group(1)
        q = 0
        for f in re.finditer(r"\s*'(\w+)':\s*(\{[^{}]*\}|\[[^\[\]]*\]|[^,\[\]{}]+?)\s*(,|$)", body):
            if body[q:f.start()].strip():
                raise Bad('JS: %r' % body[q:f.start()][:60])
            q = f.end()
            if f.group(1) in d:
                raise Bad('JS: duplicate key')
            d[f.group(1)] = f.group(2)
        if body[q:].strip():
            raise Bad('JS: rest %r' % body[q:][:60])
        for k in ('group', 'scaleV', 'scaleC', 'shiftI', 'vertex', 'normal', 'color', 'index'):
            if k not in d:
                raise Bad('JS: no ' + k)

        def arr(k, w):
            t = d[k].strip()[1:-1].strip()
            a = np.array([int(x) for x in t.split(',')] if t else [], dtype=np.int64)
            if len(a) % w:
                raise Bad('JS: %s has %d entries' % (k, len(a)))
            return a.reshape(-1, w)
        sv = float(d['scaleV']) / 1000
        v, n, c, ix = arr('vertex', 3), arr('normal', 3), arr('color', 4), arr('index', 3)
        if not (len(v) == len(n) == len(c)):
            raise Bad('JS: attribute counts differ')
        sh = int(d['shiftI'])
        ix = np.cumsum(ix.reshape(-1) - sh).reshape(-1, 3)
        if len(ix) and (ix.min() < 0 or ix.max() >= len(v)):
            raise Bad('JS: index out of range')
        if len(v) > 65535 or len(ix) == 0:
            raise Bad('JS: chunk of %d vertices, %d triangles' % (len(v), len(ix)))
        if len(c) and (c.min() < 0 or c.max() > 255):
            raise Bad('JS: color out of range')
        out.append(dict(group=re.findall(r"'([^']*)':true", d['group']), scaleV=sv * 1000, scaleC=float(d['scaleC']), vertex=v / sv,
                        normal=n, color=c, index=ix, xform=d.get('xform'), grid=1 / sv))
    if text[pos:].strip():
        raise Bad('JS: text after the last push: %r' % text[pos:][:60])
    return out


def js_groups(text):
    """list of (vertex (N,3) in mm, index (T,3), rounding)"""
    return [(p['vertex'], p['index'], p['grid']) for p in js_pushes(text)]


def js_tris(text):
    return np.concatenate([p['vertex'][p['index']] for p in js_pushes(text)] or [np.zeros((0, 3, 3))])
