"""Imported STL files are solids equal to their triangles."""
from common import main, hob
import e2e, big, geom as g, meshes
import random, struct
import numpy as np


def f32(x):
    return struct.unpack('<f', struct.pack('<f', x))[0]


def mesh(r, large=0):
    while True:
        if large:
            return meshes.scramble(r, *big.bumpy(r, [None, big.size(r, 8000, 80000), r.randint(66000, 140000)][large - 1]))
        pts, faces = meshes.any_mesh(r) if r.random() < .85 else meshes.fractional(r)
        t = meshes.triangulate(pts, faces)
        if t:
            break
    return meshes.scramble(r, pts, t)


def number(r, x):
    """some notation of x"""
    k = r.randrange(9)
    t = repr(float(x))
    if k == 0 and 'e' not in t:
        return '%.6e' % x if float('%.6e' % x) == x else t
    if k == 1 and 'e' not in t:
        return '%.9E' % x if float('%.9E' % x) == x else t
    if k == 2 and t[0] != '-':
        return '+' + t
    if k == 3 and t.startswith('0.') and len(t) > 2:
        return t[1:]
    if k == 4 and t.endswith('.0'):
        return t[:-1]
    if k == 5 and t.endswith('.0'):
        return t[:-2]
    if k == 6 and 'e' not in t:
        return t + '0' * r.randint(1, 9) + r.choice(['', 'e0', 'E+00', 'e-0'])
    if k == 7 and 'e' not in t:
        return ('-' if x < 0 else '') + '000' + t.lstrip('-')
    return t


NAMES = ['', ' ', ' x', ' 1.2.3', ' -', ' 3a', ' a b c', ' facet normal 0 0 0', '\tOpenSCAD_Model', ' endsolid', ' "q" \xe4'.encode().decode('latin1'), ' ' + 'n' * 300]


def ascii_stl(r, pts, faces, plain=False):
    """token list and text"""
    nl = '\n' if plain else r.choice(['\n', '\n', '\r\n', '\n\n', ' \n\t'])
    ind = ['', '', ''] if plain else r.choice([['  ', '    ', '      '], ['', '', ''], ['\t', '\t\t', '\t\t\t'], [' ', ' ', ' ']])
    sp = ' ' if plain else r.choice([' ', ' ', '  ', '\t', ' \t '])
    if not plain and r.random() < .2:
        nl, ind = r.choice([' ', '\n', '\t', '\r']), ['', '', '']
    name = r.choice(NAMES) if r.random() < .8 else ''
    L = ['solid' + name]
    nrm = r.choice(['zero', 'right', 'wrong', 'any'])
    P = np.array(pts, float)
    T = []
    for f in faces:
        a, b, c = P[list(f)]
        n = np.cross(b - a, c - a)
        n = n / (np.linalg.norm(n) or 1)
        n = {'zero': n * 0, 'right': n, 'wrong': -n, 'any': np.array([r.uniform(-9, 9) for _ in range(3)])}[nrm]
        T.append(ind[0] + sp.join(['facet', 'normal'] + [number(r, float('%.6g' % x)) for x in n]))
        T.append(ind[1] + sp.join(['outer', 'loop']))
        for p in (a, b, c):
            T.append(ind[2] + sp.join(['vertex'] + [number(r, float(x)) for x in p]))
        T.append(ind[1] + 'endloop')
        T.append(ind[0] + 'endfacet')
    end = 'endsolid' + r.choice([name, '', ' other'])
    body = nl.join(T + [end])
    # the rest of the first line is the name
    return L[0] + ('\r\n' if nl == '\r\n' else '\n') + body + r.choice(['', '\n', nl if nl.strip(' \t') else '\n', '\n\n  \n'])


def bin_stl(r, pts, faces):
    hd = r.choice([b'', b'binary', b'solid', b'solid OpenSCAD', b'solid x\nfacet normal', b'\xff' * 80, b'<?xml'[1:], b'COLOR=abcd'])
    b = hd.ljust(80, r.choice([b'\0', b' ', b'x']))[:80] + struct.pack('<I', len(faces))
    for f in faces:
        n = [r.choice([0., 1., -1., .5]) for _ in range(3)]
        b += struct.pack('<12fH', *n, *[x for i in f for x in pts[i]], r.choice([0, 0, 65535, r.randrange(65536)]))
    return b


def mk1(G, r, i, pre=''):
    pts, faces = mesh(r, 3 if i == 9 else 2 if i % 200 in (9, 110) else int(i % 16 in (9, 2)))
    binary = i % 2 == 1
    if binary:
        pts = [tuple(f32(x) for x in p) for p in pts]
    if r.random() < .3:
        k = r.choice([1e-3, .1, 25.4, 10.])
        if len(pts) > 3000:
            # not below the resolution of the tool
            k = max(k, .1)
        s = [[round(x * k, 7) for x in p] for p in pts]
        if binary:
            s = [[f32(x) for x in p] for p in s]
        if r.random() < .5:
            pts = [tuple(p) for p in s]
            back = 1 / k
        else:
            back = None
    else:
        back = None
    flip = r.random() < .3
    n = g.Poly3(pts, [tuple(f) for f in faces])
    ff = [f[::-1] if flip and r.random() < .4 else f for f in faces]
    data = bin_stl(r, pts, ff) if binary else ascii_stl(r, pts, ff).encode('latin1')
    fn = pre + r.choice(['x.stl', 'x.stl', 'a b.STL', 'noext', 'sub/x.stl'])
    arg = r.choice(['"%s"', 'file="%s"', '"%s",convexity=3', 'file="%s",center=false', '"%s","lay",2', '"%s",$fn=5']) % fn
    n.text = ('import_stl(%s)' if r.random() < .1 else 'import(%s)') % arg
    if back:
        n = g.scale([back] * 3, n)
    k = r.random()
    opts = dict(files={fn: data})
    if k < .25:
        n = g.rotate([r.choice([0., 90., 180., -90.]), r.choice([0., 90., 180., -90.]), r.choice([0., 90.])], n)
        opts.update(frac=r.choice([.5, .25, 1.0]), zmin=-8.0, max_slabs=12)
    elif k < .5:
        n = G.xf([n])
    elif k < .6:
        n = g.mirror([G.f(-2, 2), 1., G.f(-2, 2)], n)
    if r.random() < .4:
        o = G.tree3(r.randint(0, 1))
        n = r.choice([lambda: g.union(n, o), lambda: g.difference(n, o), lambda: g.difference(o, n), lambda: g.intersection(n, o), lambda: g.intersection(o, n)])()
    if r.random() < .1:
        # twice the same file
        n = g.group(n, g.translate([G.f(3, 9), 0., G.f(-3, 3)], n))
    return n, opts


def mk(G, r, i):
    if i % 40 == 15:
        # several files
        ns, files = [], {}
        for j in range(r.randint(2, 14)):
            n, o = mk1(G, r, r.choice([0, 1]), 'f%d' % j)
            ns.append(g.translate([G.f(-40, 40), G.f(-40, 40), G.f(-3, 3)], n))
            files.update(o['files'])
        return g.Block(ns), dict(files=files, nrand=1000, nnear=1000)
    n, o = mk1(G, r, i)
    return g.Block([n]), o


KEYS = ['solid', 'facet', 'normal', 'outer', 'loop', 'vertex', 'endloop', 'endfacet', 'endsolid']


def damage(r, pts, faces):
    """what, bytes: a file that must be rejected"""
    faces = faces[:r.randint(1, len(faces))]
    if r.random() < .35:
        b = bin_stl(r, pts, faces)
        k = r.randrange(6)
        if k == 5:
            b = bytearray(b)
            i = 84 + 50 * r.randrange(len(faces)) + 12 + 4 * r.randrange(9)
            b[i:i + 4] = struct.pack('<f', r.choice([float('nan'), float('inf'), -float('inf')]))
            return 'binary coordinate not finite', bytes(b)
        if k == 0:
            return 'binary file cut', b[:r.randrange(84, len(b))]
        if k == 1:
            return 'binary file cut in the header', b'x' * r.randrange(0, 84)
        if k == 2:
            if b[:5] == b'solid':
                b = b'y' + b[1:]
            n = len(faces) + r.choice([1, 2, 1000, 2**31 - 1 - len(faces), 2**32 - 1 - len(faces)])
            return 'binary count too large', b[:80] + struct.pack('<I', n) + b[84:]
        if k == 3:
            if b[:5] == b'solid':
                b = b'y' + b[1:]
            return 'binary file with extra bytes', b + bytes(r.randrange(1, 50))
        return 'empty file', b''
    t = ascii_stl(r, pts, faces, True)
    head, body = t.split('\n', 1)
    body = body[:body.index('endsolid') + len('endsolid')]
    k = r.randrange(8)
    if k == 0:
        return 'text cut', (head + '\n' + body)[:r.randrange(5, len(head) + len(body) + 1)]
    w = body.split(' ')
    lines = body.split('\n')
    i = r.randrange(len(lines))
    if k == 1:
        x = lines.pop(i)
        return 'line removed: ' + x, head + '\n' + '\n'.join(lines)
    if k == 2:
        x = lines[i].split()
        j = r.randrange(len(x))
        y = x.pop(j)
        lines[i] = ' '.join(x)
        return 'word removed: ' + y, head + '\n' + '\n'.join(lines)
    if k == 3:
        x = lines[i].split()
        j = r.randrange(len(x))
        y = x[j]
        if y in KEYS:
            x[j] = r.choice([q for q in KEYS if q != y] + [y[:-1], y + 's', '1', '"%s"' % y])
        else:
            x[j] = r.choice(['-', '.', '+', '1e', '1e+', '--1', '1.2.3', '0x', 'x', 'nan', 'inf', '1,5', '"1"', '1e999', '-1e999', '.e1', '1_0', '5f', '[1', '\xe4'])
        z = x[j]
        lines[i] = ' '.join(x)
        return 'word %s replaced by %s' % (y, z), head + '\n' + '\n'.join(lines)
    if k == 4:
        x = lines[i].split()
        j = r.randint(1, len(x))
        z = r.choice(['0', 'x', 'vertex', 'loop', ',', ';', '}'])
        if lines[i].startswith('endsolid'):
            return damage(r, pts, faces)
        x.insert(j, z)
        lines[i] = ' '.join(x)
        return 'word inserted: ' + z, head + '\n' + '\n'.join(lines)
    if k == 5:
        return 'text after endsolid', head + '\n' + body + r.choice(['\n', ' name\n', '\n\n', '\r\n']) + r.choice(['x', 'facet', '0', '}', 'endsolid', '\xff'])
    if k == 6:
        j = [m for m, l in enumerate(lines) if l.startswith('vertex')]
        m = r.choice(j)
        lines.insert(m, lines[m])
        return 'four vertices', head + '\n' + '\n'.join(lines)
    return 'no STL at all', r.choice(['\n', 'SOLID x', 'cube(1);', 'x' * 83, '\0' * 84 + 'a', 'soli', 'solid'])


def _bad(a):
    exe, seed = a
    r = random.Random(seed)
    what, data = damage(r, *mesh(r))
    if isinstance(data, str):
        data = data.encode('latin1')
    q, out = hob.hob(exe, 'cube(1); import("x.stl");', ['--step=1'], files={'x.stl': data}, out='o.stl')
    return what, data, q.rc, q.etext[-400:], hob.crash_kind(q), out


def run():
    chk = hob.Check('P17', rule='random triangle meshes written as binary STL and in random dialects of ASCII STL, imported at random places of a model; '
                    'damaged copies must be rejected; counts when more than 20 points were decided to be inside, or a damaged file was judged')
    exe = hob.build('plain')
    e2e.batch(chk, exe, mk, chk.n(1800, 40000), nlay=6, nrand=80, nnear=100)
    for what, data, rc, err, ck, out in hob.pmap(_bad, [(exe, chk.seed * 70001 + i) for i in range(chk.n(1500, 20000))], chunk=10):
        chk.case(('bad', data))
        chk.stat('damaged')
        if ck or rc != 1 or not err.strip() or out:
            w = what.split(':')[0].split(' ')
            chk.violation('crash-' + ck if ck else 'damage', '%s: rc=%s %s\n%r' % (what, rc, err, data[-600:]), {'x.stl': data, 'model.scad': 'import("x.stl");'})
    chk.assumptions += ['points closer than 2e-3 mm to a face are not judged', 'key words are lower case, as in all tests',
                        'normals and attribute bytes of STL files have no effect']
    chk.finish(chk.n(2500, 40000))


if __name__ == '__main__':
    main(run)
