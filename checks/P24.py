"""Colors: exact values in every notation, the right object gets them, the geometry does not change."""
from common import main, hob
import random, re
import css3, models, modelcmp, outp, scadsyn

LEAF = re.compile(r'LEAF (\w+) (\d+) (\d+) (\d+) (\d+) (\d+) (\S+) (\S+) (\S+) (\S+) (\S+) (\S+)')
BASE = (220, 220, 64)       # what objects without color() have
NAMES = sorted(css3.CSS3)


def case(r, s):
    k = r.randrange(4)
    return s if k == 0 else s.upper() if k == 1 else s.capitalize() if k == 2 else ''.join(r.choice([c.lower(), c.upper()]) for c in s)


def level(r):
    """(text, set of bytes that are right)"""
    k = r.random()
    if k < .3:
        b = r.choice([0, 255, r.randrange(256)])
        v = b / 255
        t = repr(v)
    elif k < .45:
        t = r.choice(['0', '1', '0.', '1.', '0.0', '1.0', '-0.0', '.5', '0.5', '1e-3', '25e-2', '0.1', '-0', '1e0', '100e-2'])
    elif k < .6:         # close to where the rounding changes
        b = r.randrange(255)
        t = repr((b + .5 + r.choice([-1, 1]) * r.choice([.01, .1, .3, .001])) / 255)
    else:
        t = repr(round(r.random(), r.choice([1, 2, 3, 16])))
    v = float(t) * 255
    ok = {round(v)}
    if abs(v - int(v) - .5) < 1e-9:
        ok |= {int(v), int(v) + 1}
    return t, ok


def some(r):
    """color argument text, rgb (each a set) or None (inherit), alpha set"""
    k = r.random()
    alpha = None
    if k < .12:
        c, rgb = 'undef', None
    elif k < .4:
        n = r.choice(NAMES)
        c, rgb = '"%s"' % case(r, n), [{v} for v in css3.CSS3[n]]
    elif k < .5:
        v = [r.randrange(16) for _ in range(3)]
        c, rgb = '"#%s"' % case(r, ''.join('%x' % x for x in v)), [{x * 17} for x in v]
    elif k < .65:
        v = [r.choice([r.randrange(256), r.randrange(16), 16 * r.randrange(16)]) for _ in range(3)]
        c, rgb = '"#%s"' % case(r, ''.join('%02x' % x for x in v)), [{x} for x in v]
    else:
        L = [level(r) for _ in range(3)]
        rgb = [x[1] for x in L]
        if r.random() < .4:
            x, alpha = level(r)
            L.append((x, 0))
        c = '[%s]' % ','.join(x[0] for x in L)
    txt = r.choice(['', '', 'c=']) + c
    if alpha is None and r.random() < .5:
        a, alpha = level(r)
        if txt[:2] == 'c=' or r.random() < .5:
            a = 'alpha=' + a
            if txt[:2] == 'c=' and r.random() < .5:
                return 'color(%s,%s)' % (a, txt), rgb, alpha
        txt += ',' + a
    return 'color(%s)' % txt, rgb, alpha or {255}


def leaf(r):
    """object within [-4,4]^3 around the origin in x and with its center there"""
    a = r.randint(1, 4)
    return r.choice(['cube([%d,2,3],center=true);' % a, 'sphere(%d,$fn=6);' % a, 'sphere(%d);' % a, 'cylinder(r=%d,h=2,$fn=4);' % a, 'cylinder(r1=%d,r2=0,h=2,$fn=6,center=true);' % a,
                     'linear_extrude(%d) square([3,2],center=true);' % a, 'linear_extrude(2) { color("red") circle(%d,$fn=4); }' % a,
                     'rotate_extrude($fn=6) translate([%d,0,0]) square(2);' % (a % 2), 'polyhedron([[-2,0,0],[2,0,0],[0,2,0],[0,0,%d]],[[0,1,2],[1,0,3],[2,1,3],[0,2,3]]);' % a,
                     'linear_extrude(height=2,twist=180,slices=4) square([3,2],center=true);', 'rotate([0,0,90]) linear_extrude(2,scale=.5) square(2,center=true);'])


def tree(r, depth, cur, n, want):
    """text; want[x] = colour of the object at 20*x"""
    k = r.random()
    if depth == 0 or k < .25:
        x = len(want)
        want.append(cur)
        return 'translate([%d,0,0]) %s' % (20 * x, leaf(r))
    if k < .6:
        t, rgb, a = some(r)
        c = (rgb if rgb is not None else cur[0], a)
        m = r.randint(1, 3)
        return t + ' {' + ''.join(tree(r, depth - 1, c, n, want) for _ in range(m)) + '}' if m > 1 or r.random() < .5 else t + ' ' + tree(r, depth - 1, c, n, want)
    if k < .7:
        return 'translate([0,%d,%d]) %s' % (r.randint(-5, 5), r.randint(-5, 5), tree(r, depth - 1, cur, n, want))
    if k < .8:
        return 'rotate([%d,0,0]) %s' % (r.choice([90, 30, -45]), tree(r, depth - 1, cur, n, want))
    op = r.choice(['union()', 'difference()', 'intersection()', 'group()', ''])
    return op + '{' + ''.join(tree(r, depth - 1, cur, n, want) for _ in range(r.randint(1, 3))) + '}'


def _who(a):
    """each object has the colour of the innermost color() around it"""
    exe, plain, seed = a
    r = random.Random(seed)
    want = []
    cur = ([{v} for v in BASE], {255})
    src = '\n'.join(tree(r, r.randint(2, 6), cur, 0, want) for _ in range(r.randint(2, 5)))
    q, _ = hob.hob(exe, src, ['--dump-csg3'])
    if q.rc != 0 or not q.out.endswith(b'END\n'):
        return ('rejected', 'status %s %s' % (q.rc, q.etext[-500:]), src), src, 0
    got = {}
    rest = set(range(len(want)))
    for m in LEAF.finditer(q.out.decode()):
        x = (float(m.group(7)) + float(m.group(10))) / 2
        i = round(x / 20)
        c = [int(m.group(k)) for k in range(2, 6)]
        if not 0 <= i < len(want):
            return ('stray', 'object at x=%r' % x, src), src, 0
        rest.discard(i)
        rgb, al = want[i]
        if not all(v in s for v, s in zip(c[:3], rgb)) or c[3] not in al:
            return ('color', 'object at x=%d has color %s, expected %s alpha %s' % (20 * i, c, rgb, al), src), src, 0
    # an intersection or difference may be found empty early on only when an operand is: here none is
    if rest:
        return ('missing', 'no object at %s' % sorted(20 * i for i in rest), src), src, 0
    d, _ = hob.hob(plain, src, ['--dump-scad'])
    e, _ = hob.hob(exe, d.out, ['--dump-csg3'])
    if e.rc != 0:
        return ('dump', 'the dump is rejected: %s' % e.etext[-500:], src), src, 0
    A, B = LEAF.findall(q.out.decode()), LEAF.findall(e.out.decode())
    for x, y in zip(A, B):
        if x[1:6] != y[1:6]:
            return ('dump', 'the dump has the color %s, not %s' % (y[1:6], x[1:6]), src), src, 0
    if len(A) != len(B):
        return ('dump', 'the dump has %d objects, not %d' % (len(B), len(A)), src), src, 0
    return None, src, len(want)


def _val(a):
    """many notations in one file"""
    exe, seed, names = a
    r = random.Random(seed)
    T = [('color("%s")' % case(r, n), [{v} for v in css3.CSS3[n]], {255}) for n in names] + [some(r) for _ in range(150)]
    src = '\n'.join(t[0] + ' translate([%d,0,0]) cube(2,center=true);' % (20 * i) for i, t in enumerate(T))
    q, _ = hob.hob(exe, src, ['--dump-csg3'])
    if q.rc != 0:
        return [('rejected', 'status %s %s' % (q.rc, q.etext[-500:]), src)], [t[0] for t in T]
    L = LEAF.findall(q.out.decode())
    bads = []
    if len(L) != len(T):
        return [('count', '%d objects became %d' % (len(T), len(L)), src)], [t[0] for t in T]
    for m, (t, rgb, al) in zip(L, T):
        c = [int(x) for x in m[1:5]]
        if not all(v in s for v, s in zip(c[:3], rgb or [{v} for v in BASE])) or c[3] not in al:
            bads.append(('value', '%s: read as %s, expected %s alpha %s' % (t, c, rgb, al), src))
    return bads[:2], [t[0] for t in T]


def paint(ast, r):
    """put color() around random objects"""
    out = []
    for i in ast:
        if i[0] == 'b':
            i = ('b', paint(i[1], r))
        elif i[0] == 'f':
            i = (i[0], i[1], i[2], i[3], paint(i[4], r))
        if i[0] == 'f' and r.random() < .35:
            t = scadsyn.parse((some(r)[0] + ';').encode())[0][0]
            i = ('f', frozenset(), 'color', t[3], [i])
        out.append(i)
    return out


def _same(a):
    exe, seed = a
    m = models.source(seed)
    if not m:
        return None, None, 0
    r = random.Random(seed + 1)
    ast = scadsyn.parse(m['src'].encode())[0]
    p = scadsyn.emit(paint(ast, r), r, 0)
    args = m['args'] + ['--step=%.3g' % max((m['bb'][1][2] - m['bb'][0][2]) / 6, .01)]
    A, da = hob.hob(exe, m['src'], args, files=m['files'], out='o.stl', timeout=30)
    B, db = hob.hob(exe, p, args, files=m['files'], out='o.stl', timeout=30)
    if A.timeout or B.timeout:
        return None, None, 0
    if A.rc != B.rc:
        return ('geometry', 'status %s, with colors %s %s' % (A.rc, B.rc, B.etext[-400:]), p), p, 0
    if A.rc == 0 and da != db:
        # the nesting may change the order of operands; the solids must be equal
        sa, sb = outp.slabs(outp.stl_ascii(da)), outp.slabs(outp.stl_ascii(db))
        if len(sa) != len(sb):
            return ('geometry', '%d layers, with colors %d' % (len(sa), len(sb)), p), p, 0
        for x, y in zip(sa, sb):
            e = modelcmp.same_region(x['bot'], y['bot'], seed)
            if e:
                return ('geometry', 'colors change the solid: %s' % (e,), p), p, 0
        return None, p, 2
    return None, p, 1


def bad(r):
    n = r.choice(NAMES)
    k = r.randrange(15)
    i = r.randrange(len(n) + 1)
    if k == 0:
        t = n[:i] + r.choice('abcxyz0 -_') + n[i:]
    elif k == 1:
        i = r.randrange(len(n))
        t = n[:i] + n[i + 1:]
    elif k == 2:
        i = r.randrange(len(n))
        t = n[:i] + r.choice('abcdefghijklmnopqrstuvwxyz') + n[i + 1:]
    elif k == 3:
        t = r.choice(['', ' ', '#', '##', n + ' ', ' ' + n, n + n, n * 30, '#' + n, 'x' * 300, 'rgb(1,2,3)', 'transparent', 'currentcolor', 'rebeccapurple', 'ff0000', '0xff0000', n + '\\x00', n[:-1] + '\xe9', '\xff'])
    elif k == 4:
        m = r.choice([1, 2, 4, 5, 7, 8, 9, 12, 20, 300])
        t = '#' + ''.join(r.choice('0123456789abcdefABCDEF') for _ in range(m))
    elif k == 5:
        t = list('#' + ''.join(r.choice('0123456789abcdefABCDEF') for _ in range(r.choice([3, 6]))))
        t[r.randrange(1, len(t))] = r.choice('ghGHzZ-+ .:@/`#_')
        t = ''.join(t)
    else:
        v = ['0', '.5', '1', '0.25']
        outs = r.choice(['1.01', '-0.01', '2', '-1', '255', '1e9', '-1e-3', '1.001', '"red"', 'undef', '[1]', '[0:1]', '[]', '1e300', '9223372036854775807'])
        w = [r.choice(v) for _ in range(3)]
        q = r.randrange(3)
        if k < 9:
            w[q] = outs
            a = '[%s]' % ','.join(w)
        elif k == 9:
            a = '[%s,%s]' % (','.join(w), outs)
        elif k == 10:
            a = '[%s]' % ','.join(r.choice(v) for _ in range(r.choice([0, 1, 2, 5, 6, 40])))
        elif k == 11:
            a = '[%s],%s%s' % (','.join(w), r.choice(['', 'alpha=']), outs)
        elif k == 12:
            a = '[%s,.5],%s.25' % (','.join(w), r.choice(['', 'alpha=']))
        elif k == 13:
            a = r.choice(['', '1', '0.5', 'true', 'false', '[0:1:2]', '[0:1]', 'c=.3', 'alpha=.5', 'alpha=1', '[[0,0,0]]', '["red"]', '255,0,0', '0,0,0', '"red",.5,.5', 'c="red",1', '"red",alpha="0"', 'c=', 'x'])
        else:
            a = '"%s",%s%s' % (n, r.choice(['', 'alpha=']), outs)
        return 'color(%s)' % a
    if t.lower() in css3.CSS3:
        return bad(r)
    return 'color("%s"%s)' % (t, r.choice(['', ',.5', ',alpha=.5']))


def _bad(a):
    exe, seed = a
    r = random.Random(seed)
    t = bad(r)
    src = 'cube(3);\n\n%s sphere(2,$fn=4);\n' % t
    q, d = hob.hob(exe, src.encode('latin1'), [], out='o.stl')
    if q.rc == 1 and re.match(rb'm\.scad:3:\d+: Error: ', q.err):
        return None, t
    return ('malformed', '%s: status %s %s' % (t, q.rc, q.etext[-300:]), src.encode('latin1')), t


def run():
    chk = hob.Check('P24', rule='objects whose stored color (as the 3D stage holds it, read through the library by a harness) was compared with the notation in the source or with '
                    'the innermost color() around them; painted against unpainted models; malformed colors; counts per distinct text')
    exe, col = hob.build('plain'), hob.build('plain', 'color')
    n = chk.n(16, 400)
    for bads, ids in hob.pmap(_val, [(col, chk.seed * 607 + i, NAMES) for i in range(n)]):
        chk.stat('color_values', len(ids))
        for i in ids:
            chk.case(i)
        for k, msg, src in bads:
            chk.violation(k, msg, {'m.scad': src})
    for fn, args, lab, cnt in ((_who, (col, exe), 'nested', chk.n(500, 30000)), (_bad, (exe,), 'malformed', chk.n(900, 30000)), (_same, (exe,), 'painted', chk.n(160, 6000))):
        for res in hob.pmap(fn, [args + (chk.seed * 10007 + i,) for i in range(cnt)], chunk=4):
            b, ident = res[:2]
            if ident is None:
                continue
            chk.case((lab, ident))
            chk.stat(lab)
            if lab == 'nested':
                chk.stat('objects', res[2])
            if lab == 'painted' and res[2] == 2:
                chk.stat('painted_equal_solid_other_text')
            if b:
                chk.violation(b[0], b[1], {'m.scad': b[2]})
    chk.sample('color values compared: %s' % chk.stats.get('color_values'))
    chk.assumptions += ['no output format of layers carries colors of the model (JS has a constant); the 3D stage is the last that holds them', 'values half-way between two bytes may go either way']
    chk.finish(chk.n(1500, 50000))


if __name__ == '__main__':
    main(run)
