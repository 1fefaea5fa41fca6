"""Imported SVG documents outline the region that the SVG rules prescribe."""
import numpy as np
from common import main, hob
import e2e, geom as g, svg


class SvgRoot(g.Rec):
    pass


def mk1(G, r, i, ctx, name='f.svg'):
    """one import: solid, text, contents of the file"""
    fn = r.choice([None, None, None, None, 100, 40, 12])
    mfn = ctx.max_fn
    for _ in range(20):
        dpi = r.choice([None, None, None, 96., 25.4, 300.])
        center = r.random() < .3
        d = svg.Doc(r, fn, mfn)
        d.noise = r.random() < .6
        d.foreign = r.choice([0, 0, .1, .4])
        if i % 16 == 11:
            d.big = r.choice([1, 1, 1, 2, 3, 4])
        elif i % 32 == 5:
            d.big = r.choice([5, 5, 6, 7, 7])
        lay = r.random() < .3
        if lay:
            d.layer = 'layer%d' % r.choice([1, 1, 2, 2, 3, 4])
        text = d.top(dpi, center)
        if not d.shapes:
            continue
        x = g.LinExt([g.union(*d.shapes)], 2.0)
        lo, hi = x.bbox(ctx, g.I4)
        if (hi - lo).max() > 300 or np.abs(lo).max() > 1000 or np.abs(hi).max() > 1000 or (hi - lo).min() < .5:
            continue
        break
    else:
        return None
    a = ['"%s"' % name if r.random() < .6 else 'file="%s"' % name]
    if d.layer:
        a.append('layer="%s"' % d.layer)
    elif r.random() < .1:
        a.append('layer=""')
    if center or r.random() < .1:
        a.append('center=%s' % ('true' if center else 'false'))
    if dpi:
        a.append('dpi=%s' % g.num(dpi))
    if fn:
        a.append('$fn=%d' % fn)
    imp = 'import(%s)' % ','.join([a[0]] + r.sample(a[1:], len(a) - 1))
    k = r.randrange(5)
    pre = ''
    if k == 0:
        v = [G.f(-20, 20), G.f(-20, 20), G.f(-3, 3)]
        x = g.translate(v, x)
        pre = 'translate(%s) ' % g.vec(v)
    elif k == 1:
        x = g.rotate([0., 0., 33.], x)
        pre = 'rotate([0,0,33]) '
    return x, '%slinear_extrude(height=2) %s;\n' % (pre, imp), text.encode()


def mk(G, r, i):
    ctx = g.Ctx(delta=4e-3, max_fn=r.choice([100, 100, 100, 200, 60]))
    if i % 64 == 22:
        # several files, some of them more than once
        xs, src, files, old = [], '', {}, []
        for j in range(r.randint(2, 12)):
            m = mk1(G, r, 0, ctx, 'f%d.svg' % j)
            if m is None:
                continue
            files['f%d.svg' % j] = m[2]
            old.append(m)
            if r.random() < .3:
                m = r.choice(old)
            v = [float(r.randint(-90, 90)), float(r.randint(-90, 90))]
            xs.append(g.translate(v + [0.], m[0]))
            src += 'translate(%s) %s' % (g.vec(v), m[1])
        if xs:
            return g.Block(xs), dict(src=src, files=files, ctx=ctx, nlay=2, nrand=1000, nnear=1000)
    m = mk1(G, r, i, ctx)
    if m is None:
        return g.Block([g.LinExt([g.square(3)], 1.)])
    return g.Block([m[0]]), dict(src=m[1], files={'f.svg': m[2]}, ctx=ctx, nlay=3, nrand=300, nnear=250)


BAD = ['<svg', '<svg>', '<svg/', '<svg></g></svg>', '<svg><g></svg>', '<svg><g></svg></g>', '<svg></svg', '<svg></svg><svg></svg>',
       '<svg a="1></svg>', "<svg a='1></svg>", '<svg a=1></svg>', '<svg a="<"></svg>', '<svg ,></svg>', '<svg a="&foo;"></svg>', '<svg a="&#x110000;"/>',
       '<svg a="&#xd800;"/>', '<svg a="&#9999999999;"/>', '<svg a="&amp"/>', '<svg><!-- </svg>', '<svg><!- x --></svg>', '<svg><!-- a -- b --></svg>',
       '<?xml version="1.0"?>', '<?xml version="1.0"?> hello', '<?xml version="1.0"?><html></html>', '<?xml', '<?xml version="1.0"', '<?foo?><svg/>',
       '<!DOCTYPE svg', '<!DOCTYPE svg>', '<svg><s:g/></svg>', '<svg s:a="1"/>', '<svg xmlns="http://example.com/"/>', '<svg/>text', '<svg><></></svg>',
       '<svg>< g/></svg>', '<svg></ svg>', '<svg><g a="1"b="2"', '<svg><g /a></svg>', '<svgx/>', '<svg \xff/>', '<svg a="\xc0\x80"/>', '<svg xmlns:s="&"/>', '<svg><',
       '<svg><!', '<svg></', '<svg', '<?', '<!', '<!-- x --', '<svg xmlns/>', '<svg xmlns:a a:b="1"/ >', '<svg><g></h></svg>', '<svg><gg></g></svg>']


def run():
    chk = hob.Check('P18', rule='random SVG files: all path commands in absolute, relative and repeated notation with all number spellings, basic shapes with units and '
                    'percentages, nested groups and svg elements with transforms, viewBox, preserveAspectRatio, dpi, centering, layers, namespaces, elements that '
                    'draw nothing; malformed files; counts when more than 20 sample points were decided to be inside')
    exe = hob.build('plain')
    e2e.batch(chk, exe, mk, chk.n(1100, 60000), shrink=False, keyfn=lambda res: res['fail'][0])
    for s in BAD:
        q, out = hob.hob(exe, 'linear_extrude(1) import("f.svg");', out='o.stl', files={'f.svg': s.encode('latin-1')}, timeout=20)
        chk.case(s)
        ck = hob.crash_kind(q)
        if q.timeout:
            chk.violation('bad-hang', 'no answer for the malformed file %r' % s)
        elif ck or q.rc != 1 or not q.err.strip():
            chk.violation('bad-' + (ck or 'accepted'), 'expected an error for the malformed file %r\nrc=%s %s' % (s, q.rc, q.etext[-300:]))
        chk.stat('malformed')
    # wrong context
    for src in ('import("f.svg");', 'linear_extrude(1) { square(1); } import("f.svg");'):
        q, out = hob.hob(exe, src, out='o.stl', files={'f.svg': b'<svg><rect width="3" height="3"/></svg>'})
        chk.case(src)
        if hob.crash_kind(q) or q.rc != 1 or not q.err.strip():
            chk.violation('context', 'SVG import outside of a 2D context accepted: %s rc=%s %s' % (src, q.rc, q.etext[-300:]))
    chk.assumptions += ['points closer than 4e-3 mm plus the chord error to an outline are not judged',
                        'percentages without a viewBox, one of width/height alone, and fill rules other than evenodd are not generated']
    chk.finish(chk.n(600, 30000))


if __name__ == '__main__':
    main(run)
