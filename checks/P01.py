"""No crash, memory error, undefined operation or hang: hostile inputs and options under the sanitizers."""
from common import main, hob
import models
import math, os, random, re

NAMES = None
DIAG = ('numeric overflow', 'Out of memory', 'Unable to write output file', 'Unable to close output file')
ENV_ASAN = dict(ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:max_allocation_size_mb=768:handle_abort=0:'
                             'detect_stack_use_after_return=1:strict_string_checks=1',
                MSAN_OPTIONS='exitcode=77:handle_abort=0:allocator_may_return_null=1:max_allocation_size_mb=768')

NUM = ['0', '-0', '1', '-1', '2', '3', '0.5', '1e-5', '1e-9', '1e-300', '5e-324', '1e10', '-1e10', '1e20', '1e150', '1e300', '-1e300', '1.7976931348623157e308',
       '2147483647', '2147483648', '-2147483649', '4294967295', '4294967296', '9223372036854775807', '9223372036854775808', '18446744073709551616',
       '0.1', '7', '100', '101', '360', '45', '90', '359.99999', '1e-13', '255', '256', '65536']
SCADFRAG = ['cube(1);', 'sphere(2,$fn=7);', 'cylinder(h=1,r1=0,r2=3);', 'difference(){', 'intersection(){', 'union(){', 'hull(){', 'projection(cut=true)', 'projection()',
            'linear_extrude(height=2,twist=90,slices=3)', 'rotate_extrude($fn=5,angle=100)', 'rotate([10,20,30])', 'rotate(30,[1,1,0])', 'mirror([1,1,0])',
            'multmatrix([[1,2,3],[4,5,6],[7,8,9]])', 'scale([1,0,1])', 'translate([0,0,1])', 'color("red",0.5)', 'color("#12")', 'render()', 'group()', '}', '{', '%', '#', '!', '*',
            'polygon([[0,0],[3,0],[0,3]]);', 'polygon([[0,0],[3,0],[0,3]],[[0,1,2],[2,1,0]]);', 'polygon(points=[],paths=[]);', 'circle(r=2);', 'square([2,3],center=true);',
            'text("ab",size=3);', 'polyhedron(points=[[0,0,0],[1,0,0],[0,1,0],[0,0,1]],faces=[[0,1,2],[0,3,1],[0,2,3],[1,3,2]]);', 'import("f.stl");', 'import("f.svg");',
            'import("nope.stl");', 'import("m.scad");', 'include <m.scad>', 'include <nope>', 'include <.>', 'use <m.scad>', 'surface("x");', 'minkowski()', 'resize([1,2,3])',
            'true', 'undef', 'PI', '$fn=3', '"', "'", '[', ']', '(', ')', ',', ';', ':', '=', '<', '>', '/*', '*/', '//', '\\', '\n', '\t', '\x00', '\xff', '\x80', '\xf4\x90\x80\x80',
            '[0:1:2]', '[1:2]', 'linear_extrude(', 'points=[[', 'h=', 'r=', 'v=', 'center=true', 'scale=0', 'twist=-1e9', 'slices=4294967295', 'slices=100000000', 'convexity=-1', 'angle=720']
SVGFRAG = ['<svg>', '</svg>', '<g transform="', '<path d="', '<rect width="', '<circle r="', '<ellipse rx="', '<polygon points="', '<polyline points="', '<line ', 'M', 'm', 'L', 'l', 'H', 'h', 'V',
           'v', 'C', 'c', 'S', 's', 'Q', 'q', 'T', 't', 'A', 'a', 'Z', 'z', '1 1 0 0 1 5 5', '0', '-', '.', 'e', '1e', '1e400', 'rotate(', 'scale(0)', 'skewX(90)', 'matrix(', ')', '"', "'", '>', '/>',
           '<', '&', '&lt;', '&#x', '&#x110000;', '&#0;', '<!--', '-->', '<![CDATA[', ']]>', '<?xml', '?>', '<!DOCTYPE', '<!ENTITY', 'style="fill:none', 'fill-rule:evenodd', 'id="', 'inkscape:label="',
           'px', 'mm', '%', ',', ' ', '\x00', '\xff', 'display="none"', 'width="1e30"', '<defs>', '<use ', '<text>x</text>', 'viewBox="0 0 0 0"', 'viewBox="0 0 10 10"']
STLFRAG = ['solid', 'facet', 'normal', 'outer', 'loop', 'vertex', 'endloop', 'endfacet', 'endsolid', '0 0 0', '1 0 0', '\n', ' ', '\x00', 'nan', 'inf', '1e400', '-', 'e', 'vertex 1 2', 'facet normal 0 0 1\nouter loop']

OPTS = {
    'flag': ['quiet', 'verbose', 'q', 'v', 'stl-bin', 'stl-txt', 'no-auto-grid', 'auto-grid', 'auto-grid-max', 'dump-syn', 'dump-scad', 'dump-csg3', 'dump-csg2', 'dump-ps', 'dump-stl',
             'dump-stlb', 'dump-js', 'ps-scale-fit', 'ps-scale-max', 'ps-no-wire', 'help', 'h', '?', 'no-quiet', 'nope', '', '-', 'dump-', 'STL', 'no-no-tri'],
    'bool': ['opt-no-skip-empty', 'opt-skip-empty', 'opt-no-drop-collinear', 'opt-drop-collinear', 'no-tri', 'tri', 'no-diff', 'diff', 'no-path', 'path', 'js-no-keep-ctxt', 'js-keep-ctxt',
             'ps-no-single-page', 'ps-single-page', 'ps-no-tri', 'ps-tri', 'ps-no-path', 'ps-path', 'ps-no-mark', 'ps-mark', 'ps-no-wire'],
    'num': ['layer-gap', 'grid', 'gran', 'eps', 'eps2', 'ps-rot-x', 'ps-rot-y', 'ps-rot-z', 'ps-scale', 'ps-persp', 'ps-line-width'],
    'int': ['max-fn', 'max-simultaneous', 'js-color-rand'],
    'z': ['min', 'max', 'z', 'step'],
    'err': ['empty', 'collapse', 'outside-3d', 'outside-2d', 'unsupported-functor', 'unknown-functor', 'unknown-param'],
    'rgb': ['ps-color-path', 'ps-color-tri', 'ps-color-fill', 'ps-color-vertex', 'ps-color-mark'],
    'str': ['js-group'],
}


def option(r):
    """a random option (list of arguments) that keeps the amount of work bounded"""
    k = r.choice(list(OPTS) + ['bool', 'bool', 'num', 'err', 'int'])
    o = r.choice(OPTS[k])
    d = r.choice(['-', '--', '--', '--'])
    if k == 'flag':
        a = r.choice([None] * 6 + ['', '1', 'no', 'x'])
        return [d + o + ('' if a is None else '=' + a)]
    if k == 'bool':
        a = r.choice([None, None, None, 'true', 'false', '1', '0', 'yes', 'no', '', 'x', 'TRUE'])
        return [d + o + ('' if a is None else '=' + a)]
    if k == 'num':
        a = r.choice(NUM + ['0.01', '0.25', '1/8192', '2^-13', '2^40', '1e-6', '1/0', 'nan', 'inf', '-inf', '0x1p-3', '1e400', '', 'x', '1/', '2^', '1 ', '90', '-30', '1/3/2'])
    elif k == 'int':
        a = r.choice(['0', '1', '2', '3', '4', '7', '20', '64', '99', '300', '-1', '4294967295', '4294967296', '18446744073709551616', '1e2', '', 'x', '0x10'])
        if o == 'max-fn' and a == '4294967295':
            a = '300'           # legal, but asks for 4 billion edges
    elif k == 'z':
        # the number of layers is bounded by the later --min, --max and --step
        a = r.choice(['0', '1', '-1', '0.5', '2', '1/3', 'nan', 'inf', '', 'x', '1e400', '1e-300', '1e300'])
    elif k == 'err':
        a = r.choice(['error', 'fail', 'err', 'warn', 'warning', 'ignore', 'ign', '', 'x', 'Error'])
    elif k == 'rgb':
        a = r.choice(['#fff', '#123456', 'red', '', '#', '#12', '0,0,0', '255,255,255', '1,2', '256,0,0', 'x', '#1234567', '#ggg'])
    else:
        a = r.choice(['a', '', 'x' * 300, "a'b", 'a"b</script>', '\xff', 'a\nb'])
    return [d + o, a] if r.random() < .4 else [d + o + '=' + a]


def layers(m, r):
    """arguments that bound the number of layers"""
    lo, hi = -20.0, 40.0
    if m is not None:
        lo, hi = float(m['bb'][0][2]), float(m['bb'][1][2])
    if not (hi - lo < 1e6):
        lo, hi = -20.0, 40.0
    n = r.choice([1, 2, 3, 5, 8])
    return ['--min=%.9g' % (lo + (hi - lo) * r.uniform(0, .3)), '--max=%.9g' % hi, '--step=%.9g' % max(1e-4, (hi - lo) / n)]


def number(r):
    k = r.random()
    if k < .5:
        return r.choice(NUM)
    if k < .8:
        return '%d' % r.randint(-20, 120)
    return '%.*g' % (r.randint(1, 17), r.uniform(-30, 30) * 10 ** r.choice([0, 0, 0, -3, -7, 2]))


def mutate(r, b, frag):
    """token and byte level mutation"""
    b = bytearray(b)
    for _ in range(r.choice([1, 1, 2, 3, 5, 12])):
        k = r.random()
        n = len(b)
        if k < .35:
            t = list(re.finditer(rb'[-+]?[0-9]+(\.[0-9]*)?([eE][-+]?[0-9]+)?', bytes(b)))
            if t:
                x = r.choice(t)
                b[x.start():x.end()] = number(r).encode()
                continue
        p = r.randrange(n + 1)
        if k < .55:
            b[p:p] = r.choice(frag).encode('latin-1')
        elif k < .65:
            b[p:p + r.choice([1, 1, 2, 5, 20, 100])] = b''
        elif k < .75:
            q = r.randrange(n + 1)
            b[p:p] = b[q:q + r.choice([1, 4, 16, 60, 200])]
        elif k < .85 and n:
            p = r.randrange(n)
            b[p] = r.choice([0, 10, 13, 32, 34, 39, 40, 44, 45, 48, 57, 59, 91, 123, 127, 128, 255, r.randrange(256), b[p] ^ (1 << r.randrange(8))])
        elif k < .93:
            t = list(re.finditer(rb'[A-Za-z_$]+', bytes(b)))
            if t:
                x, y = r.choice(t), r.choice(t)
                b[x.start():x.end()] = y.group(0)
        elif k < .97:
            del b[p:]
        else:
            b[p:p] = r.choice(frag).encode('latin-1') * r.choice([3, 30, 300])
    return bytes(b[:60000])


def limit_slices(b):
    """parameters that legitimately ask for millions of objects would only test patience"""
    def f(x):
        try:
            return x.group(0) if not 400 < float(x.group(2)) < 4e9 else x.group(1) + b'4e9'
        except ValueError:
            return x.group(0)
    return re.sub(rb'(slices\s*=\s*)([0-9.eE+]+)', f, b)


def fixed():
    """(id, source, files, args, out)"""
    L = []
    for n in (300, 990, 999, 1000, 1001, 5000, 300000):
        for nm, s in (('block', '{' * n + 'cube(1);' + '}' * n), ('chain', 'union() ' * n + 'cube(1);'), ('array', 'cube(' + '[' * n + '1' + ']' * n + ');'),
                      ('braces', 'group(){' * n + 'cube(1);' + '}' * n), ('mods', '#' * n + 'cube(1);'), ('open', 'union(){' * n), ('diff', 'difference(){cube(2);' * n + 'cube(1);' + '}' * n)):
            if n < 9000 or nm != 'diff':
                for out in ('o.stl', 'o.js', '--dump-scad', '--dump-csg3', '--dump-syn') if n < 1001 else ('o.stl',):
                    if n == 999 and nm == 'diff' and out[0] != '-':
                        continue
                    L.append(('nest-%s-%d' % (nm, n), s, {}, ['--step=1'], out))
        L.append(('nest-svg-%d' % n, 'linear_extrude(1) import("f.svg");', {'f.svg': '<svg>' + '<g>' * n + '<rect width="3" height="3"/>' + '</g>' * n + '</svg>'}, ['--step=1'], 'o.stl'))
    L.append(('include-self', 'include <m.scad>', {}, [], 'o.stl'))
    L.append(('include-loop', 'include <a>', {'a': 'include <b>', 'b': 'include <a>'}, [], 'o.stl'))
    L.append(('include-wide', 'include <a>\n' * 3000, {'a': 'cube(1);//'}, [], '--dump-syn'))
    for s in ('cube(1e300);', 'cube([1e300,1,1]);', 'cube([1,1,1e300]);', 'sphere(1e200);', 'translate([1e300,0,0]) cube(1);', 'scale(1e200) scale(1e200) cube(1);', 'cube(1e-300);', 'cylinder(r=1e-9,h=1);',
              'scale([1e-200,1,1]) scale([1e-200,1,1]) cube(1);', 'cube(1e18);', 'linear_extrude(1e300) circle(1);', 'linear_extrude(1,twist=1e300) circle(1);',
              'rotate_extrude(angle=1e300) translate([2,0]) circle(1);', 'rotate([1e300,1e300,1e300]) cube(1);', 'multmatrix([[1e200,1e200,0],[1e200,-1e200,0],[0,0,1]]) cube(1);',
              'polygon([[0,0],[1e300,0],[0,1e300]]);', 'linear_extrude(1) polygon([[0,0],[1e300,0],[0,1e300]]);', 'linear_extrude(1) hull(){circle(1e300);translate([1e300,0])circle(1);}',
              'rotate(45,[1e200,1e200,1e200]) cube(1);', 'mirror([1e200,1e-200,0]) cube(1);', 'linear_extrude(1,slices=1e9) square(1);', 'linear_extrude(1,slices=4294967296) square(1);',
              'cylinder(r=1,h=1,$fn=4e9);', 'sphere(1,$fn=1);', 'cylinder(r=1,h=1,$fn=-5);', 'cylinder(r=1,h=1,$fn=1e300);', '', ' ', '\n', '\x00', '\xef\xbb\xbf', '\xef\xbb\xbfcube(1);',
              'linear_extrude(1) import("f.svg");', 'import("f.stl");', 'import("d");', 'include <d>', 'import("d/x.svg");', 'import("");', 'include <>', 'use <>'):
        for a in (['--step=0.3'], ['--step=1e299'], ['--step=1e17']):
            if a == ['--step=0.3'] and re.search('1e18|1e150', s):
                continue
            L.append(('extreme', s.encode('latin-1'), {'f.svg': '', 'f.stl': '', 'd/x.svg': '<svg'}, a, 'o.stl'))
    for i in (0, 3, 4, 5, 7, 8, 9, 255, -1, '3.5', '8.5', 4294967295, 4294967296, 2147483648, 9223372036854775807, 9223372036854775808, 18446744073709551615, 18446744073709551616, '1e30', '1/0'):
        for s in ('linear_extrude(1) polygon([[0,0],[4,0],[4,4],[0,4]], [[0,1,2,%s]]);', 'linear_extrude(1) polygon([[0,0],[4,0],[4,4],[0,4]], [%s,1,2]);', 'linear_extrude(1) polygon([[0,0],[4,0],[4,4],[0,4]], [[0,1,2],[3,1,%s]]);',
                  'polyhedron([[0,0,0],[2,0,0],[0,2,0],[0,0,2]], [[0,2,%s],[0,1,3],[1,2,3],[2,0,3]]);', 'polyhedron([[0,0,0],[2,0,0],[0,2,0],[0,0,2]], [[0,2,1],[0,1,3],[1,2,3],[2,0,%s]]);',
                  'polyhedron([[0,0,0],[2,0,0],[2,2,0],[0,2,0],[0,0,2],[2,0,2],[2,2,2],[0,2,2]], [[3,2,1,0],[4,5,6,7],[0,1,5,4],[1,2,6,5],[2,3,7,6],[3,0,4,%s]]);'):
            L.append(('index', s % i, {}, ['--step=.7'], 'o.stl'))
    for mf in range(0, 8):
        L.append(('max-fn', 'sphere(1);translate([3,0,0])cylinder(r=1,h=1);translate([6,0,0])rotate_extrude()translate([1,0])circle(.5);translate([9,0,0])linear_extrude(1)circle(1);'
                  'translate([12,0,0])linear_extrude(1)import("f.svg");', {'f.svg': '<svg><circle r="3"/><path d="M0 0C1 2 3 4 9 0A5 5 1 0 1 0 9Z"/></svg>'},
                  ['--max-fn=%d' % mf, '--step=.4'], 'o.stl'))
    for z in ('--step=0', '--step=-1', '--step=1e-300', '--min=-1e300', '--max=1e300', '--min=5 --max=1', '--z=1e300', '--z=.5 --step=1e-300', '--grid=1e30', '--grid=1e-30',
              '--gran=0', '--gran=1e300', '--gran=1e-300', '--grid=1e30 --no-auto-grid', '--grid=0', '--grid=-1', '--eps=1e300', '--eps=0', '--eps=-1', '--eps2=1e300', '--layer-gap=5', '--layer-gap=-5',
              '--layer-gap=1e300', '--max-simultaneous=0', '--max-simultaneous=1', '--max-simultaneous=18446744073709551615', '--ps-persp=1e300', '--ps-scale=0', '--ps-rot-x=90', '--ps-line-width=-1'):
        for out in ('o.stl', 'o.stlb', 'o.js', 'o.scad', 'o.ps'):
            L.append(('option', 'difference(){sphere(2);cube(1);}translate([5,0,0])cube(2);', {}, z.split(), out))
    for n in (31, 101, 203, 401):
        # a polygon whose edges all cross in one point between the points of the grid
        P = []
        for i in range(n):
            a = math.pi * i / n
            u = [round(81920 * math.cos(a)) / 8192, round(81920 * math.sin(a)) / 8192]
            v = [1 / 8192 - u[0], 1 / 8192 - u[1]]
            P += [v, u] if i % 2 else [u, v]
        for h in ('linear_extrude(2)', 'linear_extrude(2) union() { translate([90,0]) circle(3); ', 'rotate_extrude() translate([20,0])'):
            L.append(('spokes', h + 'polygon(%r);' % P + ('}' if '{' in h else ''), {}, ['--step=3'], 'o.stl'))
    for i in range(4):
        L.append(('args', 'cube(1);', {}, [[], ['-o'], ['--step'], ['-o', '']][i], None))
    return L


def gen(seed):
    """kind, source bytes, files, args, out"""
    r = random.Random(seed * 7919 + 13)
    kind = r.choice(['valid', 'valid', 'scad', 'scad', 'scad', 'import', 'import', 'option', 'soup', 'elem', 'elem'])
    m = None
    if kind == 'import':
        for k in range(8):
            m = models.source(seed * 8 + k, ['P17', 'P18', 'P18'])
            if m and m['files'] and max(len(v) for v in m['files'].values()) < 8000:
                break
    elif kind not in ('soup', 'elem'):
        for k in range(8):
            m = models.source(seed * 8 + k, models._names + ['P17', 'P18'])
            if m and len(m['src']) < 6000:
                break
    files = {k: v if isinstance(v, bytes) else v.encode('latin-1', 'replace') for k, v in ((m or {}).get('files') or {}).items()}
    src = (m['src'] if m else '').encode()
    args = list(m['args']) if m else []
    if kind == 'scad':
        src = mutate(r, src, SCADFRAG)
        if r.random() < .1:
            files = dict(files, **{'f.stl': b'solid\nendsolid', 'f.svg': b'<svg><rect width="3" height="2"/></svg>'})
    elif kind == 'import' and files:
        k = r.choice(sorted(files))
        files[k] = mutate(r, files[k], SVGFRAG if b'<svg' in files[k] else STLFRAG)
    elif kind == 'elem':
        if r.random() < .5:
            src = b'linear_extrude(3) import("f.svg"%s);' % r.choice([b'', b',layer="a"', b',center=true', b',$fn=5', b',dpi=25.4'])
            files = {'f.svg': ('<svg xmlns="http://www.w3.org/2000/svg" width="%s" height="%s">' % (r.choice(['100', '10mm', '']), r.choice(['100', '10mm', 'x'])) + ''.join(svgelem(r) for _ in range(r.randint(1, 6))) + '</svg>').encode()}
        else:
            src = ''.join(scadelem(r) for _ in range(r.choice([1, 1, 2, 3]))).encode()
            files = {'f.stl': b'solid x facet normal 0 0 1 outer loop vertex 0 0 0 vertex 1 0 0 vertex 0 1 0 endloop endfacet endsolid', 'f.svg': b'<svg><rect width="3" height="2"/></svg>'}
    elif kind == 'soup':
        w = r.random()
        if w < .5:
            src = ' '.join(r.choice(SCADFRAG) for _ in range(r.randint(1, 30))).encode('latin-1')
        elif w < .75:
            src, files = b'linear_extrude(3) import("f.svg"%s);' % r.choice([b'', b',layer="a"', b',id="b"', b',center=true', b',$fn=3', b',dpi=0', b',dpi=1e-300']), {
                'f.svg': ('<svg>' + ''.join(r.choice(SVGFRAG) for _ in range(r.randint(1, 40)))).encode('latin-1')}
        else:
            src, files = b'import("f.stl"%s);' % r.choice([b'', b',center=true', b',convexity=3']), {'f.stl': ('solid ' + ' '.join(r.choice(STLFRAG) for _ in range(r.randint(1, 60)))).encode('latin-1')}
    src = limit_slices(src)
    if kind == 'option' or r.random() < .25:
        for _ in range(r.choice([1, 1, 2, 4, 7])):
            args += option(r)
    if kind in ('valid', 'option'):
        args += layers(m, r)
    else:
        args += layers(m if r.random() < .5 else None, r)
    out = r.choice(['o.stl', 'o.stl', 'o.stlb', 'o.js', 'o.scad', 'o.ps', '--dump-scad', '--dump-csg3', '--dump-syn', '--dump-ps', '--dump-js'])
    return kind, src, files, args, out


SVGEL = ['svg', 'g', 'circle', 'ellipse', 'rect', 'line', 'polyline', 'polygon', 'path', 'defs', 'symbol', 'use', 'text', 'tspan', 'style', 'switch', 'a', 'title', 'image', 'marker', 'clipPath', 'mask',
         'pattern', 'foreignObject', 'script', 'animate', 'solidColor', 'x']
SVGAT = ['x', 'y', 'width', 'height', 'cx', 'cy', 'r', 'rx', 'ry', 'x1', 'y1', 'x2', 'y2', 'd', 'points', 'transform', 'viewBox', 'preserveAspectRatio', 'id', 'style', 'class', 'pathLength', 'xmlns', 'xmlns:a', 'a:x']
SVGNUM = ['0', '1', '5', '-3', '12.5', '1e3', '.5', '5.', '+2', '1e-9', '1e300', '-1e300', '1e400', '00', '', '-', '.', 'e', 'x', 'auto', 'nan', 'inf', '0x10', '7px', '3mm', '50%', '2in', '1cm', '9pt', '4pc', '1em', '2 ', ' 2', '1,2', '1e',
          '100000', '3e38']
SVGTR = ['translate(1)', 'translate(1,2)', 'translate(1 2 3)', 'scale(2)', 'scale(1 -1)', 'scale(0)', 'scale(1,2,3)', 'rotate(30)', 'rotate(30 5 5)', 'rotate(30,5)', 'rotate(1 2 3 4)', 'skewX(20)', 'skewY(20)', 'skewX(90)', 'skewX(1 2)',
         'skewY(3,4)', 'matrix(1 0 0 1 3 4)', 'matrix(1 0 0 0 0 0)', 'matrix(1 2 3)', 'matrix(1 2 3 4 5 6 7)', 'foo(1)', 'translate', 'translate(', 'translate()', 'rotate(x)', ',', 'none', 'scale(1e300)', 'scale(1e-300)', 'tr(1)', 's(1)', 'r(2)',
         'm(1)', 'matrix(1 2 3 4 5 6 7 8 9)', 'translate(1,)', 'translate(,1)', 'translate(1;2)', '()', '(1)', 'translate (1 2)', 'translate(1e308 1e308)', 'rotate(1e300)']
SVGPATH = list('MmLlHhVvCcSsQqTtAaZzZz') + ['0', '1', '5', '-2', '.5', '3e0', ',', ' ', '1 1', '0 0 1', '1 0', '10 5', '1e39', '1e308', '-', 'e', '0,1,5,5', '3 3 30 0 1 5 5', '0 0 0 0 0 0 0']
PAR = ['[0:9]', '0 0 10 10', '1 1 0 5', '0,0,3', '-5 -5 10 1e30', '0 0 1e-30 1e-30', 'x', '']


def svgelem(r, depth=0):
    """any element with any of the attributes"""
    at = {}
    for _ in range(r.choice([0, 0, 1, 2, 3, 4, 6])):
        k = r.choice(SVGAT)
        if k == 'd':
            v = 'M 1 2 ' * (r.random() < .7) + ' '.join(r.choice(SVGPATH) for _ in range(r.randint(0, 20)))
        elif k == 'points':
            v = r.choice([' ', ',', ' , ']).join(r.choice(SVGNUM) if r.random() < .1 else str(r.randint(-9, 9)) for _ in range(r.randint(0, 12)))
        elif k == 'transform':
            v = r.choice([' ', ',', '']).join(r.choice(SVGTR) for _ in range(r.choice([0, 1, 1, 2, 4])))
        elif k == 'viewBox':
            v = r.choice(PAR)
        elif k == 'preserveAspectRatio':
            v = r.choice(['none', 'xMidYMid', 'xMinYMax slice', 'xMaxYMin meet', 'defer none', 'x', '', 'xMidYMid  slice x'])
        elif k in ('id', 'class', 'style'):
            v = r.choice(['a', 'b', 'layer1', '', ' ', 'a b'])
        elif k.startswith('xmlns'):
            v = r.choice(['http://www.w3.org/2000/svg', 'urn:x', ''])
        else:
            v = r.choice(SVGNUM)
        at[k] = v
    n = r.choice(SVGEL[:9] if r.random() < .75 else SVGEL)
    s = '<' + n + ''.join(' %s="%s"' % x for x in at.items())
    kids = '' if r.random() < (.75 if n not in ('g', 'svg') else .1) else ''.join(svgelem(r, depth + 1) for _ in range(r.choice([0, 1, 2, 3]))) if depth < 4 else ''
    if kids or r.random() < .3:
        return s + '>' + r.choice(['', ' ', 'text', '<!-- c -->']) + kids + '</' + n + '>'
    return s + '/>'


FUN = {'cube': ['size', 'center'], 'sphere': ['r', 'd', '$fn', '$fa', '$fs'], 'cylinder': ['h', 'r1', 'r2', 'r', 'd', 'd1', 'd2', 'center', '$fn'], 'polyhedron': ['points', 'faces', 'triangles', 'convexity'], 'circle': ['r', 'd', '$fn'],
       'square': ['size', 'center'], 'polygon': ['points', 'paths', 'convexity'], 'text': ['text', 'size', 'font', 'halign', 'valign', 'spacing', '$fn', 'direction', 'language', 'script'], 'import': ['file', 'layer', 'convexity', 'center', 'id', 'dpi'],
       'surface': ['file', 'center'], 'union': [], 'difference': [], 'intersection': [], 'hull': [], 'group': [], 'render': ['convexity'], 'translate': ['v'], 'rotate': ['a', 'v'], 'scale': ['v'], 'mirror': ['v'], 'multmatrix': ['m'],
       'color': ['c', 'alpha'], 'linear_extrude': ['height', 'center', 'convexity', 'twist', 'slices', 'scale', '$fn'], 'rotate_extrude': ['angle', 'convexity', '$fn'], 'projection': ['cut'], 'hob3l_xor': [], 'offset': ['r'], 'minkowski': [],
       'nope': ['x']}


def anyval(r, depth=0):
    k = r.random()
    if k < .4:
        return r.choice(['0', '1', '2', '3', '7', '-1', '0.5', '10', '1e-3', '1e-9', '1e9', '-5', '90', '360', '45', '1e300', '1e-300', '4294967295', '-2147483648'])
    if k < .5:
        return r.choice(['true', 'false', 'undef', 'PI', 'x', '"red"', '"#abc"', '"f.svg"', '"f.stl"', '"\\n"', '"\\x41"', '""', '"left"', '[0:1]', '[0:1:3]', '[1:-1:0]'])
    if depth > 3:
        return '[]'
    n = r.choice([0, 1, 2, 2, 3, 3, 3, 4, 4, 5])
    if r.random() < .5:
        return '[' + ','.join(r.choice(['0', '1', '2', '3', '-1', '.5', '4', '5']) for _ in range(n)) + ']'
    return '[' + ','.join(anyval(r, depth + 1) for _ in range(n)) + ']'


def scadelem(r, depth=0):
    """any functor with any arguments and children"""
    f = r.choice(sorted(FUN))
    args = []
    np = r.choice([3, 4, 5, 6, 8])
    for p in FUN[f]:
        q = r.random()
        if f in ('polygon', 'polyhedron') and q < .6 and p in ('points', 'paths', 'faces', 'triangles'):
            # of the right form: indexes up to the number of points
            if p == 'points':
                args.append('%s=[%s]' % (p, ','.join('[%s]' % ','.join(str(r.choice([0, 1, 2, 3, 5, 8])) for _ in range(2 if f == 'polygon' else 3)) for _ in range(np))))
            else:
                args.append('%s=[%s]' % (p, ','.join('[%s]' % ','.join(str(r.randint(0, np - (r.random() < .9))) for _ in range(r.choice([3, 3, 3, 4, 5]))) for _ in range(r.choice([1, 1, 2, 4, 5, 6])))))
        elif q < .3:
            args.append('%s=%s' % (p, anyval(r)))
        elif q < .45:
            args.append(anyval(r))
    if r.random() < .3:
        r.shuffle(args)
    s = r.choice([''] * 12 + list('*!#%')) + f + '(' + ','.join(args) + ')'
    n = r.choice([0, 1, 1, 2, 3]) if depth < 4 else 0
    if n == 0:
        return s + r.choice([';', ';', '{}'])
    kids = ''.join(scadelem(r, depth + 1) if r.random() < .6 else r.choice(['cube(2);', 'square(3);', 'circle(2,$fn=5);', 'translate([1,1,1])cube(2);', 'translate([3,0])square([1,2]);', '{}', ';']) for _ in range(n))
    return s + '{' + kids + '}'


def one(job):
    """-> (kind, verdict, text, info)"""
    tag, exes, x = job
    kind, src, files, args, out = gen(x) if isinstance(x, int) else x
    exe, variant = exes[x % len(exes)] if isinstance(x, int) else exes[tag % len(exes)]
    a = list(args)
    if out is not None:
        a += ['-o', out] if out[0] != '-' else [out]
    a = [y.encode('latin-1').decode('utf-8', 'surrogateescape').replace('\0', '') for y in a]
    import tempfile, shutil
    d = tempfile.mkdtemp(prefix='hobp01-')
    try:
        fs = dict(files)
        fs['m.scad'] = src
        for n, c in fs.items():
            p = os.path.join(d, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'wb') as f:
                f.write(c if isinstance(c, bytes) else c.encode('latin-1'))
        q = hob.patient([exe, 'm.scad'] + a, d, 30, env=ENV_ASAN)
        wrote = os.path.exists(os.path.join(d, out)) and os.path.getsize(os.path.join(d, out)) if out and out[0] != '-' else len(q.out)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    bad = hob.crash_kind(q)
    res = 'ok' if q.rc == 0 else 'error'
    if bad == 'signal6' and any(t.encode() in q.err for t in DIAG):
        bad, res = None, 'diagnosed-abort'
    if bad is None and q.rc == 1 and not q.err.strip():
        bad = 'silent-failure'
    text = None
    if bad:
        e = q.etext
        ls = [l for l in e.split('\n') if re.search(r'rror|ssert|#[0-6] |This code|SUMMARY|Not yet', l)][:14]
        text = '%s under %s (rc %s): m.scad %s\n%s\nsource:\n%s' % (bad, variant, q.rc, ' '.join(map(repr, a)), '\n'.join(l[:200] for l in ls), (src if isinstance(src, bytes) else src.encode('latin-1'))[:600].decode('latin-1'))
    msg = ''
    if q.rc == 1:
        x = re.search(rb'Error: ([^\n]{0,60})', q.err)
        msg = re.sub(r"[0-9'\"].*", '', x.group(1).decode('latin-1')) if x else ''
    return kind, variant, res, bad, text, msg, bool(wrote), src, files, a


def run():
    c = hob.Check('P01', rule='a run of the real program under a sanitizer on a generated input; distinct by kind of input, kind of result and error message or by the input itself when it got through')
    exes = [(hob.build('asan'), 'ASan+UBSan'), (hob.build('msan'), 'MSan')]
    jobs = [(i, [e], x) for i, x in enumerate(fixed()) for e in (exes if c.tier == 'thorough' else [exes[i % 5 == 4]])]
    base = c.seed * 10000000
    n = c.n(3600, 150000)
    jobs += [(0, exes, base + i) for i in range(n)]
    # the one known defect
    k = hob.hob(exes[0][0], 'cube(1);', ['--no-csg'], out='o.stl')[0]
    if hob.crash_kind(k):
        c.violation('no-csg-assert' if b'no v_line2 support' in k.err else 'no-csg-crash', '--no-csg with STL output: %s' % k.etext[-300:])
    msgs = {}
    for kind, variant, res, bad, text, msg, wrote, src, files, a in hob.pmap(one, jobs, chunk=20):
        src = src if isinstance(src, bytes) else src.encode('latin-1')
        c.case((kind, res, src, sorted(files.items()), a))
        c.stat('kind_' + kind.split('-')[0])
        c.stat('result_' + res)
        c.stat('monitor_' + variant)
        if wrote:
            c.stat('runs_with_output')
        if msg:
            msgs[msg] = msgs.get(msg, 0) + 1
        if bad:
            f = {'m.scad': src}
            f.update({n.replace('/', '_'): v for n, v in files.items()})
            c.violation('%s' % bad, text, f)
        elif res == 'ok' and wrote and len(c.samples) < 3:
            c.sample(dict(kind=kind, args=a, source=src[:300].decode('latin-1')))
    c.stats['distinct_error_messages'] = len(msgs)
    c.finish(min_nontrivial=300)


if __name__ == '__main__':
    main(run)
