"""Policies: what is irregular is refused, reported or skipped as selected, and means what it should."""
from common import main, hob
import outp, models, modelcmp, scadsyn, big
import random, re

SPELL = {'e': ['error', 'fail', 'err'], 'w': ['warn', 'warning'], 'i': ['ignore', 'ign']}
OPT = dict(empty='--empty', collapse='--collapse', o2='--outside-2d', o3='--outside-3d', unsup='--unsupported-functor', par='--unknown-param')
DEFAULT = dict(empty='e', collapse='e', o2='e', o3='e', unsup='w', par='w')
PASS = ('group', 'union', 'difference', 'intersection', 'translate', 'scale', 'rotate', 'mirror', 'color', 'multmatrix', 'render')
PARAM = ('sphere', 'cube', 'cylinder', 'polyhedron', 'polygon', 'circle', 'square', 'text', 'linear_extrude', 'rotate_extrude',
         'projection', 'multmatrix', 'translate', 'mirror', 'scale', 'rotate', 'color', 'import')
PRIM = {3: ('cube', 'sphere', 'cylinder', 'polyhedron'), 2: ('square', 'circle', 'polygon')}
EMPTY = {3: 'difference(){cube(1);cube(2);}', 2: 'difference(){square(1);square(2);}'}
TETRA = 'points=[[0,0,0],[5,0,0],[0,5,0],[0,0,5]]'
E3 = ['cube(0);', 'cube([1,0,1]);', 'cube([0,2,2],center=true);', 'cube(size=[3,3,0]);', 'sphere(0);', 'sphere(r=-1);', 'sphere(d=0,$fn=5);',
      'cylinder(h=0,r=3);', 'cylinder(h=-2,r=1,center=true);', 'cylinder(h=3,r=0);', 'cylinder(4,0,0);', 'cylinder(h=2,d1=0,d2=0,$fn=5);',
      'linear_extrude(height=0) square(2);', 'linear_extrude(height=-3) { circle(2); }', 'linear_extrude(height=2,slices=0) square(1);',
      'linear_extrude(0,twist=30,slices=4) polygon([[0,0],[1,0],[0,1]]);', 'rotate_extrude(angle=0) square([2,1]);',
      'rotate_extrude(angle=-90,$fn=8) translate([1,0]) circle(1);']
E2 = ['square(0);', 'square([0,1]);', 'square([4,0],center=true);', 'circle(0);', 'circle(d=0,$fn=6);', 'circle(r=0);',
      'polygon([[0,0],[1,1]]);', 'polygon(points=[[1,2]]);']
W3 = ['cube(3);', 'sphere(2,$fn=6);', 'cylinder(h=3,r1=2,r2=1);', 'linear_extrude(2) square(3);', 'rotate_extrude($fn=6) square(2);',
      'polyhedron(%s,faces=[[0,1,2],[0,3,1],[0,2,3],[1,3,2]]);' % TETRA]
W2 = ['square(3);', 'circle(2);', 'polygon([[0,0],[4,0],[0,4]]);', 'projection(cut=true) cube(2,center=true);', 'text("x");']
UN = ['minkowski() { cube(3); sphere(1); }', 'resize([1,2,3]) cube(2);', 'offset(r=1) square(4);', 'for (i = [0:3]) translate([1,2,3]) cube(4);',
      'intersection_for(n = [1:2:6]) cube(5);', 'echo("x");', 'minkowski(convexity=3);', 'offset(delta=-1,chamfer=true) { circle(0); foo(); }',
      'resize(newsize=[1,1,1],auto=true) { { } ; cube(0); square(1); }']
PARV = ['1', '-2.5', '"text"', '[1,2]', '[]', '[0:2]', '[1:2:9]', 'true', 'undef', 'foo', '[[1,2],[3]]', 'PI']
PARN = ['foo', 'x', 'radius', 'sizes', 'Center', '$fx', '_a', 'h2', 'cente', 'centers', 'r3', '$f', 'fn', 'versize']


def raw(t):
    return ('raw', t)


class Plant:
    def __init__(self, r):
        self.r = r
        self.sites = []         # class
        self.twist = 0          # a difference may add points to outlines or drop needle tips, which matters for twisted walls and hulls

    def site(self, cls, text, ref):
        """an item with what it is equivalent to (None: not there)"""
        self.sites.append(cls)
        return ('site', len(self.sites) - 1, text, ref)

    def nothing(self, dim):
        return 'text("");' if self.twist and dim == 2 else EMPTY[dim]

    def empty(self, dim):
        r = self.r
        if dim == 3 and r.random() < .15:
            t = r.choice(['linear_extrude(height=0) { }', 'linear_extrude(height=-1,twist=9) *square(2);', 'rotate_extrude(angle=0) group() { }',
                          'linear_extrude(2,slices=0) { {} ; }'])
            return self.site('empty', t, None)
        if dim == 3 and r.random() < .15:
            h, s, k, x = r.randint(1, 9), r.choice(['-1', '[-1,-2]', '-.5']), r.choice([1, 1, 3, 5]), r.choice(
                ['translate([3,1]) square([4,2]);', 'square(5,center=true);', 'circle(3,$fn=7);', 'polygon([[0,0],[9,1],[3,7]]);'])
            t = 'translate([%d,%d,%d]) linear_extrude(height=%d,slices=%d,scale=%%s) %s' % (r.randint(-9, 9), r.randint(-9, 9), r.randint(-5, 5), h, k, x)
            return self.site('empty', t % s, t % '0')
        t = r.choice(E3 if dim == 3 else E2)
        if r.random() < .3:
            t = r.choice(['translate([1,2,3]) ', 'rotate(30) ', 'union() ', 'color("red") ', 'scale([1,2,-1]) ', 'mirror([1,0,0]) ', '# ']) + t
        return self.site('empty', t, self.nothing(dim))

    def collapse(self, dim):
        r = self.r
        f = r.choice(['scale(0)', 'scale([1,0,1])', 'scale([0,2,2])', 'scale([1,1,0])', 'multmatrix([[1,0,0,3],[0,0,0,1],[0,0,1,0]])',
                      'multmatrix([[1,2,0],[2,4,0],[0,0,1]])', 'multmatrix([[0,0,0],[0,0,0]])']) if dim == 3 else \
            r.choice(['scale(0)', 'scale([1,0])', 'scale([0,3])', 'scale([2,2,0])', 'multmatrix([[1,0,0],[1,0,0]])', 'multmatrix([[0,1],[0,2]])'])
        if r.random() < .15:
            return self.site('collapse', f + r.choice([';', ' { }', ' group();', ' { {} ; }']), None)
        k = r.choice(['cube(4);', 'sphere(3);', 'cylinder(h=5,r=2);', '{ cube(3); sphere(2); }', 'linear_extrude(3) square(2);',
                      'union() { cube(9); { } }', 'difference() { cube(3); cube(2); }'] if dim == 3 else
                     ['square(4);', 'circle(3);', '{ square(3); circle(2); }', 'polygon([[0,0],[1,0],[0,1]]);', 'difference() { square(3); circle(1); }'])
        t = f + ' ' + k
        if r.random() < .3:
            t = r.choice(['translate([1,2,3]) ', 'rotate(30) ', 'scale(2) ', 'union() ', 'color([1,0,0]) ', '# ']) + t
        return self.site('collapse', t, self.nothing(dim))

    def list(self, items, dim, kind):
        """kind: functor the items are children of ('' at top level)"""
        r = self.r
        out = [self.item(i, dim) for i in items]
        solid = [k for k, i in enumerate(items) if i[0] == 'f' and not i[1] & {'*', '%'} and i[2] in PRIM[dim]]
        p = .12
        if kind == 'intersection':
            p = .03
        for _ in range(2):
            k = r.randint(0, len(out))
            if r.random() < p and (kind != 'difference' or k or r.random() < .3):
                out.insert(k, self.empty(dim) if r.random() < .6 else self.collapse(dim))
                solid = [s + (s >= k) for s in solid]
        if r.random() < .12:
            k = r.randint(0, len(out))
            out.insert(k, self.site('unsup', r.choice(UN), None))
            solid = [s + (s >= k) for s in solid]
        if r.random() < .004 and kind in ('', 'group'):
            for _ in range(big.size(r, 20, 300)):
                k = r.randint(0, len(out))
                out.insert(k, self.site('unsup', r.choice(UN), None) if r.random() < .5 else self.empty(dim) if r.random() < .5 else self.collapse(dim))
                solid = [s + (s >= k) for s in solid]
        if r.random() < .2 and (kind == '' or kind != 'intersection' and solid):
            # where it does not matter whether it is 'not there' or 'empty'
            lo = min(solid) + 1 if kind == 'difference' else 0
            k = r.randint(lo, len(out))
            t = r.choice(W2 if dim == 3 else W3)
            out.insert(k, self.site('o2' if dim == 3 else 'o3', t, None))
        return out

    def item(self, i, dim):
        r = self.r
        if i[0] == 'b':
            return ('b', self.list(i[1], dim, 'group'))
        if i[0] != 'f' or i[1] & {'*', '%'} or i[2] in ('import', 'text', 'surface') and r.random() < .7:
            return i
        _, mods, name, args, kids = i
        if name in PARAM and r.random() < .05:
            k = max([j + 1 for j, a in enumerate(args) if a[0] is None] + [0])
            k0 = k
            many = big.size(r, 8, 80) if r.random() < .06 else 0
            for q in range(many or 1):
                k = r.randint(k0, len(args))
                self.sites.append('par')
                args = args[:k] + [('SITE', len(self.sites) - 1, '%s=%s' % (r.choice(PARN) if not many else 'zz%d' % q, r.choice(PARV)))] + args[k:]
        if name in PASS:
            kids = self.list(kids, dim, name if name in ('difference', 'intersection') else 'group')
        elif name == 'rotate_extrude' or name == 'linear_extrude' and not any(a[0] in ('twist', 'scale') for a in args):
            kids = self.list(kids, 2, 'group')
        elif name == 'linear_extrude':
            self.twist += 1
            kids = self.list(kids, 2, 'group')
            self.twist -= 1
        elif name == 'projection':
            kids = self.list(kids, 3, 'group')
        elif name == 'hull' and dim == 2:
            self.twist += 1
            kids = self.list(kids, 2, 'group')
            self.twist -= 1
        return ('f', mods, name, args, kids)


def val(v):
    return scadsyn.emit([('f', frozenset(), 'f', [(None, v)], [])], random.Random(1), 'min').partition('(')[2].rpartition(')')[0]


def emit(ast, planted):
    """-> text, {site: line}"""
    out, at = [], {}

    def put(s):
        out.append(s)

    def rec(items):
        for i in items:
            if i[0] == 'site':
                if planted:
                    put(i[2])
                    at[i[1]] = len(out)
                elif i[3]:
                    put(i[3])
            elif i[0] == 'b':
                put('{')
                rec(i[1])
                put('}')
            elif i[0] == 'use':
                raise scadsyn.Unknown('use')
            else:
                a = []
                for x in i[3]:
                    if x[0] == 'SITE':
                        if planted:
                            a.append(x[2])
                            at[x[1]] = len(out) + 1
                    else:
                        a.append((x[0] + '=' if x[0] else '') + val(x[1]))
                h = ' '.join(sorted(i[1])) + ' ' * bool(i[1]) + i[2] + '(' + ', '.join(a) + ')'
                if i[4]:
                    put(h + ' {')
                    rec(i[4])
                    put('}')
                else:
                    put(h + ';')
    rec(ast)
    return '\n'.join(out) + '\n', at


MSG = re.compile(r'^(.*?):(\d+):(?:\d+:)? *(Error|Warning): (.*)$', re.M)


def _one(a):
    exe, seed = a
    m = models.source(seed, models._names + ['P17', 'P18'])
    if m is None:
        return None
    bb, files, args, r = m['bb'], m['files'], m['args'], m['rng']
    try:
        ast, _, _ = scadsyn.parse(m['src'].encode())
    except (scadsyn.Reject, scadsyn.Unknown):
        return None
    p = Plant(r)
    try:
        t = p.list(ast, 3, '')
        src, at = emit(t, True)
        ref, _ = emit(t, False)
    except scadsyn.Unknown:
        return None
    # several sites on one line (parameters) are fine; every site must be there
    info = dict(src=src, ref=ref, kind=None, msg=None, n={}, sites=len(p.sites), files=files)
    if not p.sites:
        return None
    pol = dict(DEFAULT)
    pa = []
    mode = r.choice(['lenient', 'lenient', 'lenient', 'any', 'default'])
    if mode != 'default':
        for c in sorted(OPT, key=lambda c: r.random()):
            for rep in range(r.choice([1, 1, 1, 2])):
                pol[c] = r.choice('wi') if mode == 'lenient' else r.choice('ewi')
                s = r.choice(SPELL[pol[c]])
                o = r.choice(['', '', OPT[c]]) and OPT[c][1:] or OPT[c]
                pa += r.choice([[o + '=' + s], [o, s]])
    lo, hi = float(bb[0][2]), float(bb[1][2])
    step = round(max(.03, (hi - lo) / r.choice([2, 3, 5])), 4)
    z0 = round(lo + step * r.uniform(-.6, .6), 4)
    zs = ['--step=%r' % step, '--min=%r' % z0, '--max=%r' % (hi + 10)]
    info['args'] = args + zs + pa

    def bad(kind, msg):
        info.update(kind=kind, msg=msg)
        return info

    q0, d0 = hob.hob(exe, ref, args + zs, files=files, out='o.stl')
    if q0.timeout or q0.rc != 0 or MSG.search(q0.etext):
        info['n']['reference_not_usable'] = 1
        info['inc'] = True
        return info
    q, d = hob.hob(exe, src, args + zs + pa, files=files, out='o.stl')
    if q.timeout:
        info['inc'] = True
        return info
    ck = hob.crash_kind(q)
    if ck:
        return bad('crash', '%s rc=%s %s' % (ck, q.rc, q.etext[-800:]))
    msgs = [(int(l), k, tx) for f, l, k, tx in MSG.findall(q.etext)]
    err = [x for x in msgs if x[1] == 'Error']
    warn = [x for x in msgs if x[1] == 'Warning']
    want_err = {at[k] for k, c in enumerate(p.sites) if pol[c] == 'e'}
    want_warn = sorted(at[k] for k, c in enumerate(p.sites) if pol[c] == 'w')
    for c in p.sites:
        info['n']['sites_%s_%s' % (c, pol[c])] = info['n'].get('sites_%s_%s' % (c, pol[c]), 0) + 1
    got = sorted(x[0] for x in warn)
    if want_err:
        if q.rc != 1:
            return bad('not-refused', 'exit status %d, but lines %s must be refused\n%s' % (q.rc, sorted(want_err), q.etext[-800:]))
        if len(err) != 1 or err[0][0] not in want_err:
            return bad('error-place', 'errors reported: %s; to be refused: lines %s' % (err, sorted(want_err)))
        extra = list(got)
        for l in want_warn:
            if l in extra:
                extra.remove(l)
        if extra:
            return bad('warning-place', 'warnings in lines %s, expected among %s\n%s' % (got, want_warn, q.etext[-1500:]))
        if d:
            return bad('output-after-error', '%d bytes written' % len(d))
        info['n']['refused'] = 1
        return info
    if q.rc != 0 or err:
        return bad('refused', 'rc=%d although nothing is to be refused\n%s' % (q.rc, q.etext[-1500:]))
    if got != want_warn:
        return bad('warnings', 'warnings in lines %s, expected %s\n%s' % (got, want_warn, q.etext[-1500:]))
    info['n']['accepted'] = 1
    try:
        A, B = outp.slabs(outp.stl_ascii(d)[1]), outp.slabs(outp.stl_ascii(d0)[1])
    except outp.Bad as e:
        return bad('output', str(e))
    e = modelcmp.same_layers(A, B, r)
    if e:
        return bad('geometry', 'layers differ from those of the model without what is skipped: %s\n--- the latter:\n%s' % (e, ref[:6000]))
    info['n']['layers'] = len(A)
    return info


def unknown_functor(exe, chk):
    """functors that are no SCAD functors: --unknown-functor (default: error)"""
    bad = []
    for o, want in (([], 'e'), (['--unknown-functor=error'], 'e'), (['--unknown-functor=warn'], 'w'), (['--unknown-functor=ignore'], 'i')):
        q, _ = hob.hob(exe, 'cube(1);\nfooBarBaz(1) cube(3);\n', o, out='o.stl')
        w = [(l, k) for _, l, k, _ in MSG.findall(q.etext)]
        ok = {'e': q.rc == 1 and w == [('2', 'Error')], 'w': q.rc == 0 and w == [('2', 'Warning')], 'i': q.rc == 0 and not w}[want]
        chk.case('unknown-functor' + str(o), ok)
        if not ok:
            bad.append('%s: rc=%d %s' % (' '.join(o) or 'default', q.rc, w))
    if bad:
        chk.violation('unknown-functor-no-effect', '--unknown-functor does not select what happens: ' + '; '.join(bad))


def run():
    chk = hob.Check('P22', rule='irregular statements are planted into random models, each on a line of its own, and sliced under random policies; counts '
                    'when every site was refused or reported as selected, and the layers of accepted models were compared with the model '
                    'in which each site is replaced by what it means')
    exe = hob.build('plain')
    for x in hob.pmap(_one, [(exe, chk.seed * 1000033 + 22000 + i) for i in range(chk.n(2600, 60000))], chunk=5):
        if x is None:
            continue
        if x.get('inc'):
            chk.inconclusive += 1
        chk.case(x['src'] + str(x['args']), x['kind'] is None and not x.get('inc'))
        for k, v in x['n'].items():
            chk.stat(k, v)
        if x['kind']:
            chk.violation(x['kind'], '%s\nargs: %s\n%s' % (x['msg'], ' '.join(x['args']), x['src'][:6000]), {'model.scad': x['src'], 'reference.scad': x['ref']})
    unknown_functor(exe, chk)
    chk.assumptions += ['objects in the wrong context are planted only where it does not matter whether they count as not there or as empty',
                        'with several sites to be refused, the error may name any of them',
                        'points within 2e-3 mm of an outline are not judged']
    chk.finish(chk.n(900, 20000))


if __name__ == '__main__':
    main(run)
