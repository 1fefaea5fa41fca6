"""Options mean the same in every notation and order, have their documented defaults and effects, and wrong ones are rejected."""
from common import main, hob
import os, random, re, shutil, tempfile
import models

BOOL = {  # option: negation
    'opt-no-skip-empty': 'opt-skip-empty', 'opt-no-drop-collinear': 'opt-drop-collinear', 'no-tri': 'tri', 'no-diff': 'diff', 'no-path': 'path',
    'js-no-keep-ctxt': 'js-keep-ctxt', 'ps-no-single-page': 'ps-single-page', 'ps-no-tri': 'ps-tri', 'ps-no-path': 'ps-path', 'ps-no-mark': 'ps-mark', 'no-csg': 'csg',
}
NEG = dict(BOOL, **{v: k for k, v in BOOL.items()})
POL = ['empty', 'collapse', 'outside-3d', 'outside-2d', 'unsupported-functor', 'unknown-functor', 'unknown-param']
FLAG = ['q', 'quiet', 'v', 'verbose', 'stl-bin', 'stl-txt', 'no-auto-grid', 'auto-grid', 'auto-grid-max', 'dump-syn', 'dump-scad', 'dump-csg3', 'dump-csg2', 'dump-ps', 'dump-stl',
        'dump-stlb', 'dump-js', 'ps-scale-fit', 'ps-scale-max', 'ps-no-wire']
DIM = ['layer-gap', 'min', 'max', 'step', 'z', 'grid', 'gran', 'eps', 'eps2', 'ps-rot-x', 'ps-rot-y', 'ps-rot-z', 'ps-scale', 'ps-persp', 'ps-line-width']
SIZE = ['max-fn', 'max-simultaneous', 'js-color-rand']
RGB = ['ps-color-path', 'ps-color-tri', 'ps-color-fill', 'ps-color-vertex', 'ps-color-mark']
ARG = DIM + SIZE + RGB + POL + ['o', 'js-group']
ALL = ['h', '?', 'help'] + FLAG + list(NEG) + ARG
# what the help and the manual say is the default
DEFAULT = dict([('layer-gap', '-1'), ('step', '0.2'), ('max-fn', '100'), ('max-simultaneous', '10'), ('grid', '8192'), ('gran', '0x1p-13'), ('eps', '0x1p-15'), ('eps2', '0x1p-30'),
                ('unsupported-functor', 'warn'), ('unknown-functor', 'error'), ('unknown-param', 'warn'), ('empty', 'error'), ('collapse', 'error'), ('outside-3d', 'error'),
                ('outside-2d', 'error'), ('opt-skip-empty', None), ('opt-drop-collinear', None), ('csg', None), ('tri', None), ('diff', None), ('no-path', None), ('stl-txt', None),
                ('auto-grid', None), ('js-color-rand', '0')])
MODEL = '''difference() {
  union() { sphere(r=4); translate([7,0,0]) cube([3.3,4,5], bogus=1); color("red") group() { translate([-8,0,0]) cylinder(h=3,r=2); } }
  translate([0,0,-9]) cylinder(h=30,d=2,$fn=7);
}
linear_extrude(height=2) { translate([0,9]) square([3,2]); translate([1,10]) circle(2); }
'''
BIG = MODEL + 'difference() { cube(5); translate([3,3,-1]) cube(90); }'


def num(r, lo, hi):
    return '%.4g' % r.uniform(lo, hi)


def pick(r, h):
    """random options: list of classes, each a list of (name, value) in a fixed order"""
    c = []
    k = r.random()
    if k < .3:
        v = num(r, -.1 * h, h)
        c.append([('z', v)])
    elif k < .6:
        c.append([('min', num(r, -.2 * h, .4 * h))])
    if k > .5 and k < .8:
        c.append([('max', num(r, .3 * h, 1.1 * h))])
    c.append([('step', num(r, h / 9, h / 2))])
    opt = [
        lambda: [('layer-gap', r.choice(['0', '.02', '0.005', '-1']))],
        lambda: [('max-fn', r.choice(['0', '5', '12', '30']))],
        lambda: [(r.choice(['opt-no-skip-empty', 'opt-skip-empty']), None)],
        lambda: [(r.choice(['opt-no-drop-collinear', 'opt-drop-collinear']), None)],
        lambda: [('max-simultaneous', r.choice(['2', '3', '5', '10', '17']))],
        lambda: [r.choice([('grid', r.choice(['1024', '4096', '65536', '10000', '100'])), ('gran', r.choice(['0.001', '0.25', '0.0009765625']))])],
        lambda: [(r.choice(['no-auto-grid', 'auto-grid', 'auto-grid-max']), None)],
        lambda: [('eps', r.choice(['1e-4', '0x1p-15', '1e-6']))],
        lambda: [('eps2', r.choice(['1e-9', '1e-10']))],
        lambda: [(r.choice(['q', 'v', 'quiet', 'verbose']), None) for _ in range(r.randint(1, 3))],
        lambda: [(r.choice(['stl-bin', 'stl-txt']), None)],
        lambda: [('js-group', ' '.join(r.sample(['a', 'bc', 'd', 'foo', 'x1'], r.randint(1, 3)))) for _ in range(r.randint(1, 2))],
        lambda: [(r.choice(['js-no-keep-ctxt', 'js-keep-ctxt']), None)],
        lambda: [('js-color-rand', r.choice(['0', '15', '255']))],
        lambda: [(r.choice(['no-tri', 'tri', 'no-diff', 'diff', 'path', 'no-path']), None)],
    ] + [lambda p=p: [(p, r.choice(['error', 'warn', 'ignore']))] for p in POL]
    ps = [
        lambda: [(r.choice(['ps-scale-fit', 'ps-scale-max']), None)],
        lambda: [(r.choice(['ps-no-single-page', 'ps-single-page']), None)],
        lambda: [(x, None) for x in r.choice([['ps-no-tri'], ['ps-no-path'], ['ps-no-mark'], ['ps-no-wire'], ['ps-no-wire', 'ps-tri'], ['ps-no-wire', 'ps-path', 'ps-mark'], ['ps-mark', 'ps-no-path']])],
        lambda: [r.choice([('ps-rot-x', num(r, -80, 80)), ('ps-rot-y', num(r, -80, 80)), ('ps-rot-z', num(r, -180, 180)), ('ps-scale', num(r, .5, 3))]) for _ in range(r.randint(1, 4))],
        lambda: [('ps-persp', r.choice(['1', '.5', '2']))],
        lambda: [('ps-line-width', num(r, .1, 2))],
    ] + [lambda n=n: [(n, '%06x' % r.randrange(1 << 24))] for n in RGB]
    fmt = r.choice(['stl', 'stl', 'stlb', 'stb', 'js', 'scad', 'csg', 'ps', 'ps', None, None])
    dump = None
    if fmt is None:
        dump = r.choice(['dump-syn', 'dump-scad', 'dump-csg3', 'dump-csg2', 'dump-ps', 'dump-stl', 'dump-stlb', 'dump-js'])
    elif r.random() < .2:
        dump = r.choice(['dump-stl', 'dump-stlb', 'dump-js', 'dump-csg2', 'dump-ps', 'dump-scad'])
    if dump:
        c.append([(dump, None)])
    for f in r.sample(opt, r.randint(1, 6)) + (r.sample(ps, r.randint(1, 5)) if fmt == 'ps' or dump == 'dump-ps' else []):
        c.append(f())
    kind = dump or fmt
    if kind in ('ps', 'dump-ps') and r.random() < .2:
        c.append([(r.choice(['no-csg', 'csg']), None)])
    return c, ('o.' + fmt) if fmt else None


def number(r, v):
    """another notation of a decimal number"""
    k = r.randrange(7)
    if k == 0 and 'e' not in v and 'x' not in v:
        return v + 'e0'
    if k == 1:
        return v + '/1'
    if k == 2:
        return v + '^1'
    if k == 3:
        return float.fromhex(v).hex() if 'x' in v else float(v).hex()
    if k == 4 and v[0] != '-':
        return '+' + v
    if k == 5 and re.match(r'\d', v) and 'x' not in v:
        return '0' + v
    return v


def spell(r, name, val):
    """other notations of an option: list of arguments"""
    alias = {'q': 'quiet', 'quiet': 'q', 'v': 'verbose', 'verbose': 'v'}
    if name in alias and r.random() < .5:
        name = alias[name]
    if name == 'z' and r.random() < .5:
        x, y = spell(r, 'min', val), spell(r, 'max', val)
        return x + y if r.random() < .5 else y + x
    if name == 'grid' and r.random() < .4:
        if val in ('1024', '4096', '65536'):
            return spell(r, 'gran', '%r' % (1 / float(val)))
    d = r.choice(['-', '--', '--'])
    if name in NEG:
        if r.random() < .4:
            return [d + NEG[name] + '=' + r.choice(['no', 'false', '0'])]
        return [d + name + r.choice(['', '', '=yes', '=true', '=1'])]
    if val is None:
        if name == 'ps-no-wire' and r.random() < .5:
            l = ['--ps-no-tri', '--ps-no-path', '--ps-no-mark']
            r.shuffle(l)
            return l
        return [d + name]
    if name in DIM and r.random() < .6:
        val = number(r, val)
    elif name in SIZE and r.random() < .4:
        val = r.choice(['0', '00', '+']) + val
    elif name in RGB:
        if r.random() < .3:
            val = val.upper()
        if r.random() < .3:
            val = val.lstrip('0') or '0'
    elif name == 'js-group':
        if r.random() < .4 and ' ' in val:
            return [y for x in val.split() for y in spell(r, name, x)]
        val = val.replace(' ', r.choice([' ', ',', ';', ', ', '\t']))
    if r.random() < .5:
        return [d + name + '=' + val]
    return [d + name, val]


def overridden(r, cl):
    """options in front of a class that it overrides"""
    n, v = cl[0]
    if len(cl) > 1 or r.random() < .5:
        return []
    if n == 'z':
        return [(r.choice(['z', 'min', 'max']), num(r, 1, 9))]
    if n in NEG:
        return [(r.choice([n, NEG[n]]), None)]
    if n in ('min', 'max', 'step', 'layer-gap', 'ps-line-width', 'eps', 'eps2', 'grid', 'gran', 'ps-persp'):
        return [(n, num(r, .001, 3))]
    if n == 'max-fn':
        return [(n, '7')]
    if n == 'max-simultaneous':
        return [(n, '4')]
    if n in RGB:
        return [(n, '%06x' % r.randrange(1 << 24))]
    if n in POL:
        return [(n, r.choice(['error', 'warn', 'ignore']))]
    if n.startswith('dump-'):
        return [(r.choice(['dump-js', 'dump-syn', 'dump-stlb']), None)]
    if n.startswith('stl-'):
        return [(r.choice(['stl-bin', 'stl-txt']), None)]
    if 'auto-grid' in n:
        return [(r.choice(['no-auto-grid', 'auto-grid', 'auto-grid-max']), None)]
    if n in ('ps-scale-fit', 'ps-scale-max'):
        return [(r.choice(['ps-scale-fit', 'ps-scale-max']), None)]
    return []


def execute(exe, src, files, argv, old=None):
    """run in a scratch directory; returns (run, new or changed files)"""
    d = tempfile.mkdtemp(prefix='hobr-')
    try:
        fs = dict(files or {}, **{'m.scad': src})
        for n, c in fs.items():
            p = os.path.join(d, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'wb') as f:
                f.write(c if isinstance(c, bytes) else c.encode())
        for n, c in (old or {}).items():
            with open(os.path.join(d, n), 'wb') as f:
                f.write(c)
        q = hob.patient([exe] + argv, d, 30)
        out = {}
        for w, _, ns in os.walk(d):
            for n in ns:
                p = os.path.relpath(os.path.join(w, n), d)
                with open(os.path.join(w, n), 'rb') as f:
                    b = f.read()
                if p not in fs or b != (fs[p] if isinstance(fs[p], bytes) else fs[p].encode()):
                    out[p] = b
        return q, out
    finally:
        shutil.rmtree(d, ignore_errors=True)


def _same(job):
    exe, seed = job
    r = random.Random(seed)
    src, files, h, extra = MODEL, None, 8, []
    if r.random() < .6:
        m = models.source(seed)
        if m is not None:
            src, files, extra = m['src'], m['files'], []
            h = max(.5, float(m['bb'][1][2]))
            if m['ctx'].max_fn != 100:
                extra = [[('max-fn', str(m['ctx'].max_fn))]]
    if r.random() < .25:
        src += r.choice(['cube(0);', 'scale([1,0,1]) cube(2);', 'square(3);', 'linear_extrude(1) cube(3);', 'foobar(3);', 'cube(2, foo=3);', 'linear_extrude(2) text("x");', '!cube(2);']) + '\n'
    c, out = pick(r, h)
    if extra and not any(x[0] == 'max-fn' for l in c for x in l):
        c += extra
    a1 = ['--' + n + ('' if v is None else '=' + v) for cl in c for n, v in cl] + ['m.scad'] + (['-o', out] if out else [])
    c2 = list(c)
    given = {n for cl in c for n, _ in cl}
    names = set()
    parts = []
    for cl in c2:
        p = []
        for n, v in overridden(r, cl) + cl:
            p.append(spell(r, n, v))
            names.add(n)
        parts.append(p)
    for n in r.sample(list(DEFAULT), r.randint(0, 4)):
        fam = {n, NEG.get(n)} | ({'grid', 'gran'} if n in ('grid', 'gran') else set()) | ({'stl-bin', 'stl-txt'} if n.startswith('stl') else set()) | \
            ({'no-auto-grid', 'auto-grid', 'auto-grid-max'} if 'auto' in n else set())
        if not fam & given and not (n in ('csg',) and False):
            given |= fam
            parts.append([spell(r, n, DEFAULT[n])])
            names.add('default-' + n)
    if out:
        f2 = r.choice(['-o', '--o', '='])
        parts.append([['-o=' + out]] if f2 == '=' else [[f2, out]])
    parts.append([['m.scad']])
    # interleave, keeping the order in each class
    a2 = []
    parts = [list(p) for p in parts]
    while parts:
        p = r.choice(parts)
        a2 += p.pop(0)
        if not p:
            parts.remove(p)
    q1, o1 = execute(exe, src, files, a1)
    q2, o2 = execute(exe, src, files, a2)
    info = dict(id=(src, a1, a2), args=(a1, a2), names=names, rc=q1.rc, bad=None)
    ck = hob.crash_kind(q1)
    if ck and not (q1.rc == -6 and b'overflow' in q1.err):
        info['bad'] = (ck, 'rc %s: %s' % (q1.rc, q1.etext[-300:]))
        info['crash'] = 1
        return info
    for what, x, y in (('status', q1.rc, q2.rc), ('messages', q1.err, q2.err), ('output', q1.out, q2.out), ('files', o1, o2)):
        if what == 'output' and x != y and (b'%!PS' in x[:9]):
            x, y = psnum(x), psnum(y)
        if what == 'files' and x != y:
            x, y = {k: psnum(v) for k, v in x.items()}, {k: psnum(v) for k, v in y.items()}
        if what == 'messages' and x != y:
            # the grid is printed in the notation of a power of two
            x, y = x.strip(), y.strip()
        if x != y:
            info['bad'] = (what, 'status %s and %s\n%s\n%s' % (q1.rc, q2.rc, q1.etext[-300:], q2.etext[-300:]))
            break
    info['src'] = src
    info['files'] = files
    info['some'] = bool(o1 or q1.out or q1.rc == 1)
    return info


def psnum(b):
    return b if not b.startswith(b'%!PS') else re.sub(rb'-0\b(?!\.)', b'0', b)


def wrong(r):
    """command lines that must be rejected: arguments, text that the message must contain"""
    k = r.randrange(9)
    pre = [] if r.random() < .5 else r.choice([['--step=1'], ['-q'], ['--dump-stl'], ['--no-path']])
    if k <= 3:
        n = r.choice(ALL)
        j = r.randrange(6)
        if j == 0 and len(n) > 2:
            m = n[:-1]
        elif j == 1:
            m = n + r.choice(['s', 'x', '-', '2', '_'])
        elif j == 2 and n != n.upper():
            m = n.upper()
        elif j == 3 and '-' in n:
            m = n.replace('-', '_')
        elif j == 4:
            m = 'no-' + n
        else:
            m = r.choice(['', 'foo', 'no', 'no-', 'dump', 'ps', 'js', 'x', 'auto', '-', 'dump-', 'neg-csg', 'csg-no'])
        if m.lstrip('-') in ALL or m.lstrip('-') + '=' in ALL:
            return None
        a = r.choice(['-', '--']) + m + ('=' + r.choice(['1', '', 'yes', 'x']) if r.random() < .3 else '')
        if r.random() < .5:
            return 'unknown', pre + [a, 'm.scad'], a
        return 'unknown', pre + ['m.scad', a], a
    if k == 4:
        n = '--' + r.choice(ARG)
        return 'no-argument', ['m.scad'] + pre + [n], n
    if k == 5:
        n = '--%s=%s' % (r.choice(list(NEG)), r.choice(['maybe', '2', '', 'True', 'YES', 'nope', 'on', 'n', 'truee']))
        return 'bool', pre + [n, 'm.scad'], n.split('=')[0]
    if k == 6:
        n = '--%s=%s' % (r.choice(POL), r.choice(['', 'yes', '1', 'ERROR', 'errors', 'off', 'warnings', 'ignored', 'no']))
        return 'policy', pre + [n, 'm.scad'], n.split('=')[0]
    if k == 7:
        return 'two', pre + ['m.scad', r.choice(['m.scad', 'other.scad', 'x'])] + r.choice([[], ['-q']]), ''
    return 'none', pre + r.choice([[], ['-q'], ['--step', '2']]), ''


def _wrong(job):
    exe, seed, n = job
    r = random.Random(seed)
    o, st = [], {}
    for _ in range(n):
        w = wrong(r)
        if w is None:
            continue
        kind, a, text = w
        old = {'o.stl': b'old contents\n'}
        a = a[:]
        if kind != 'no-argument' and r.random() < .7:
            a[0:0] = ['-o', 'o.stl']
        q, out = execute(exe, 'cube(2);', {'other.scad': 'cube(1);'}, a, old)
        st[kind] = st.get(kind, 0) + 1
        bad = None
        if q.rc != 1:
            bad = ('accepted', 'status %s' % q.rc)
        elif not re.search(r'^Error\b.*\S', q.etext, re.M):
            bad = ('message', 'no error message')
        elif text and text not in q.etext:
            bad = ('message', 'the message does not name %r' % text)
        elif q.out:
            bad = ('output', 'output %r' % q.out[:80])
        elif out != old:
            bad = ('touched', 'files written: %s' % {k: v[:40] for k, v in out.items()})
        if bad:
            o.append((kind + '-' + bad[0], '%s\nhob3l %s\n%s' % (bad[1], ' '.join(a), q.etext[-300:])))
            if len(o) > 2:
                break
    return o, st


# option, other options, model, output, whether the option must change the result
EFFECT = [
    (['-q'], [], MODEL, 'o.stl'), (['--stl-bin'], [], MODEL, 'o.stl'), (['--layer-gap=.1'], [], MODEL, 'o.stl'), (['--layer-gap=.1'], [], MODEL, 'o.js'), (['--layer-gap=.1'], [], MODEL, 'o.csg'),
    (['--min=1'], [], MODEL, 'o.stl'), (['--max=2'], [], MODEL, 'o.stl'), (['--step=.3'], [], MODEL, 'o.stl'), (['-z', '1'], [], MODEL, 'o.stl'), (['--max-fn=20'], [], MODEL, 'o.stl'),
    (['--grid=16'], [], MODEL, 'o.stl'), (['--gran=.3'], [], MODEL, 'o.stl'), (['--no-auto-grid'], ['--grid=2^24'], MODEL, 'o.stl'), (['--auto-grid-max'], ['--grid=2^24'], MODEL, 'o.stl'),
    (['--empty=ignore'], [], MODEL + 'cube(0);', 'o.stl'), (['--collapse=ignore'], [], MODEL + 'scale(0) cube(3);', 'o.stl'), (['--outside-3d=ignore'], [], MODEL + 'linear_extrude(1) cube(3);', 'o.stl'),
    (['--outside-2d=ignore'], [], MODEL + 'square(3);', 'o.stl'), (['--unsupported-functor=error'], [], MODEL + 'linear_extrude(1) offset(r=1) square(3);', 'o.stl'),
    (['--unknown-param=error'], [], MODEL, 'o.stl'), (['--js-group=a'], [], MODEL, 'o.js'),
    (['--js-keep-ctxt'], [], MODEL + 'translate([5,5,5]) color("blue") !cube(3);', 'o.js'), (['--no-csg'], [], MODEL, 'o.ps'),
    (['--ps-scale-fit'], [], BIG, 'o.ps'), (['--ps-scale-max'], [], BIG, 'o.ps'), (['--ps-scale-max'], ['--ps-scale-fit'], BIG, 'o.ps'), (['--ps-single-page'], [], MODEL, 'o.ps'),
    (['--ps-no-tri'], [], MODEL, 'o.ps'), (['--ps-no-path'], [], MODEL, 'o.ps'), (['--ps-no-mark'], [], MODEL, 'o.ps'), (['--ps-no-wire'], ['--ps-no-tri'], MODEL, 'o.ps'),
    (['--ps-rot-x=30'], [], MODEL, 'o.ps'), (['--ps-rot-y=30'], [], MODEL, 'o.ps'), (['--ps-rot-z=30'], [], MODEL, 'o.ps'), (['--ps-scale=2'], [], MODEL, 'o.ps'),
    (['--ps-persp=9'], [], MODEL, 'o.ps'), (['--ps-line-width=3'], [], MODEL, 'o.ps'),
    (['--no-tri'], [], MODEL, 'o.js'), (['--no-diff'], [], MODEL, 'o.js'), (['--path'], [], MODEL, 'o.ps'), (['--js-color-rand=99'], [], MODEL, 'o.js'),
    (['--opt-no-drop-collinear'], [], 'cube([5,5,5]); translate([0,5,0]) cube([5,5,5]);', 'o.ps'),
] + [(['--%s=123456' % n], [], MODEL, 'o.ps') for n in RGB] + [(['--' + d], [], MODEL, None) for d in FLAG if d.startswith('dump')]


def _effect(job):
    exe, on, with_, src, out = job
    o = ['-o', out] if out else []
    q1, f1 = execute(exe, src, {}, with_ + ['m.scad'] + o)
    q2, f2 = execute(exe, src, {}, with_ + on + ['m.scad'] + o)
    a, b = (q1.rc, q1.err, q1.out, f1), (q2.rc, q2.err, q2.out, f2)
    return on, out, a != b


def help_options(exe, c):
    q = hob.run([exe, '--help'], timeout=20)
    t = q.out.decode(errors='replace')
    if q.rc != 0 or not t:
        c.violation('help', 'status %s, %d bytes' % (q.rc, len(t)), {})
        return
    for h in (['-h'], ['--help'], ['-?'], ['--h'], ['-help'], ['m.scad', '--help'], ['--step=1', '-h']):
        x, f = execute(exe, 'cube(1);', {}, h + ['-o', 'o.stl'])
        c.case(('help', h))
        if x.rc != 0 or x.out != q.out or x.err or f:
            c.violation('help', '%s: status %s' % (h, x.rc), {})
    listed = re.findall(r'^    --([\w?-]+)(=ARG)?$', t, re.M)
    c.stat('options_in_help', len(listed))
    got = {n: bool(a) for n, a in listed}
    want = {n: n in ARG for n in ALL}
    for n in want:
        c.case(('listed', n))
        if got.get(n) != want[n]:
            c.violation('help-list', 'option --%s is %s in the help' % (n, 'not listed' if n not in got else 'listed with wrong use of an argument'), {})
    for n, a in got.items():
        x, f = execute(exe, 'cube(1);', {}, ['--' + n, 'm.scad'] if not a else ['m.scad', '--' + n])
        if ('nrecognised' in x.etext) or (a and x.rc != 1):
            c.violation('help-list', 'listed option --%s: status %s %s' % (n, x.rc, x.etext[:200]), {})


def run():
    c = hob.Check('P36', rule='random option sets in two notations (dashes, "=" or separate argument, negations, aliases, number notations, order, overridden and default options added) must '
                  'have byte-identical results; wrong command lines must be rejected without touching files; each option must have an effect; counts distinct pairs of command lines')
    exe = hob.build('plain')
    n = c.n(3000, 120000)
    seen = {}
    for x in hob.pmap(_same, [(exe, c.seed * 1000003 + i) for i in range(n)], chunk=8):
        c.case(x['id'], x.get('some', False))
        for k in x['names']:
            seen[k] = seen.get(k, 0) + 1
        c.stat('status_%s' % x['rc'])
        if x.get('crash'):
            c.stat('crash')
            if os.environ.get('P36DEBUG'):
                print(x['args'][0], x['bad'][1][-200:])
            continue        # what P01 looks for
        if x['bad']:
            c.violation('same-' + x['bad'][0], '%s\n%s\n%s' % (x['bad'][1], ' '.join(x['args'][0]), ' '.join(x['args'][1])), {'m.scad': x['src'], **(x['files'] or {})})
        elif len(c.samples) < 3:
            c.sample([' '.join(a) for a in x['args']])
    c.stat('distinct_options', len(seen))
    for bads, st in hob.pmap(_wrong, [(exe, c.seed * 7919 + i, 20) for i in range(c.n(80, 2000))]):
        for k, v in st.items():
            c.stat('wrong_' + k, v)
            c.evaluations += v
        for k, t in bads:
            c.violation(k, t, {})
    for on, out, ok in hob.pmap(_effect, [(exe,) + e for e in EFFECT]):
        c.case(('effect', on, out))
        if not ok:
            c.violation('no-effect-' + on[0].lstrip('-').split('=')[0], '%s has no effect on %s' % (on[0], out), {'m.scad': MODEL})
    help_options(exe, c)
    c.assumptions += ['options with an argument that is documented as without effect on the result (eps, max-simultaneous) need no effect', 'values given to options without argument are not judged',
                      '--gran overrides --grid in any order (not judged)']
    c.finish(c.n(1500, 60000))


if __name__ == '__main__':
    main(run)
