"""Determinism (repeated runs, other surroundings, other builds: byte identity) and independence of tuning options (same regions)."""
from common import main, hob
import outp, models, modelcmp
import os, random, shutil, tempfile

VARY = ['again', 'perturb', 'env', 'path', 'stdin', 'stdout', 'quiet', 'verbose', 'build', 'output-name', 'option-order', 'existing-output']


def tune(r, twisted):
    """options that tune, but do not select what is computed.

    The sides of a twisted or scaled extrusion are ruled between the corners of its polygon, so that a corner in the
    middle of a straight edge (there or not depending on the order of combination) changes the solid: in this case,
    the order of combination is left alone.
    """
    a = []
    for _ in range(r.choice([1, 1, 2, 3])):
        k = r.randrange(6)
        if k < 2 and not twisted:
            a.append('--max-simultaneous=%d' % r.choice([2, 3, 4, 5, 7, 10, 63, 1000]))
        elif k == 2:
            a.append(r.choice(['--opt-no-skip-empty', '--opt-skip-empty=no']))
        elif k == 3 and not twisted:
            a.append(r.choice(['--opt-no-drop-collinear', '--opt-drop-collinear=0']))
        elif k == 4:
            a.append('--path')
        else:
            a.append(r.choice(['-q', '-v', '--verbose', '--quiet']))
    return a


def one(job):
    exes, seed = job
    names = models._names + (['P17', 'P18'] if seed % 3 == 0 else [])
    m = models.source(seed, names)
    if m is None:
        return None
    r = random.Random(seed * 13 + 1)
    lo, hi = float(m['bb'][0][2]), float(m['bb'][1][2])
    step = round(max(.05, (hi - lo) / r.choice([1, 3, 6])), 4)
    args = m['args'] + ['--step=%r' % step]
    if r.random() < .5:
        args.append('--min=%r' % round(lo + step * r.uniform(-.9, .4), 4))
    src = m['src']
    files = m['files'] or {}
    exe = exes['plain']
    info = dict(src=src, files=files, args=args, bad=[], n={})

    def cnt(k, v=1):
        info['n'][k] = info['n'].get(k, 0) + v
    d = tempfile.mkdtemp(prefix='hobp25-')
    try:
        for n, c in dict(files, **{'m.scad': src}).items():
            p = os.path.join(d, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'wb') as f:
                f.write(c if isinstance(c, bytes) else c.encode())
        out = r.choice(['o.stl', 'o.stl', 'o.stlb', 'o.js', 'o.scad', 'o.ps'])
        dump = dict(stl='--dump-stl', stlb='--dump-stlb', js='--dump-js', scad='--dump-csg2', ps='--dump-ps')[out.split('.')[1]]
        path = os.path.join(d, out)

        def go(e, a, cwd=d, name=path, **kw):
            if name and os.path.lexists(name) and not kw.pop('keep', False):
                os.unlink(name)
            q = hob.patient([e] + a, cwd, 60, **kw)
            data = None
            if name and os.path.exists(name):
                with open(name, 'rb') as f:
                    data = f.read()
            return q, data
        base = ['m.scad', '-o', out] + args
        q0, ref = go(exe, base)
        if hob.crash_kind(q0) or q0.rc != 0:
            cnt('rejected')
            return info
        info['size'] = len(ref)
        for v in ['again', 'build'] + r.sample(VARY[1:], 3):
            if v == 'again':
                q, data = go(exe, base)
            elif v == 'perturb':
                q, data = go(exe, base, env={'MALLOC_PERTURB_': str(r.randint(1, 255)), 'MALLOC_TOP_PAD_': str(r.choice([0, 1, 4096 * 7]))})
            elif v == 'env':
                q, data = go(exe, base, env={'LANG': r.choice(['de_DE.UTF-8', 'C.UTF-8', 'xx']), 'LC_ALL': r.choice(['C.UTF-8', 'de_DE.UTF-8', '']), 'TZ': 'Asia/Tokyo', 'X' * r.randint(1, 50): 'y' * r.randint(0, 5000)})
            elif v == 'path':
                sub = os.path.join(d, 'work')
                os.makedirs(sub, exist_ok=True)
                q, data = go(exe, [r.choice([os.path.join(d, 'm.scad'), '../m.scad']), '-o', path] + args, cwd=sub)
            elif v == 'stdin':
                if files:
                    continue
                q, data = go(exe, ['/dev/stdin', '-o', out] + args, stdin=src if isinstance(src, bytes) else src.encode())
            elif v == 'stdout':
                q, _ = go(exe, ['m.scad', dump] + args)
                data = q.out
            elif v == 'quiet':
                q, data = go(exe, base + [r.choice(['--quiet', '-q'])])
                if b'Info' in q.err:
                    info['bad'].append(('quiet', 'information in spite of --quiet: %s' % q.etext[:200]))
            elif v == 'verbose':
                q, data = go(exe, base + ['-v'] * r.randint(1, 3))
            elif v == 'build':
                q, data = go(exes['release'], base)
            elif v == 'output-name':
                n2 = os.path.join(d, 'other.' + out.split('.')[1])
                q, data = go(exe, ['m.scad', '-o', n2] + args, name=n2)
            elif v == 'option-order':
                a = [[x] for x in args] + [['m.scad'], ['-o', out]]
                r.shuffle(a)
                q, data = go(exe, [x for y in a for x in y])
            else:
                with open(path, 'wb') as f:
                    f.write(os.urandom(1) * r.randint(0, len(ref) * 2 + 10))
                q, data = go(exe, base, keep=True)
            cnt('vary_' + v)
            if q.rc != 0 or data != ref:
                info['bad'].append(('nondeterministic-' + v, '%s: exit status %s, output of %s bytes differs from %d bytes at %s\nargs %s' % (
                    v, q.rc, len(data) if data is not None else None, len(ref), next((i for i, (x, y) in enumerate(zip(data or b'', ref)) if x != y), 'the end'), base)))
        # tuning
        stl = ['m.scad', '-o', 'o.stl']
        p2 = os.path.join(d, 'o.stl')
        q, A = go(exe, stl + args, name=p2)
        A = outp.slabs(outp.stl_ascii(A)[1])
        for _ in range(2):
            t = tune(r, 'linear_extrude' in str(src) + str(files) and ('twist' in str(src) + str(files) or 'scale' in str(src) + str(files)))
            q, B = go(exe, stl + args + t, name=p2)
            if q.rc != 0 or B is None:
                info['bad'].append(('tuning-fails', '%s: exit status %s: %s\nargs %s' % (t, q.rc, q.etext[-300:], args)))
                continue
            try:
                B = outp.slabs(outp.stl_ascii(B)[1])
                e = modelcmp.same_layers(A, B, r, n=150)
            except outp.Bad as x:
                e = 'malformed: %s' % x
            for x in t:
                cnt('tune_' + x.split('=')[0].lstrip('-'))
            cnt('layers_compared', len(A))
            if e:
                info['bad'].append(('tuning', '%s: %s\nargs %s' % (t, e, args)))
        return info
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run():
    c = hob.Check('P25', rule='a model run repeatedly under other surroundings and options; distinct by source and options')
    exes = dict(plain=hob.build('plain'), release=hob.build('release'))
    n = c.n(500, 20000)
    for x in hob.pmap(one, [(exes, c.seed * 1000000 + i) for i in range(n)], chunk=4):
        if x is None:
            continue
        c.case((x['src'], x['args']), bool(x.get('size')))
        for k, v in x['n'].items():
            c.stat(k, v)
        for kind, text in x['bad'][:2]:
            f = {'m.scad': x['src']}
            f.update(x['files'])
            c.violation(kind, text, f)
        if not x['bad'] and len(c.samples) < 3:
            c.sample(dict(args=x['args'], observed=x['n'], source=str(x['src'])[:300]))
    c.finish(min_nontrivial=100)


if __name__ == '__main__':
    main(run)
