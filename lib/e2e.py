"""Batch driver: generate models, run the tool, compare with the oracle."""
import random
import hob
import geom as g
import modelcmp
import gen

_cfg = {}


def _one(i):
    c = _cfg
    seed = c['base'] + i
    r = random.Random(seed)
    m = c['mk'](gen.Gen(r), r, i)
    opts = {}
    if isinstance(m, tuple):
        m, opts = m
    ctx = opts.pop('ctx', None) or g.Ctx()
    try:
        bb = m.bbox(ctx, g.I4)
    except Exception as e:      # an empty model is not generated on purpose
        return i, None
    if not (bb[0] < bb[1]).all():
        return i, None
    kw = dict(c['kw'])
    kw.update(opts)
    res = modelcmp.run_model(c['exe'], m, bb, ctx, seed, **kw)
    return i, res


def batch(chk, exe, mk, n, label='', shrink=True, keyfn=None, **kw):
    """mk(Gen, rng, i) -> node | (node, options of run_model)"""
    base = chk.seed * 10000019 + (hash_str(chk.prop + label) % 1000003) * 131
    _cfg.update(exe=exe, mk=mk, base=base, kw=kw)
    out = hob.pmap(_one, range(n), chunk=max(1, n // 200))
    nfail = 0
    for i, res in out:
        if res is None:
            continue
        chk.stat('models' + label)
        chk.stat('points_decided', res['decided'])
        chk.stat('points_inside', res['inside'])
        chk.stat('slabs', res['slabs'])
        nontriv = res['inside'] > 20
        chk.case((label, i, chk.seed), nontriv)
        if i < 2:
            chk.sample(res['src'])
        if res['fail']:
            if res.get('inc'):
                chk.stat('hangs')
            nfail += 1
            kind, msg = res['fail']
            src = res['src']
            extra = ''
            if shrink and nfail <= 2:
                try:
                    src2, msg2 = _shrink(i, kind)
                    if src2:
                        extra = '\nreduced model:\n' + src2 + '\n' + msg2
                except Exception as e:
                    extra = '\n(not reduced: %r)' % e
            key = keyfn(res) if keyfn else kind
            chk.violation(key, '%s model %d: %s: %s\nargs: %s\n%s%s' % (label, i, kind, msg, ' '.join(res['args']), src, extra),
                          dict({'model.scad': src}, **(res.get('files') or {})))
    return out


def hash_str(s):
    import hashlib
    return int(hashlib.sha256(s.encode()).hexdigest()[:8], 16)


def _shrink(i, kind):
    c = _cfg
    seed = c['base'] + i
    r = random.Random(seed)
    m = c['mk'](gen.Gen(r), r, i)
    opts = {}
    if isinstance(m, tuple):
        m, opts = m
    ctx0 = opts.pop('ctx', None)
    kw = dict(c['kw'])
    kw.update(opts)
    if kind in ('hang',) or kw.get('src') or not isinstance(m, g.Rec):
        return None, None
    last = {}

    def fails(v):
        ctx = ctx0 or g.Ctx()
        for k in range(2):
            q = modelcmp.run_model(c['exe'], v, v.bbox(ctx, g.I4), ctx, seed + k * 1000, **kw)
            if q['fail'] and q['fail'][0] == kind:
                last['m'] = q['fail'][1] + ' | ' + ' '.join(q['args'])
                return True
        return False
    m2 = modelcmp.shrink(m, fails, budget=120)
    return (m2.emit(), last.get('m', '')) if last else (None, None)
