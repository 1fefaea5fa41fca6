"""All model generators of the geometric checks together."""
import importlib, os, sys
import geom as g

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'checks'))
_names = ['P03', 'P06', 'P08', 'P09', 'P10', 'P11', 'P12', 'P13']
_mods = {}


def any_model(G, r, i, names=None):
    """node, options (of modelcmp.run_model)"""
    names = names or _names
    nm = names[i % len(names)]
    if nm not in _mods:
        _mods[nm] = importlib.import_module(nm)
    m = _mods[nm].mk(G, r, i // len(names))
    return m if isinstance(m, tuple) else (m, {})


def source(seed, names=None, i=None, large=.025):
    """SCAD text, files, arguments and z range of a random model"""
    import random, gen
    r = random.Random(seed)
    if i is None and (names is None or 'P03' in names) and random.Random('large %d' % seed).random() < large:
        import big
        n, o = g.Block(big.mosaic(gen.Gen(r), r) if seed % 5 < 2 else [big.model3(gen.Gen(r), r)]), {}
    else:
        n, o = any_model(gen.Gen(r), r, seed if i is None else i, names)
    ctx = o.get('ctx') or g.Ctx()
    try:
        bb = n.bbox(ctx, g.I4)
    except Exception:
        return None
    if not (bb[0] < bb[1]).all():
        return None
    a = list(o.get('args', []))
    if ctx.max_fn != 100:
        a.append('--max-fn=%d' % ctx.max_fn)
    return dict(src=o.get('src') or n.emit(), files=o.get('files'), args=a, bb=bb, node=n, ctx=ctx, rng=r)
