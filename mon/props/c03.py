"""C03 replacement is local: only the spikes change (other samples at most rounded), same length, finite."""
from .common import *

FILES = ['proadv/filtration/replacement/replacements.py']
CASES = {'quick': 38400, 'thorough': 584000}


def case(ctx):
    n = gen.sizes(ctx, 2, 320, big(ctx, 1500, 20000), 0.12, 70000)
    x = gen.series(ctx, n)
    m, args, kw, dec = draw_method(ctx, n)
    ctx.tag('method:' + m)
    hi = None
    if m == 'weighted_moving_average':
        hi = n - kw.get('period', 20)
        if hi < 1:
            raise Skip()
    s = gen.spikes(ctx, n, allow_empty=True, hi=hi)
    if m == 'cubic_12points_polynomial' and s.size == n:
        raise Skip()
    keep = x.copy()
    xin = gen.layout(ctx, x)
    out = ctx.expect(ctx.call(R + m, xin, index_array(ctx, s), *args, **kw), m)
    out = np.asarray(out)
    ctx.check(out.shape == (n,), lambda: f'{m}: a record of {n} samples came back with shape {out.shape}')
    ctx.check(out.dtype.kind in 'fiu', lambda: f'{m}: the result has dtype {out.dtype}')
    ctx.check(bool(np.all(np.isfinite(out))), lambda: f'{m}: non-finite sample at {np.nonzero(~np.isfinite(out))[0][:5]}'
              f' (spikes {s[:10]}, n={n})')
    mask = np.ones(n, bool)
    mask[s] = False
    if dec is None:
        ok = out[mask] == keep[mask]
    else:
        ok = rounded_ok(out[mask], keep[mask], dec, 1e-12 * scale_of(keep))
    ctx.check(bool(np.all(ok)), lambda: f'{m}: the valid sample {np.nonzero(mask)[0][np.nonzero(~ok)[0][0]]} changed from '
              f'{keep[mask][~ok][0]!r} to {out[mask][~ok][0]!r} (n={n}, spikes {s[:10]}, {kw})')
    ctx.count('valid samples compared', int(mask.sum()))
    ctx.count('spikes replaced', int(s.size))
