"""C05 linear interpolation."""
from .common import *

FILES = ['proadv/filtration/replacement/replacements.py']
CASES = {'quick': 164600, 'thorough': 1800000}


def case(ctx):
    n = gen.sizes(ctx, 2, 300, big(ctx, 3000, 20000), 0.1, 70000)
    x = gen.series(ctx, n)
    s = gen.spikes(ctx, n)
    kw, d = pick_decimals(ctx)
    keep = x.copy()
    xin = gen.layout(ctx, x)
    idx = index_array(ctx, s)
    if kw and ctx.chance(0.4):
        o = ctx.call(R + 'linear_interpolation', xin, idx, d)
    else:
        o = ctx.call(R + 'linear_interpolation', xin, idx, **kw)
    out = np.asarray(ctx.expect(o, 'linear interpolation'))
    ctx.check(out.shape == (n,), f'wrong shape {out.shape}')
    want = ref.linear(keep, s)
    ok = rounded_ok(out, want, d, 1e-11 * scale_of(keep) * max(1, np.sqrt(n)))
    ctx.check(bool(np.all(ok)), lambda: f'linear interpolation: sample {np.nonzero(~ok)[0][0]} became '
              f'{out[~ok][0]!r}, expected {want[~ok][0]!r} rounded to {d} decimals (n={n}, runs {gen.runs(s)[:8]})')
    ctx.count('interpolated samples compared', int(s.size))
    ctx.count('spike runs', len(gen.runs(s)))
