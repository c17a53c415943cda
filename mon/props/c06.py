"""C06 twelve-point cubic replacement."""
from .common import *

FILES = ['proadv/filtration/replacement/replacements.py']
CASES = {'quick': 14300, 'thorough': 304000}
M = R + 'cubic_12points_polynomial'


def case(ctx):
    n = gen.sizes(ctx, 25, 400, big(ctx, 3000, 20000), 0.06, 70000)
    x = gen.series(ctx, n)
    s = gen.spikes(ctx, n)
    if s.size == n:
        raise Skip()
    kw, d = pick_decimals(ctx)
    keep = x.copy()
    xin = gen.layout(ctx, x)
    idx = index_array(ctx, s)
    if kw and ctx.chance(0.4):
        o = ctx.call(M, xin, idx, d)
    else:
        o = ctx.call(M, xin, idx, **kw)
    out = np.asarray(ctx.expect(o, 'cubic replacement'))
    ctx.check(out.shape == (n,), f'wrong shape {out.shape}')
    want, ncub = ref.cubic12(keep, s)
    sc = scale_of(keep)
    # how far rounding ties of the intermediate values can move the outcome
    lo = ref.cubic12(keep, s, lambda v: np.around(v - 1e-9 * (1 + sc), 4))[0]
    hi = ref.cubic12(keep, s, lambda v: np.around(v + 1e-9 * (1 + sc), 4))[0]
    tie = 3 * np.maximum(np.abs(lo - want), np.abs(hi - want))
    if not np.all(np.isfinite(want)) or np.max(np.abs(want)) > 1e6 * (1 + sc):
        raise Skip()
    ok = rounded_ok(out, want, d, 1e-9 * (np.max(np.abs(want)) + sc) + tie)
    ctx.check(bool(np.all(ok)), lambda: f'cubic replacement: sample {np.nonzero(~ok)[0][0]} became '
              f'{out[~ok][0]!r}, expected {want[~ok][0]!r} rounded to {d} decimals (n={n}, runs {gen.runs(s)[:8]})')
    ctx.count('cubic fits', ncub)
    ctx.count('boundary fills', int(s.size) - ncub)
