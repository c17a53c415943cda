"""C21 Kalman filter."""
from .common import *

FILES = ['proadv/statistics/series.py']
CASES = {'quick': 16600, 'thorough': 576000}


def case(ctx):
    n = gen.sizes(ctx, 1, 250, big(ctx, 2500, 20000), 0.06, 70000)
    x = gen.series(ctx, n)
    par = kalman_params(ctx)
    vals = [float(p[0, 0]) for p in par]
    if ctx.chance(0.1) and vals[1] + vals[2] > 1e-3:      # noiseless measurements: the estimate is the measurement
        par = par[:3] + (np.array([[0.0]]),)
        vals[3] = 0.0
        if vals[2] == 0:
            par = par[:2] + (np.array([[0.5]]), par[3])
            vals[2] = 0.5
        ctx.tag('noiseless measurements')
    if ctx.chance(0.2):
        par = tuple(np.array([[int(v)]]) if v == int(v) else p for v, p in zip(vals, par))
        ctx.tag('integer parameters')
    keep = x.copy()
    xin = gen.layout(ctx, x)
    if ctx.chance(0.1):
        xin = x.tolist()
    got = ctx.expect(ctx.call(S + 'series.kalman_filter', xin, *par), 'Kalman filter')
    ctx.check(len(got) == n, lambda: f'Kalman filter: {len(got)} estimates for {n} measurements')
    g = np.array([np.asarray(v, float).ravel() for v in got])
    ctx.check(g.shape == (n, 1), f'Kalman filter: estimates of shape {g.shape}')
    g = g.ravel()
    want = ref.kalman(keep, *vals)
    tol = 1e-9 * (scale_of(keep) + abs(vals[0]))
    bad = np.nonzero(~(np.abs(g - want) <= tol))[0]
    ctx.check(bad.size == 0, lambda: f'Kalman filter: estimate {bad[0]} is {g[bad[0]]!r}, the recursion gives '
              f'{want[bad[0]]!r} (n={n}, x0, P0, Q, R = {vals})')
    lo, hi = min(vals[0], keep.min()) - tol, max(vals[0], keep.max()) + tol
    ctx.check(bool(np.all((g >= lo) & (g <= hi))), 'Kalman filter: an estimate lies outside the hull of the data and the prior')
    ctx.count('estimates compared', n)
