"""C20 moving averages."""
from .common import *

FILES = ['proadv/statistics/series.py']
CASES = {'quick': 20500, 'thorough': 820000}


def case(ctx):
    n = gen.sizes(ctx, 1, 300, big(ctx, 6000, 20000), 0.1, 70000)
    x = gen.series(ctx, n)
    f = ctx.pick(('moving_average', 'exponential_moving_average', 'weighted_moving_average'))
    ctx.tag('function:' + f)
    keep = x.copy()
    sc = scale_of(keep)
    xin = gen.layout(ctx, x, narrow=True)
    if f == 'moving_average':
        dflt = n >= 20 and ctx.chance(0.25)
        w = 20 if dflt else ctx.integer(1, n)
        if w * w > 4e6:
            w = 2000
        o = ctx.call(S + 'series.' + f, xin, **({} if dflt else {'window_size': w})) if ctx.chance(0.6) or dflt \
            else ctx.call(S + 'series.' + f, xin, w)
        want = ref.sma(keep, w)
        tol = 1e-13 * sc * (10 + n)
        par = f'window {w}'
    elif f == 'exponential_moving_average':
        dflt = ctx.chance(0.25)
        a = 0.2 if dflt else ctx.pick((1.0, 0.5, 1e-3, 0.99, ctx.uniform(1e-3, 1)))
        o = ctx.call(S + 'series.' + f, xin) if dflt else ctx.call(S + 'series.' + f, xin, a)
        want = ref.ema(keep, a)
        tol = 1e-12 * sc
        par = f'alpha {a}'
    else:
        dflt = n >= 20 and ctx.chance(0.25)
        p = 20 if dflt else ctx.integer(1, n)
        if p * n > 2e6:
            p = max(1, int(2e6 / n))
        o = ctx.call(S + 'series.' + f, xin) if dflt else ctx.call(S + 'series.' + f, xin, p)
        want = ref.wma(keep, p)
        tol = 1e-11 * sc
        par = f'period {p}'
    got = np.asarray(ctx.expect(o, f), float)
    ctx.check(got.shape == want.shape, lambda: f'{f}: {got.shape} values, expected {want.shape} (n={n}, {par})')
    bad = np.nonzero(~(np.abs(got - want) <= tol))[0]
    ctx.check(bad.size == 0, lambda: f'{f}: entry {bad[0]} is {got[bad[0]]!r}, expected {want[bad[0]]!r} (n={n}, {par})')
    ctx.count('entries compared', int(want.size))
