"""C22 singular spectrum analysis."""
from .common import *

FILES = ['proadv/statistics/series.py']
CASES = {'quick': 54000, 'thorough': 540000}


def case(ctx):
    n = gen.sizes(ctx, 6, 160, big(ctx, 700, 1500), 0.06, 1500)
    x = gen.series(ctx, n)
    k = ctx.u()
    if k < 0.5:
        L = ctx.integer(2, max(3, min(n - 1, 30)))
    elif k < 0.8:       # around half the record: square trajectory matrices
        L = (n + 1) // 2 + ctx.pick((-1, 0, 1))
    else:
        L = n - ctx.pick((0, 1, 2, 3))
    L = max(2, min(L, n, 120))
    fs = ctx.pick((100, 25, 50.0, 1.0))
    f = fs / (L - ctx.pick((0.0, 0.5, 0.3, ctx.uniform(0.01, 0.9), ctx.logu(1e-9, 1e-3), 1 - ctx.logu(1e-9, 1e-3))))
    keep = x.copy()
    try:
        want, L = ref.ssa(keep, fs, f)
    except ref.Ambiguous as a:
        ctx.tag(f'undecidable: {a}')
        raise Skip()
    o = ctx.call(S + 'series.ssa', gen.layout(ctx, x), fs, f) if ctx.chance(0.7) else \
        ctx.call(S + 'series.ssa', gen.layout(ctx, x), fs, f=f)
    got = np.asarray(ctx.expect(o, 'singular spectrum analysis'), float)
    ctx.check(got.shape == (n,), f'wrong shape {got.shape}')
    tol = 0.5001e-4 + 1e-7 * scale_of(keep)
    bad = np.nonzero(~(np.abs(got - want) <= tol))[0]
    ctx.check(bad.size == 0, lambda: f'singular spectrum analysis: sample {bad[0]} is {got[bad[0]]!r}, expected '
              f'{want[bad[0]]!r} (n={n}, window length {L})')
    ctx.check(np.array_equal(got, np.around(got, 4)), lambda: f'singular spectrum analysis: not rounded to four decimals: '
              f'{got[got != np.around(got, 4)][0]!r}')
    ctx.tag('window < n-window+1' if L < n - L + 1 else 'window = n-window+1' if L == n - L + 1 else 'window > n-window+1')
    ctx.count('samples compared', n)
