"""C07 replacement by a smoothed series."""
from .common import *

FILES = ['proadv/filtration/replacement/replacements.py', 'proadv/statistics/series.py']
CASES = {'quick': 24800, 'thorough': 992000}


def case(ctx):
    n = gen.sizes(ctx, 3, 250, big(ctx, 2500, 20000), 0.08, 40000)
    x = gen.series(ctx, n)
    opts = ['simple_moving_average', 'exponential_moving_average', 'weighted_moving_average', 'kalman_filter']
    if 8 <= n <= 300:
        opts.append('ssa')
    m = ctx.pick(opts)
    args, kw, _ = draw_params(ctx, m, n)
    ctx.tag('method:' + m)
    s = gen.spikes(ctx, n)
    keep = x.copy()
    sc = scale_of(keep)
    tol = 1e-9 * (sc + 1e-300)
    if m == 'simple_moving_average':
        want = ref.sma(keep, kw.get('window_size', 20))
        tol += 1e-15 * sc * n
    elif m == 'exponential_moving_average':
        want = ref.ema(keep, kw.get('alpha', 0.2))
    elif m == 'kalman_filter':
        want = ref.kalman(keep, *[float(a[0, 0]) for a in args])
        tol += 1e-9 * abs(float(args[0][0, 0]))
    elif m == 'ssa':
        try:
            want, L = ref.ssa(keep, *args)
        except ref.Ambiguous:
            raise Skip()
        tol = 0.5001e-4 + 1e-7 * sc
    else:
        p = kw.get('period', 20)
        want = ref.wma(keep, p)
    o = ctx.call(R + m, gen.layout(ctx, x), index_array(ctx, s), *args, **kw)
    if m == 'weighted_moving_average' and s.size and s[-1] >= n - p:
        if not o.ok:
            if isinstance(o.exc, IndexError):
                k = ctx.stats['known'].setdefault('C07-wma-tail', [0, 'IndexError for a spike in the last period samples'])
                k[0] += 1
                raise Skip()
            ctx.fail(f'weighted moving average replacement raised {o.exc!r}')
        s = s[s < n - p]
    out = np.asarray(ctx.expect(o, m))
    ctx.check(out.shape == (n,), f'{m}: wrong shape {out.shape}')
    bad = [int(i) for i in s if not abs(out[i] - want[i]) <= tol]
    ctx.check(not bad, lambda: f'{m}: spike {bad[0]} became {out[bad[0]]!r}, the smoothed series has {want[bad[0]]!r} there '
              f'(n={n}, {s.size} spikes, {kw or args})')
    ctx.count('replaced samples compared', int(s.size))
