"""C30 two-dimensional density on a grid (diffusion estimator)."""
import math

from scipy import fft as spfft

from .common import *

FILES = ['proadv/kernel/bivariate.py']
CASES = {'quick': 1800, 'thorough': 60000}
M = 'kernel.bivariate.bivariate_kernel'


def reference(x, y, hx, hy, g):
    """-> density[row=y, col=x], True when some sample sits on a bin edge"""
    lo, sc = np.array([x.min(), y.min()]), np.array([np.ptp(x), np.ptp(y)])
    u = np.vstack([(x - lo[0]) / sc[0], (y - lo[1]) / sc[1]]) * g
    exact = g & (g - 1) == 0 and all(np.all(v == np.round(v)) and np.ptp(v) in 2.0 ** np.arange(0, 20) for v in (x, y))
    frac = np.abs(u - np.round(u))
    edge = not exact and bool(np.any((frac < 1e-7) & (np.round(u) > 0) & (np.round(u) < g)))
    b = np.minimum(np.floor(u + 1e-12).astype(int), g - 1)
    h = np.zeros((g, g))
    np.add.at(h, (b[0], b[1]), 1.0 / x.size)
    c = spfft.dctn(h, norm='ortho')
    k = np.arange(g) ** 2 * math.pi ** 2 / 2
    c *= np.exp(-k * hx * hx)[:, None] * np.exp(-k * hy * hy)[None, :]
    d = spfft.idctn(c, norm='ortho') * g * g / (sc[0] * sc[1])
    return d.T, edge


def case(ctx):
    n = gen.sizes(ctx, 3, 200, big(ctx, 1500, 8000), 0.08, 20000)
    g = ctx.integer(2, 40) if ctx.chance(0.9) else ctx.pick((48, 64, 65, 96, 128))
    x, y = gen.series(ctx, n), gen.series(ctx, n)
    if ctx.chance(0.3):
        y = 0.4 * y + ctx.uniform(-1, 1) * x
        ctx.tag('correlated')
    if ctx.chance(0.25):
        q = ctx.logu(1e-5, 1e5)
        if ctx.chance(0.5):
            x = x * q
        else:
            y = y * q
        ctx.tag('unequal scales')
    raw = ctx.chance(0.06)
    if raw:         # instrument counts as they come
        x, y = gen.series(ctx, n, 'counts'), gen.series(ctx, n, ctx.pick(('counts', 'integral')))
    lattice = not raw and ctx.chance(0.06) and n >= 6
    if lattice:     # whole numbers over a power of two: every bin edge is exact, so the half-open convention shows
        r = ctx.rng()
        g = ctx.pick((2, 4, 8, 16, 32))
        w = [2 ** ctx.integer(2, 8) for _ in range(2)]
        x, y = (np.concatenate([[0, q], r.integers(0, q + 1, n - 2)])[r.permutation(n)] + float(ctx.integer(-50, 50)) for q in w)
        ctx.tag('whole-number data, edges exact')
    # a little jitter keeps quantised data off the bin edges in most cases
    if not lattice and not raw and ctx.chance(0.7):
        r = ctx.rng()
        x = x + r.uniform(-.5, .5, n) * 1e-3 * (np.ptp(x) + 1e-9)
        y = y + r.uniform(-.5, .5, n) * 1e-3 * (np.ptp(y) + 1e-9)
    if not (gen.varied(ctx, x) and gen.varied(ctx, y)):
        raise Skip()
    hx = ctx.pick((0.05, 0.1, 0.5, ctx.logu(0.005, 1.0)))
    hy = ctx.pick((hx, 0.02, 0.2, ctx.logu(0.005, 1.0)))
    data = np.vstack([x, y])
    if np.all(data == np.rint(data)) and ctx.chance(0.7):
        data = data.astype(ctx.pick([t for t in (np.int8, np.uint8, np.int16, np.uint16, np.int32)
                                     if np.iinfo(t).min <= data.min() and data.max() <= np.iinfo(t).max][:3] + [np.int64]))
        ctx.tag('layout:' + data.dtype.name)
    lay = ctx.u()
    if lay < 0.15:
        buf = np.asfortranarray(data)
        ctx.tag('layout:fortran')
    elif lay < 0.25:
        buf = np.ascontiguousarray(data.T).T
        ctx.tag('layout:transposed')
    else:
        buf = data.copy()
    ctx.tag('even grid' if g % 2 == 0 else 'odd grid')
    d, xm, ym = ctx.expect(ctx.call(M, buf, hx, hy, g), 'bivariate kernel')
    d, xm, ym = np.asarray(d), np.asarray(xm), np.asarray(ym)
    what = f'bivariate kernel (n={n}, grid={g}, hx={hx:.4g}, hy={hy:.4g})'
    ctx.check(d.shape == (g, g) and xm.shape == (g, g) and ym.shape == (g, g), lambda: f'{what}: shapes {d.shape} {xm.shape} {ym.shape}')
    gx, gy = np.linspace(x.min(), x.max(), g), np.linspace(y.min(), y.max(), g)
    ctx.check(close(xm, np.tile(gx, (g, 1)), 1e-9, 1e-9 * scale_of(x)), f'{what}: the x grid does not span the data along columns')
    ctx.check(close(ym, np.tile(gy[:, None], (1, g)), 1e-9, 1e-9 * scale_of(y)), f'{what}: the y grid does not span the data along rows')
    ctx.check(bool(np.all(np.isfinite(d)) and np.all(d >= 0)), f'{what}: the density is negative or not finite')
    area = np.ptp(x) * np.ptp(y) / (g * g)
    ref_d, edge = reference(x, y, hx, hy, g)
    clipped = float(-np.sum(np.minimum(ref_d, 0))) * area
    mass = float(d.sum()) * area
    if edge:        # the side on which such samples are counted changes how much ringing was cut off
        clipped = 3 * clipped + 0.05 * (clipped > 0 or g * min(hx, hy) < 2)
    ctx.check(abs(mass - 1) <= 1e-8 + 1.01 * clipped + 1e-12 * g * g * area, lambda: f'{what}: the density sums to {mass!r}')
    if edge:
        ctx.tag('samples on bin edges: values not compared')
        return
    want = np.maximum(ref_d, 0)
    t = 1e-9 * want.max() + 1e-15
    bad = np.abs(d - want) > t
    ctx.check(not bad.any(), lambda: f'{what}: density {d[bad][0]!r} at {np.argwhere(bad)[0]}, the smoothed histogram gives {want[bad][0]!r}'
              f' (peak {want.max():.4g}, {int(bad.sum())} cells differ)')
    ctx.count('density values compared', g * g)
