"""C13 kernel-density detection (2-D kernel and 3-D KDE)."""
import math

from .common import *

FILES = ['proadv/filtration/detection/trivariatekernel.py']
CASES = {'quick': 16500, 'thorough': 280000}
K = D + 'trivariatekernel.kernel'
M = D + 'trivariatekernel.three_dimensional_kernel'


def deriv(x):
    d = np.zeros(x.size)
    d[1:-1] = (x[2:] - x[:-2]) / 2
    e = np.zeros(x.size)
    e[1:-1] = (d[2:] - d[:-2]) / 2
    return d, e


def ellipse(u, w, grid):
    """-> (normalised squared distance of every sample, density on the grid)"""
    n = u.size
    mu, mw = u - u.mean(), w - w.mean()
    th = math.atan2(float(np.sum(mu * mw)), float(np.sum(mu * mu)))
    ut, wt = u * math.cos(th) + w * math.sin(th), -u * math.sin(th) + w * math.cos(th)
    if ref.pstd(ut) < 1e-6 * (1e-300 + scale_of(ut)) or ref.pstd(wt) < 1e-6 * (1e-300 + scale_of(wt)):
        raise ref.Ambiguous('flat')
    C = np.cov(np.vstack([ut, wt]))
    if np.linalg.cond(C) > 1e8:
        raise ref.Ambiguous('nearly singular')
    gu = np.linspace(ut.min(), ut.max(), grid)
    gw = np.linspace(wt.min(), wt.max(), grid)
    A, B = np.meshgrid(gu, gw, indexing='ij')
    dens = ref.gauss_kde(np.vstack([ut, wt]), np.vstack([A.ravel(), B.ravel()])).reshape(grid, grid)
    pk = dens.max()
    close_ = np.argwhere(dens >= pk * (1 - 1e-8))
    if len(close_) > 1:
        raise ref.Ambiguous('peak')
    iu, iw = close_[0]
    lam = math.sqrt(2 * math.log(n))
    cu, cw = lam * ref.pstd(u) / math.sqrt(n), lam * ref.pstd(w) / math.sqrt(n)
    lu, hu = ref.cutoff_index(dens[:, iw], iu, pk, cu, cu, grid)
    lw, hw = ref.cutoff_index(dens[iu, :], iw, pk, cw, cw, grid)
    if hu == lu or hw == lw:
        raise ref.Ambiguous('degenerate cut-offs')
    cu0, ru = (gu[lu] + gu[hu]) / 2, (gu[hu] - gu[lu]) / 2
    cw0, rw = (gw[lw] + gw[hw]) / 2, (gw[hw] - gw[lw]) / 2
    return ((ut - cu0) / ru) ** 2 + ((wt - cw0) / rw) ** 2, dens


def case(ctx):
    n = gen.sizes(ctx, 12, 220, big(ctx, 900, 3000), 0.1, 3000)
    grid = ctx.integer(6, 24) if ctx.chance(0.85) else ctx.pick((32, 48, 64))
    x = gen.series(ctx, n)
    if not gen.varied(ctx, x):
        raise Skip()
    keep = x.copy()
    try:
        if ctx.chance(0.5):
            ctx.tag('pairwise kernel')
            y = gen.series(ctx, n)
            if ctx.chance(0.4):
                y = 0.5 * y + ctx.uniform(-1, 1) * keep
            if not gen.varied(ctx, y):
                raise Skip()
            rho, dens = ellipse(keep, y, grid)
            idx, est = ctx.expect(ctx.call(K, gen.layout(ctx, x, narrow=True), gen.layout(ctx, y, narrow=True), grid), 'kernel')
            flagged = contract(ctx, np.asarray(idx), n, 'kernel')
            compare_flags(ctx, flagged, (rho,), 'kernel', 1e-7)
            est = np.asarray(est)
            ctx.check(est.shape == (grid, grid), f'kernel: density shape {est.shape}')
            ctx.check(bool(np.all(np.abs(est - dens) <= 1e-7 * dens.max())), lambda: f'kernel: the density estimate differs '
                      f'from the Gaussian KDE by {np.max(np.abs(est - dens)) / dens.max():.3g} of its peak (n={n}, grid={grid})')
            ctx.count('density values compared', grid * grid)
        else:
            ctx.tag('three-dimensional')
            d, e = deriv(keep)
            rs = [ellipse(a, b, grid)[0] for a, b in ((keep, d), (keep, e), (d, e))]
            out = np.asarray(ctx.expect(ctx.call(M, gen.layout(ctx, x, narrow=True), grid), '3-D kernel detection'))
            flagged = contract(ctx, out, n, '3-D kernel detection')
            compare_flags(ctx, flagged, rs, '3-D kernel detection', 1e-7)
    except ref.Ambiguous as a:
        ctx.tag(f'undecidable: {a}')
        raise Skip()
