"""C10 phase-space thresholding (Goring and Nikora)."""
import math

from .common import *

FILES = ['proadv/filtration/detection/phasespace.py', 'proadv/filtration/detection/poincare.py']
CASES = {'quick': 24800, 'thorough': 400000}
P = D + 'phasespace.'


def deriv(c, nudge=0.0):
    d = np.zeros(c.size)
    d[1:-1] = np.around((c[2:] - c[:-2]) / 2 + nudge, 4)
    d2 = np.zeros(c.size)
    d2[1:-1] = np.around((d[2:] - d[:-2]) / 2 + nudge, 4)
    return d, d2


def case(ctx):
    n = gen.sizes(ctx, 4, 300, big(ctx, 3000, 20000), 0.08, 70000)
    x = gen.series(ctx, n)
    if ctx.chance(0.8):
        x = x - np.mean(x)
    if ctx.chance(0.15):
        # multiples of 8e-4: both differences are exact to four decimals, nothing hangs on how ties are rounded
        x = np.round(x / (np.std(x) or 1.0) * ctx.pick((0.02, 0.2, 5.0)) / 8e-4) * 8e-4
        ctx.tag('differences exact to four decimals')
    if ctx.chance(0.02):
        out = ctx.expect(ctx.call(P + 'phasespace_thresholding', gen.layout(ctx, np.zeros(n))), 'phase-space thresholding')
        ctx.check(np.size(out) == 0, lambda: f'phase-space thresholding flags {np.size(out)} of {n} samples of a record that does not vary')
        ctx.tag('dead record')
        return
    if not gen.varied(ctx, x):
        raise Skip()
    keep = x.copy()
    sc = scale_of(keep)
    dc, dc2 = deriv(keep)
    tiny = 1e-9 * (1 + sc)
    variants = [deriv(keep, +tiny), deriv(keep, -tiny)]
    tie = any(not (np.array_equal(a, dc) and np.array_equal(b, dc2)) for a, b in variants)
    if ctx.chance(0.15):
        got = ctx.expect(ctx.call(P + 'calculate_derivatives', gen.layout(ctx, x, narrow=True)), 'derivatives')
        for g, w, name in zip(got, (dc, dc2), ('first', 'second')):
            t = 2.1e-4 if tie else 1e-12 * (1 + sc)
            ctx.check(np.shape(g) == (n,) and bool(np.all(np.abs(g - w) <= t)), f'{name} derivative differs from the central '
                      f'difference rounded to four decimals')
            ctx.check(bool(np.all(np.abs(np.asarray(g) * 1e4 - np.rint(np.asarray(g) * 1e4)) <= 1e-6 * (1 + sc))), f'{name} derivative is not '
                      f'rounded to four decimals')
        ctx.tag('derivatives')
    sds = (ref.pstd(keep), ref.pstd(dc), ref.pstd(dc2))
    if min(sds) <= 1e-9 * (1e-300 + sc):
        raise Skip()
    lam = math.sqrt(2 * math.log(n))
    th = math.atan(float(np.sum(keep * dc2)) / float(np.sum(keep ** 2)))
    r1 = (keep / (lam * sds[0])) ** 2 + (dc / (lam * sds[1])) ** 2
    r2 = (dc / (lam * sds[1])) ** 2 + (dc2 / (lam * sds[2])) ** 2
    A, B, amb = ref.ellipse_axes2(sds[0], sds[2], th, lam)
    extra = None
    if amb:
        raise Skip()
    r3 = ref.rho_from(keep, dc2, th, math.sqrt(A), math.sqrt(B)) if A > 0 and B > 0 else None
    if r3 is None:
        ctx.tag('degenerate third ellipse')
    band = 1e-8
    if tie:
        band = 8e-4 / min(sds[1], sds[2]) + 1e-8
        ctx.tag('rounding ties: wide band')
        if band > 0.2:
            raise Skip()
    out = np.asarray(ctx.expect(ctx.call(P + 'phasespace_thresholding', gen.layout(ctx, x, narrow=True)), 'phase-space thresholding'))
    flagged = contract(ctx, out, n, 'phase-space thresholding')
    compare_flags(ctx, flagged, (r1, r2, r3), 'phase-space thresholding', band)
    if ctx.chance(0.15) and not tie:
        got = ctx.expect(ctx.call(P + 'calculate_parameters', keep.copy(), dc.copy(), dc2.copy()), 'parameters')
        want = (*sds, lam, th, lam * sds[0], lam * sds[1], lam * sds[1], lam * sds[2])
        ctx.check(close(np.array(got[:9], float), np.array(want), 1e-8, 1e-10), f'ellipse parameters {got[:9]} differ from {want}')
        if r3 is not None:
            ctx.check(close(np.array(got[9:11], float), np.sqrt([A, B]), 1e-6), 'rotated ellipse axes')
        ctx.tag('parameters')
