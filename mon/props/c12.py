"""C12 three-dimensional (spherical) phase-space thresholding (Wahl)."""
import math

from .common import *

FILES = ['proadv/filtration/detection/spherical.py']
CASES = {'quick': 16100, 'thorough': 348000}
M = D + 'spherical.spherical_phasespace_thresholding'


def grad(c):
    g = np.empty(c.size)
    g[1:-1] = (c[2:] - c[:-2]) / 2
    g[0] = c[1] - c[0]
    g[-1] = c[-1] - c[-2]
    return g


def model(x, jit):
    """Flags; jit(shape, scale) gives the perturbation put in front of every rounding."""
    def rnd(v):
        v = np.asarray(v, float)
        return np.around(v + jit(v), 4)
    c = rnd(x - np.mean(x))
    d1 = grad(c)
    d2 = grad(d1)
    s2 = float(np.sum(c * c))
    th = float(rnd(math.atan2(float(np.sum(c * d2)), s2)))
    if th == 0:
        X, Y, Z = c, d1, d2
    else:
        co, si = float(rnd(math.cos(th))), float(rnd(math.sin(th)))
        X, Y, Z = rnd(c * co + d2 * si), rnd(d1), rnd(-c * si + d2 * co)
    lam = float(rnd(math.sqrt(2 * math.log(x.size))))
    a, b, cc = (float(rnd(lam * np.std(v))) for v in (X, Y, Z))
    if min(a, b, cc) <= 0:
        return None
    den = np.sqrt((X / a) ** 2 + (Y / b) ** 2 + (Z / cc) ** 2)
    X2, Y2 = rnd(X / den), rnd(Y / den)
    zt = np.maximum(rnd(cc ** 2 * (1 - (X2 / a) ** 2 - (Y2 / b) ** 2)), 0)
    Z2 = np.where(Z == 0, 0.0, rnd(np.sqrt(zt)))
    inside = X2 ** 2 + Y2 ** 2 + Z2 ** 2
    mine = X ** 2 + Y ** 2 + Z ** 2
    return inside - mine, inside + mine, den


def case(ctx):
    n = gen.sizes(ctx, 4, 250, big(ctx, 2000, 18000), 0.06, 70000)
    x = gen.series(ctx, n, scale=ctx.wpick([(1.0, 3), (10.0, 3), (50.0, 1), (0.3, 1), (0.05, 1.5), (0.01, 0.7)]))
    if ctx.chance(0.02):
        out = ctx.expect(ctx.call(M, gen.layout(ctx, np.full(n, ctx.pick((0.0, 1.5, -2.0)))), 1, 0.0), 'three-dimensional phase-space thresholding')
        ctx.check(np.size(out) == 0, lambda: f'three-dimensional phase space: {np.size(out)} of {n} samples of a record that does not vary are flagged')
        ctx.tag('dead record')
        return
    if not gen.varied(ctx, x):
        raise Skip()
    keep = x.copy()
    it = ctx.pick((0, 1, 2, 3, 7, ctx.integer(4, 12), int(ctx.logu(10, 2000))))
    cm = ctx.pick((0.0, float(np.mean(x)), -3.5, 100.0, float(np.median(x)), ctx.uniform(-1, 1) * float(np.max(np.abs(x)))))
    res = []
    r = np.random.default_rng(int(ctx.u() * 2 ** 40))
    trials = [lambda v: 0.0, lambda v: 1e-9 * (1 + np.abs(v)), lambda v: -1e-9 * (1 + np.abs(v))] + \
        [lambda v: 1e-9 * (1 + np.abs(v)) * r.choice([-1.0, 1.0], np.shape(v))] * 5
    for j in trials:
        m = model(keep, j)
        if m is None:
            raise Skip()
        res.append(m)
    dis = res[0][0]
    band = 1e-9 * res[0][1]
    yes = dis < 0
    unsure = np.abs(dis) <= band
    for m in res[1:]:
        unsure |= (m[0] < 0) != yes
        unsure |= np.abs(m[0] - dis) > 0.5 * np.abs(dis)
    out = np.asarray(ctx.expect(ctx.call(M, gen.layout(ctx, x), it, cm), 'three-dimensional phase-space thresholding'))
    flagged = contract(ctx, out, n, 'three-dimensional phase-space thresholding')
    wrong = np.nonzero((flagged != yes) & ~unsure)[0]
    ctx.check(wrong.size == 0, lambda: f'three-dimensional phase space: sample {wrong[0]} is '
              f'{"" if flagged[wrong[0]] else "not "}flagged, its normalised radius is {res[0][2][wrong[0]]:.6f} '
              f'(n={n}, {wrong.size} wrong)')
    # independent of the four-decimal roundings: clear spikes flagged, clearly inside not flagged
    den = res[0][2]
    ctx.count('samples classified', n)
    ctx.count('spikes flagged', int(flagged.sum()))
    ctx.count('borderline samples left open', int(unsure.sum()))
    if flagged.any():
        ctx.tag('some spikes')
