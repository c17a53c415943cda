"""C11 velocity correlation filter (Cea et al.)."""
import math

from .common import *

FILES = ['proadv/filtration/detection/correlation.py', 'proadv/filtration/detection/poincare.py']
CASES = {'quick': 34600, 'thorough': 900000}
M = D + 'correlation.velocity_correlation'


def three(ctx, n):
    k = ctx.u()
    if k < 0.2:
        d = gen.dataset()[ctx.pick(('first', 'second'))]
        o = int(ctx.u() * max(1, d.shape[0] - n))
        ctx.tag('data:dataset triple')
        return tuple(np.ascontiguousarray(np.resize(d[o:o + n, j], n)) for j in range(3))
    u = gen.series(ctx, n)
    v = gen.series(ctx, n)
    w = gen.series(ctx, n)
    k = ctx.u()
    if k < 0.4:         # correlated components
        v = v * 0.3 + ctx.uniform(-1.5, 1.5) * u
        ctx.tag('correlated u,v')
    if 0.2 < k < 0.6:
        w = w * 0.3 + ctx.uniform(-1.5, 1.5) * (u if k < 0.4 else v)
        ctx.tag('correlated w')
    r = ctx.rng()
    if ctx.chance(0.5):     # spikes seen by one pair only, or by several
        for a in (u, v, w):
            if r.random() < 0.5:
                i = r.integers(0, n, int(r.integers(1, 4)))
                a[i] += r.choice([-1, 1]) * r.uniform(4, 20) * np.std(a)
    return u, v, w


def pair(x, y, lam):
    th = math.atan(float(np.sum(x * y)) / float(np.sum(x * x)))
    A, B, amb = ref.ellipse_axes2(ref.pstd(x), ref.pstd(y), th, lam)
    if amb:
        return None, True, False
    if A > 0 and B > 0:
        return ref.rho_from(x, y, th, math.sqrt(A), math.sqrt(B)), False, True
    return ref.rho_from(x, y, th, 1e10, 1e10), False, False


def case(ctx):
    n = gen.sizes(ctx, 4, 300, big(ctx, 4000, 18000), 0.08, 70000)
    uvw = three(ctx, n)
    dead = ()
    if ctx.chance(0.04):        # a lost beam: the component does not vary at all
        dead = ctx.pick(((0,), (1,), (2,), (0, 1), (1, 2), (0, 2), (0, 1, 2)))
        uvw = [np.full(n, ctx.pick((0.0, 1.5, -2.0, 0.25))) if i in dead else a for i, a in enumerate(uvw)]
        ctx.tag('dead component')
    if not all(gen.varied(ctx, a) for i, a in enumerate(uvw) if i not in dead):
        raise Skip()
    c = [a - float(np.mean(a.astype(np.longdouble))) for a in uvw]
    lam = math.sqrt(2 * math.log(n))
    rhos = []
    for i, j in ((0, 1), (0, 2), (1, 2)):
        if i in dead or j in dead:
            rhos.append(None)
            continue
        r, amb, reg = pair(c[i], c[j], lam)
        if amb:
            raise Skip()
        if not reg:
            ctx.tag('degenerate ellipse')
            r = None if np.max(r) < 0.5 else r
        rhos.append(r)
    off = ctx.pick((0.0, 0.0, 5.0, -20.0))
    args = [gen.layout(ctx, a + off) if off else gen.layout(ctx, a) for a in uvw]
    out = np.asarray(ctx.expect(ctx.call(M, *args), 'velocity correlation'))
    flagged = contract(ctx, out, n, 'velocity correlation')
    compare_flags(ctx, flagged, rhos, 'velocity correlation', 1e-7)
