"""C23 turbulent kinetic energy and Reynolds stresses."""
from .common import *

FILES = ['proadv/statistics/signal/fluid.py']
CASES = {'quick': 94700, 'thorough': 2400000}
F = S + 'signal.fluid.'


def case(ctx):
    n = gen.sizes(ctx, 1, 300, big(ctx, 5000, 20000), 0.08, 70000)
    u, v, w = (gen.series(ctx, n) for _ in range(3))
    if ctx.chance(0.1):
        v = u.copy()
    keep = [a.astype(np.longdouble) for a in (u, v, w)]
    p = [a - a.mean() for a in keep]
    sc = [scale_of(a) for a in (u, v, w)]
    a = [gen.layout(ctx, q) for q in (u, v, w)]
    if ctx.chance(0.4):
        got = float(ctx.expect(ctx.call(F + 'kinetic_turbulent_energy', *a), 'turbulent kinetic energy'))
        want = float(sum(np.mean(q * q) for q in p) / 2)
        t = 1e-11 * want + 1e-13 * sum(s * s for s in sc) * 1e-3
        ctx.check(abs(got - want) <= t, lambda: f'turbulent kinetic energy is {want!r}, got {got!r} (n={n})')
        ctx.check(got >= 0, 'negative turbulent kinetic energy')
    else:
        got = ctx.expect(ctx.call(F + 'reynolds_stresses', *a), 'Reynolds stresses')
        ctx.check(len(got) == 6, f'{len(got)} Reynolds stresses')
        for k, (i, j) in enumerate(((0, 0), (1, 1), (2, 2), (0, 1), (0, 2), (1, 2))):
            want = float(np.mean(p[i] * p[j]))
            t = 1e-12 * float(np.sqrt(np.mean(p[i] ** 2) * np.mean(p[j] ** 2))) * 10 + 1e-16 * sc[i] * sc[j]
            ctx.check(abs(float(got[k]) - want) <= t, lambda: f'Reynolds stress {k} is {want!r}, got {got[k]!r} (n={n})')
    ctx.count('records of three components', 1)
