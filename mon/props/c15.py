"""C15 pollution rate."""
from .common import *

FILES = ['proadv/filtration/detection/pollution.py']
CASES = {'quick': 46200, 'thorough': 1108000}
M = D + 'pollution.pollution_rate'


def case(ctx):
    n = gen.sizes(ctx, 1, 300, big(ctx, 5000, 20000), 0.1, 70000)
    x = gen.series(ctx, n)
    kind = ctx.pick(('smooth', 'mean', 'shifted', 'self', 'noise', 'scaled', 'scalar'))
    r = ctx.rng()
    sd = ref.pstd(x)
    if kind == 'smooth':
        f = ref.sma(x, min(n, 7))
    elif kind == 'mean':
        f = np.full(n, x.mean())
    elif kind == 'shifted':
        f = x + r.choice([-1, 1]) * r.uniform(0, 3) * sd
    elif kind == 'self':
        f = x.copy()
    elif kind == 'noise':
        f = x + r.normal(0, 1, n) * sd * r.uniform(0.2, 4)
    elif kind == 'scaled':
        f = x * r.uniform(-1, 1.5)
    else:
        f = float(x.mean())
    ctx.tag('filtered:' + kind)
    k = ctx.pick((0, 1, 1.5, 2, 3, 0.5, ctx.uniform(0, 4)))
    exact = ctx.chance(0.12)
    if exact:
        x, m, sd = gen.exact(ctx, min(n, 400))
        n = x.size
        k = ctx.pick((0, 1, 0.5, 2, 1.5, 0.25))
        f = x + sd * k * r.choice([-1, 1, 0, 2, -2, 0.5], n) if ctx.chance(0.7) else np.full(n, m)
    d = x - f
    tol = 1e-9 * (np.abs(x) + np.abs(f) + k * sd + 1e-300)
    sure = int(np.sum(np.abs(d) > k * sd + tol))
    near = np.abs(np.abs(d) - k * sd) <= tol
    if k == 0 or sd == 0:
        near &= d != 0
        sure = int(np.sum((np.abs(d) > k * sd) & ~near))
    if exact:
        near[:] = False
        sure = int(np.sum(np.abs(d) > k * sd))
        ctx.tag('exact ties decided')
        if np.any(np.abs(d) == k * sd):
            ctx.tag('difference exactly at the limit')
    fin = f if np.isscalar(f) else gen.layout(ctx, f)
    got = ctx.expect(ctx.call(M, gen.layout(ctx, x), fin, k), 'pollution rate')
    lo, hi = 100.0 * sure / n, 100.0 * (sure + int(near.sum())) / n
    ctx.check(lo - 1e-9 <= float(got) <= hi + 1e-9, lambda: f'pollution rate {got!r} outside [{lo}, {hi}] '
              f'(n={n}, k={k}, filtered={kind}: {int(np.sum(d > k * sd))} above, {int(np.sum(d < -k * sd))} below)')
    ctx.count('samples judged', n)
    if np.any(d > k * sd) and np.any(d < -k * sd):
        ctx.tag('noise on both sides')
