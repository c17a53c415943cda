"""C32 building blocks of the bivariate kernel workflow."""
import math

from .common import *

FILES = ['proadv/filtration/detection/bivariatekernel.py', 'proadv/kernel/bivariate.py']
CASES = {'quick': 195700, 'thorough': 3000000}
BK = D + 'bivariatekernel.'
RT = 'kernel.bivariate.'


def case(ctx):
    k = ctx.pick(('derivative', 'rotation', 'cutoff', 'root', 'workflow'))
    ctx.tag('part:' + k)
    if k == 'derivative':
        x = gen.series(ctx, gen.sizes(ctx, 2, 400, 3000, 0.01, 40000))
        keep = x.copy()
        got = np.asarray(ctx.expect(ctx.call(BK + '_derivative', gen.layout(ctx, x, narrow=True)), 'derivative'))
        want, amb = derivative(keep)
        ctx.check(got.shape == keep.shape, f'derivative: shape {got.shape}')
        ok = (got == want) | (amb & (np.abs(got) == np.abs(want)))
        ctx.check(bool(np.all(ok)), lambda: f'derivative: {got[~ok][0]!r} at {np.nonzero(~ok)[0][0]}, the smaller one-sided '
                  f'difference is {want[~ok][0]!r}')
        ctx.count('samples compared', got.size)
    elif k == 'rotation':
        n = gen.sizes(ctx, 2, 400, 5000, 0.02, 70000)
        x, y = gen.series(ctx, n), gen.series(ctx, n)
        if ctx.chance(0.4):
            y = 0.2 * y + ctx.uniform(-3, 3) * x
        if not gen.varied(ctx, x):
            raise Skip()
        got = float(ctx.expect(ctx.call(RT + '_rotation', gen.layout(ctx, x, narrow=True), gen.layout(ctx, y, narrow=True)), 'rotation'))
        want, tol = rotation(x, y)
        ctx.check(abs(got - want) <= tol, lambda: f'rotation angle {got!r}, the regression slope gives {want!r} (n={n})')
    elif k == 'cutoff':
        g = ctx.integer(5, 80)
        r = ctx.rng()
        t = np.linspace(-3, 3, g)
        if r.random() < 0.5:
            f = np.exp(-(t - r.uniform(-2, 2)) ** 2 / r.uniform(0.1, 3)) + r.uniform(0, 0.3) * r.random(g)
        else:
            f = r.uniform(0.01, 1, g)
        f *= r.uniform(0.1, 5)
        v = np.sort(r.normal(0, 5, g)) if r.random() < 0.5 else np.linspace(-4, 7, g)
        pk = int(np.argmax(f)) if r.random() < 0.7 else int(r.integers(g))
        dp = float(f.max() * r.uniform(1, 1.5))
        c1 = ctx.pick((0.4, 0.1, 0.8, 1.0, 0.0, ctx.uniform(0, 1)))
        c2 = ctx.pick((0.4, 1.0, 5.0, 0.05, ctx.uniform(0, 20)))
        gr = ctx.pick((g, g, 256, 64))
        exact = r.random() < 0.25
        if exact:       # every quantity a multiple of a power of two, so that ties with the thresholds can be decided
            f = r.integers(1, 65, g) / 64.0
            if r.random() < 0.5:
                f = np.sort(f)[np.argsort(np.abs(np.arange(g) - r.integers(g)))[::-1].argsort()]
            pk = int(np.argmax(f))
            f[pk] = 1.0
            dp, gr = 2.0 ** int(r.integers(0, 2)), int(ctx.pick((16, 64, 32)))
            c1, c2 = int(r.integers(0, 65)) / 64.0, int(r.integers(0, 33)) * gr / 64.0 / 4
            ctx.tag('cut-off thresholds that are met exactly')
        try:
            lo, hi = ref.cutoff_index(f, pk, dp, c1, c2, gr, exact)
        except ref.Ambiguous:
            raise Skip()
        got = ctx.expect(ctx.call(BK + '_cutoff', dp, v.copy(), c1, c2, f.copy(), pk, gr), 'cut-off')
        ctx.check(len(got) == 2 and got[0] == v[lo] and got[1] == v[hi], lambda: f'cut-off velocities {got}, expected '
                  f'{v[lo], v[hi]} (peak {pk} of {g}, c1={c1:.3g}, c2={c2:.3g})')
        ctx.tag('lower fallback' if lo == 1 else 'lower found', 'upper fallback' if hi == g - 1 else 'upper found')
    elif k == 'root':
        c = ctx.pick((0.0, 1e-13, 0.02, 0.05, 0.099, ctx.logu(1e-8, 0.09)))
        n = ctx.integer(1, 3000)
        m = ctx.logu(1e-2, 1e2)
        sg = ctx.pick((1, -1))
        sh = ctx.pick((0, 0, 1, 2, 3))
        bad = []

        def fun(t):
            if not 0 <= t <= 0.1000001:
                bad.append(t)
            e = t - c
            return sg * m * (e, math.tanh(40 * e), math.expm1(30 * e), e * (0.1 + 50 * e * e))[sh]
        got = float(ctx.expect(ctx.call(RT + 'root', fun, n, decoy=False), 'root'))
        ctx.fingerprint(c, n, m, sh)
        ctx.check(not bad, lambda: f'root search evaluated {bad[0]!r}, outside [0, 0.1]')
        ctx.check(abs(got - c) <= (1e-9 if c <= 0.04 else 2e-5), lambda: f'root search returned {got!r}, the root is {c!r} (n={n})')
    else:
        n = gen.nasty_sizes(ctx, 20, 300)
        x = gen.series(ctx, n)
        if not gen.varied(ctx, x):
            raise Skip()
        keep = x.copy()
        d = np.asarray(ctx.expect(ctx.call(BK + '_derivative', x), 'derivative'))
        th = float(ctx.expect(ctx.call(RT + '_rotation', x, d), 'rotation'))
        want, tol = rotation(keep, d)
        ctx.check(abs(th - want) <= tol, lambda: f'rotation angle {th!r}, the regression slope gives {want!r}')
        ut, wt = x * math.cos(th) + d * math.sin(th), -x * math.sin(th) + d * math.cos(th)
        if not (gen.varied(ctx, ut) and gen.varied(ctx, wt)):
            raise Skip()
        g = ctx.integer(8, 24)
        gu, gw = np.linspace(ut.min(), ut.max(), g), np.linspace(wt.min(), wt.max(), g)
        A, B = np.meshgrid(gu, gw, indexing='ij')
        try:
            dens = ref.gauss_kde(np.vstack([ut, wt]), np.vstack([A.ravel(), B.ravel()])).reshape(g, g)
        except np.linalg.LinAlgError:
            raise Skip()
        iu, iw = np.unravel_index(np.argmax(dens), dens.shape)
        for vel, prof, pk in ((gu, dens[:, iw], iu), (gw, dens[iu, :], iw)):
            try:
                lo, hi = ref.cutoff_index(prof, pk, dens.max(), 0.4, 0.4, g)
            except ref.Ambiguous:
                continue
            got = ctx.expect(ctx.call(BK + '_cutoff', dens.max(), vel.copy(), 0.4, 0.4, prof.copy(), int(pk), g), 'cut-off')
            ctx.check(got[0] == vel[lo] and got[1] == vel[hi], lambda: f'cut-off velocities {got}, expected {vel[lo], vel[hi]}')
            ctx.count('cut-offs on estimated densities')


def derivative(x):
    n = x.size
    d = np.zeros(n)
    amb = np.zeros(n, bool)
    for i in range(1, n - 1):
        b, f = x[i] - x[i - 1], x[i + 1] - x[i]
        d[i] = f if abs(f) < abs(b) else b
        amb[i] = abs(f) == abs(b) and f != b
    return d, amb


def rotation(x, y):
    L = np.longdouble
    x, y = x.astype(L), y.astype(L)
    n = x.size
    num = n * np.sum(x * y) - np.sum(x) * np.sum(y)
    den = n * np.sum(x * x) - np.sum(x) ** 2
    err = 1e-14 * n * (np.sum(np.abs(x * y)) * n + abs(np.sum(x) * np.sum(y)) + np.sum(x * x) * n + np.sum(x) ** 2)
    mag = math.hypot(float(num), float(den))
    if mag == 0 or float(err) / mag > 0.05:
        raise Skip()
    return math.atan2(float(num), float(den)), float(err) / mag * 4 + 1e-12
