"""C08 polynomial replacement."""
from .common import *

FILES = ['proadv/filtration/replacement/replacements.py']
CASES = {'quick': 15900, 'thorough': 360000}
M = R + 'polynomial_replacement'


def case(ctx):
    n = gen.sizes(ctx, 2, 260, big(ctx, 1500, 4000), 0.1, 8000)
    x = gen.series(ctx, n)
    s = gen.spikes(ctx, n)
    if s.size > 60:
        s = s[np.unique(np.linspace(0, s.size - 1, 60).astype(int))]
    kw, d = pick_decimals(ctx)
    deg, win = 2, 100
    if ctx.chance(0.6):
        deg = ctx.pick((1, 2, 2, 3, 3, 4, 5)) if ctx.chance(0.95) else 0
        win = ctx.integer(deg + 2, 200 if deg < 4 else 45)
        if ctx.chance(0.3):
            win = 100
        else:
            kw['window'] = win
        kw['degree'] = deg
    keep = x.copy()
    sc = scale_of(keep)
    info = {}
    want = ref.polynomial(keep, s, win, deg, d, info=info)
    if info.get('cond', 1.0) > 1e11:
        raise Skip()        # cubic fits far from the origin: double precision does not determine the result
    # how far a relative error of 1e-9 (or of the fit's conditioning) in the record and in every fit can carry through
    # the chain of fits; a rounding tie among the early samples moves them by one unit of the last decimal
    sens = np.zeros(n)
    ej = 10.0 ** (-d) if info.get('tie') else 0.0
    for q in range(3):
        g = np.random.default_rng(5 + q)
        noise = g.uniform(-1, 1, n) * 1e-9 * (sc + 1e-300)
        v = ref.polynomial(keep + noise, s, win, deg, 14 if not ej else d, g.choice([-1e-9, 1e-9], n), ej / 100)
        b0 = ref.polynomial(keep, s, win, deg, 14 if not ej else d)
        sens = np.maximum(sens, np.abs(v - b0))
    if ej:
        ctx.tag('rounding tie among the early samples')
    xin = gen.layout(ctx, x)
    idx = index_array(ctx, s)
    if set(kw) == {'window', 'degree', 'decimals'} and ctx.chance(0.5):
        o = ctx.call(M, xin, idx, win, deg, d)
    else:
        o = ctx.call(M, xin, idx, **kw)
    out = np.asarray(ctx.expect(o, 'polynomial replacement'))
    ctx.check(out.shape == (n,), f'wrong shape {out.shape}')
    ok = rounded_ok(out, want, d, 1e-6 * sc + 200 * sens)
    ctx.check(bool(np.all(ok)), lambda: f'polynomial replacement: sample {np.nonzero(~ok)[0][0]} became '
              f'{out[~ok][0]!r}, expected {want[~ok][0]!r} rounded to {d} decimals (n={n}, window={win}, degree={deg}, '
              f'spikes {s[:10]})')
    ctx.count('spikes compared', int(s.size))
    ctx.count('regressions', int(np.sum(s > 10)))
