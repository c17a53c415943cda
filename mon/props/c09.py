"""C09 acceleration thresholding."""
from .common import *

FILES = ['proadv/filtration/detection/acceleration.py']
CASES = {'quick': 71100, 'thorough': 1252000}
M = D + 'acceleration.acceleration_thresholding'


def case(ctx):
    n = gen.sizes(ctx, 2, 300, big(ctx, 5000, 20000), 0.1, 70000)
    x = gen.series(ctx, n)
    tag = ctx.pick((1, 2))
    kw = {}
    freq = ctx.pick((25, 50, 100, 200, 100.0, 1, ctx.real(0.5, 500)))
    sd = ref.pstd(x)
    # thresholds near what the record actually does, so that both comparisons matter
    if ctx.chance(0.75):
        dmax = np.max(np.abs(np.diff(x))) * freq
        q = float(np.quantile(np.abs(np.diff(x)) * freq, ctx.uniform(0, 1)))
        k = ctx.u()
        if k < 0.3:
            kw = {'gravity': ctx.pick((980, 9.81, 98.1, 1)), 'k_gravity': ctx.pick((0, 0.5, 1, 1.5, 2, 3, -0.5))}
        elif k < 0.65:
            kw = {'gravity': max(q, 1e-12) / 1.5}
        else:
            kw = {'gravity': 980, 'k_gravity': q / 980}
        if ctx.chance(0.6):
            kw['k_sigma'] = ctx.pick((0, 0.5, 1, 1.5, 2, -0.5, ctx.uniform(0, 3)))
    exact = ctx.chance(0.12)
    if exact:       # limits that samples hit exactly
        x, m, sd = gen.exact(ctx, min(n, 400))
        n = x.size
        freq = ctx.pick((1, 2, 4, 16, 64.0, 128))
        g = ctx.pick((980, 1, 2, 16, 64))
        kw = {'gravity': g, 'k_sigma': ctx.pick((0, 1, 2, 3, 0.5, -1))}
        d = np.diff(x) * freq
        kw['k_gravity'] = ctx.pick((0, 1, 1.5, float(np.abs(d).max()) / g if g != 980 else 1.5))
    keep = x.copy()
    g, kg, ks = kw.get('gravity', 980), kw.get('k_gravity', 1.5), kw.get('k_sigma', 1)
    xin = gen.layout(ctx, x, narrow=True)
    if ctx.chance(0.1):
        xin = list(map(float, x))
        ctx.tag('layout:list')
    if ctx.chance(0.3):
        o = ctx.call(M, xin, freq, tag, g, kg, ks)
    elif ctx.chance(0.3):
        o = ctx.call(M, velocities=xin, frequency=freq, tag=tag, **kw)
    else:
        o = ctx.call(M, xin, freq, tag, **kw)
    out = np.asarray(ctx.expect(o, 'acceleration thresholding'))
    yes, unsure = ref.accel(keep, freq, tag, g, kg, ks, exact)
    flagged = contract(ctx, out, n, 'acceleration thresholding')
    wrong = np.nonzero((flagged != yes) & ~unsure)[0]
    ctx.check(wrong.size == 0, lambda: f'acceleration (tag {tag}): sample {wrong[0]} is '
              f'{"" if flagged[wrong[0]] else "not "}flagged, the criterion says the opposite (n={n}, freq={freq}, {kw})')
    ctx.count('samples classified', n)
    ctx.count('spikes flagged', int(flagged.sum()))
    ctx.count('borderline samples left open', int(unsure.sum()))
    if exact:
        ctx.tag('exact ties decided')
        sg = 1 if tag == 1 else -1
        if np.any(sg * (keep - m) == ks * sd):
            ctx.tag('velocity exactly at the limit')
        if np.any(sg * np.diff(keep) * freq == kg * g):
            ctx.tag('acceleration exactly at the limit')
    if flagged.any():
        ctx.tag('some spikes')
