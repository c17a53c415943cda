"""C18 moments and normality tests."""
from scipy import stats as sps

from .common import *

FILES = ['proadv/statistics/moment.py', 'proadv/statistics/distributions/normal.py']
CASES = {'quick': 38100, 'thorough': 1068000}
N = S + 'distributions.normal.'


def moments(x):
    ld = np.asarray(x, dtype=np.longdouble)
    d = ld - ld.mean()
    v = np.mean(d ** 2)
    return float(np.mean(d ** 3) / v ** 1.5), float(np.mean(d ** 4) / v ** 2), float(np.sqrt(v))


def case(ctx):
    f = ctx.pick(('skewness', 'kurtosis', 'skewtest', 'kurtotest', 'skewtest', 'kurtotest'))
    lo = {'skewness': 2, 'kurtosis': 2, 'skewtest': 8, 'kurtotest': 5}[f]
    n = gen.sizes(ctx, lo, 250, big(ctx, 8000, 20000), 0.1, 70000)
    x = gen.series(ctx, n)
    if ctx.chance(0.1):
        x = np.round(x)
        ctx.tag('integral')
    if not np.std(x) > 1e-6 * scale_of(x):
        raise Skip()
    sk, ku, sd = moments(x)
    amp = 1e-12 * (10 + scale_of(x) / sd) * 10
    ctx.tag('function:' + f)
    if f == 'skewness':
        xin = gen.layout(ctx, x)
        if ctx.chance(0.1):
            xin = np.round(np.clip(x, -1e5, 1e5)).astype(int)
            if np.std(xin) == 0:
                raise Skip()
            sk = moments(xin)[0]
        got = float(ctx.expect(ctx.call(S + 'moment.skewness', xin), f))
        ctx.check(abs(got - sk) <= amp * (1 + abs(sk)) * np.sqrt(n), lambda: f'skewness is {sk!r}, got {got!r} (n={n})')
    elif f == 'kurtosis':
        xin = gen.layout(ctx, x)
        if ctx.chance(0.2):
            xin = x.tolist()
        elif n % 2 == 0 and ctx.chance(0.3):
            xin = x.reshape(2, -1)
            ctx.tag('2-D')
        got = float(ctx.expect(ctx.call(S + 'moment.kurtosis', xin), f))
        ctx.check(abs(got - ku) <= amp * (1 + ku), lambda: f'kurtosis is {ku!r}, got {got!r} (n={n})')
    else:
        alt = ctx.pick(('two-sided', 'less', 'greater'))
        ctx.tag('alternative:' + alt)
        if f == 'skewtest':
            if ctx.chance(0.12):        # samples without any skewness: the statistic is zero
                h = x[:max(n // 2, 4)]
                m = ctx.pick((0.0, 0.0, 0.0, float(np.round(np.mean(h)))))
                h = np.round(h * 64) / 64 if scale_of(h) < 1e6 else np.round(h)
                x = np.concatenate([m + h, m - h, [m] * ctx.integer(0, 2)])
                x = x[ctx.rng().permutation(x.size)]
                n = x.size
                if not np.std(x) > 1e-6 * scale_of(x):
                    raise Skip()
                sk = moments(x)[0]
                ctx.tag('symmetric sample')
            if abs(sk) < 1e-9:
                z, p = 0.0, 1.0 if alt == 'two-sided' else 0.5
            else:
                z, p = sps.skewtest(x, alternative=alt)
        else:
            z, p = sps.kurtosistest(x, alternative=alt)
        if not (np.isfinite(z) and np.isfinite(p)):
            raise Skip()
        xin = gen.layout(ctx, x) if ctx.chance(0.85) else x.tolist()
        if alt == 'two-sided' and ctx.chance(0.5):
            o = ctx.call(N + f, xin)
        elif ctx.chance(0.5):
            o = ctx.call(N + f, xin, alt)
        else:
            o = ctx.call(N + f, xin, alternative=alt)
        gz, gp = ctx.expect(o, f)
        gz, gp = float(gz), float(gp)
        # the transformed statistic can be steep: ask how much an error of the moment moves it
        t = 1e-7 * (1 + abs(z))
        ctx.check(abs(gz - z) <= t, lambda: f'{f}: statistic {gz!r}, expected {z!r} (n={n})')
        z0 = max(abs(z) - t, 0.0)
        tp = 2 * t * np.exp(-z0 * z0 / 2) + 1e-14
        ctx.check(abs(gp - p) <= tp, lambda: f'{f} ({alt}): p-value {gp!r}, expected {p!r} (n={n}, z={z!r})')
        ctx.check(-1e-12 <= gp <= 1 + 1e-12, f'{f}: p-value {gp!r} outside [0, 1]')
    ctx.count('values compared')
