"""Draws a call of any public function: used by the monitors of purity (C01) and of independence from history (C02)."""
import math

from .common import *
from .c11 import three

N = S + 'distributions.normal.'
B = S + 'signal.butter.'


def _rec(ctx, lo=4, hi=120, long=True):
    if long and ctx.chance(0.04):
        hi = ctx.pick((400, 1200, 4200))
        n = gen.nasty_sizes(ctx, max(lo, 100), hi)
    else:
        n = ctx.integer(lo, hi)
    x = gen.series(ctx, n)
    if n >= 8 and ctx.chance(0.15):     # a sensor that is stuck for a while, or at the ends
        k = ctx.integer(2, max(2, n // 3))
        a = ctx.pick((0, 0, n - k, ctx.integer(0, n - k)))
        x[a:a + k] = ctx.pick((0.0, float(x[a]), float(x[a])))
        ctx.tag('data:stuck stretch')
    if np.std(x) == 0:
        x = x + np.linspace(0, 1, n)
    return x


def _roots(ctx, n):
    r = ctx.rng()
    out = []
    while len(out) + 2 <= n and r.random() < 0.6:
        z = complex(-r.uniform(0.1, 2), r.uniform(0.1, 2))
        out += [z, z.conjugate()]
    while len(out) < n:
        out.append(-r.uniform(0.1, 2))
    return np.array(out, dtype=complex) if ctx.chance(0.7) or any(isinstance(v, complex) for v in out) else np.array(out)


def replacement(ctx, k=None):
    x = _rec(ctx, 4, 160)
    n = x.size
    m, args, kw, dec = draw_method(ctx, n)
    if k is not None:
        if k == 'ssa' and not 8 <= n <= 400 or k == 'cubic_12points_polynomial' and n < 25:
            x = _rec(ctx, 40, 200, long=False)
            n = x.size
        m = k
        args, kw, dec = draw_params(ctx, m, n)
    LAST[:] = [replacement, m]
    hi = n - kw.get('period', 20) if m == 'weighted_moving_average' else None
    s = gen.spikes(ctx, n, hi=hi if hi is None or hi > 0 else 1)
    if m == 'cubic_12points_polynomial' and s.size == n:
        s = s[:-1]
    return R + m, [x, s, *[a.copy() if isinstance(a, np.ndarray) else a for a in args]], kw


def detection(ctx, k=None):
    k = k or ctx.pick(('acc', 'pst', 'deriv', 'params', 'pre', 'sph', 'kernel', 'k3', 'vc', 'vcp', 'pr', 'ab', 'rho'))
    LAST[:] = [detection, k]
    if k == 'acc':
        return D + 'acceleration.acceleration_thresholding', [_rec(ctx), ctx.pick((25, 100)), ctx.pick((1, 2))], \
            ({} if ctx.chance(0.6) else {'gravity': ctx.pick((980, 9.81)), 'k_gravity': ctx.uniform(0, 2), 'k_sigma': ctx.uniform(0, 2)})
    if k == 'pst':
        return D + 'phasespace.phasespace_thresholding', [_rec(ctx)], {}
    if k == 'deriv':
        return D + 'phasespace.calculate_derivatives', [_rec(ctx)], {}
    if k == 'params':
        x = _rec(ctx)
        return D + 'phasespace.calculate_parameters', [x, np.gradient(x), np.gradient(np.gradient(x))], {}
    if k == 'pre':
        return D + 'phasespace.phasespace_thresholding_premodification', [_rec(ctx)], \
            ({} if ctx.chance(0.6) else {'c1': ctx.uniform(0.2, 3), 'c2': ctx.uniform(0.2, 3)})
    if k == 'sph':
        x = _rec(ctx)
        return D + 'spherical.spherical_phasespace_thresholding', [x, ctx.pick((0, 1, 3)), float(np.mean(x))], {}
    if k == 'kernel':
        x = _rec(ctx, 12, 240 if ctx.chance(0.1) else 60, long=False)
        return D + 'trivariatekernel.kernel', [x, np.roll(x, 3) + gen.series(ctx, x.size), ctx.integer(6, 16)], {}
    if k == 'k3':
        return D + 'trivariatekernel.three_dimensional_kernel', [_rec(ctx, 12, 240 if ctx.chance(0.1) else 60, long=False), ctx.integer(6, 16)], {}
    if k in ('vc', 'vcp'):
        u, v, w = three(ctx, ctx.integer(5, 100))
        return D + 'correlation.' + ('velocity_correlation' if k == 'vc' else 'calculate_parameters'), [u, v, w], {}
    if k == 'pr':
        x = _rec(ctx, 8, 120)
        return D + 'pollution.pollution_rate', [x, np.convolve(x, np.ones(3) / 3, 'same'), ctx.uniform(0.5, 4)], {}
    if k == 'ab':
        return D + 'poincare.calculate_ab', [ctx.logu(0.1, 10), ctx.logu(0.1, 10), ctx.uniform(-1, 1), ctx.uniform(1, 4)], {}
    x = _rec(ctx)
    return D + 'poincare.calculate_rho', [x, x[::-1].copy(), ctx.uniform(-1, 1), ctx.logu(0.5, 5), ctx.logu(0.5, 5)], {}


def stats(ctx, k=None):
    k = k or ctx.pick(('min', 'max', 'mean', 'median', 'mode', 'variance', 'std', 'skewness', 'kurtosis', 'normal', 'normal',
                  'skewtest', 'kurtotest'))
    LAST[:] = [stats, k]
    if k in ('min', 'max', 'mean', 'mode'):
        x = _rec(ctx, 1 if k != 'mode' else 2)
        f = 'descriptive.' + k
        t = ctx.u()
        if t < 0.25:
            return S + f, [x.tolist()], {}
        if t < 0.35 and k == 'mean':
            return S + f, [[str(v) for v in x]], {}
        if t < 0.5 and k in ('min', 'max', 'mean'):
            return S + f, [np.tile(x, (2, 1))], {}
        return S + f, [x], {}
    if k == 'median':
        return S + 'descriptive.median', [_rec(ctx, 1)], {}
    if k in ('variance', 'std'):
        return S + 'spread.' + k, [_rec(ctx, 2)], {}
    if k in ('skewness', 'kurtosis'):
        x = _rec(ctx, 4)
        return S + 'moment.' + k, [np.tile(x, (2, 1)) if k == 'kurtosis' and ctx.chance(0.3) else x], {}
    if k in ('skewtest', 'kurtotest'):
        return N + k, [_rec(ctx, 10)], ({} if ctx.chance(0.5) else {'alternative': ctx.pick(('less', 'greater', 'two-sided'))})
    f = ctx.pick(('cdf', 'pdf', 'log_pdf', 'log_cdf', 'sf', 'log_sf'))
    x = _rec(ctx, 1)
    if ctx.chance(0.3):
        x = x.reshape(1, -1)
    if ctx.chance(0.15):
        return N + f, [x.ravel().tolist()], {}
    return N + f, [x], ({'std': ctx.uniform(0.5, 3), 'mean': ctx.uniform(-1, 1)} if f in ('pdf', 'log_pdf') and ctx.chance(0.5) else {})


def smoothing(ctx, k=None):
    k = k or ctx.pick(('ma', 'ema', 'wma', 'ssa', 'kalman', 'noise', 'spectrum', 'tke', 're'))
    LAST[:] = [smoothing, k]
    x = _rec(ctx, 8)
    n = x.size
    if k == 'ma':
        return S + 'series.moving_average', [x, ctx.integer(1, n)], {}
    if k == 'ema':
        return S + 'series.exponential_moving_average', [x, ctx.pick((1, 1.0, 0.2, ctx.uniform(0.01, 1), ctx.uniform(0.01, 1)))], {}
    if k == 'wma':
        return S + 'series.weighted_moving_average', [x, ctx.integer(1, n)], {}
    if k == 'ssa':
        return S + 'series.ssa', [x, ctx.pick((100, 100.0, 50)), 100 / ctx.uniform(3, min(n - 1, 20))], {}
    if k == 'kalman':
        return S + 'series.kalman_filter', [x, *[a.copy() for a in kalman_params(ctx)]], {}
    if k == 'noise':
        return S + 'signal.synthetic.synthetic_noise', [x, ctx.integer(0, 60)], {}
    if k == 'spectrum':
        x = gen.series(ctx, ctx.integer(64, 400))
        return S + 'signal.spectrum.power_spectra', [x, 100], {'block': ctx.pick((64, 64, 32, 50)), 'overlap': ctx.pick((0, 25, 50, 75)),
                                                             'onesided': ctx.chance(0.5)}
    return S + 'signal.fluid.' + ('kinetic_turbulent_energy' if k == 'tke' else 'reynolds_stresses'), list(three(ctx, n)), {}


def _freq(ctx):
    return ctx.pick((1, 1.0, 2.0)) if ctx.chance(0.2) else ctx.logu(0.1, 10)


def filters(ctx, k=None):
    k = k or ctx.pick(('butter', 'butter', 'l2l', 'l2h', 'l2b', 'l2s', 'bilinear', 'sop', 'ptf', 'buttap'))
    LAST[:] = [filters, k]
    if k == 'butter':
        bt = ctx.pick(('lp', 'hp', 'bp', 'bs'))
        a, b = sorted((ctx.uniform(0.05, 0.5), ctx.uniform(0.5, 0.95)))
        w = a if bt in ('lp', 'hp') else ctx.pick((np.array([a, b]), [a, b]))
        if ctx.chance(0.3):
            w = np.array(w) if ctx.chance(0.2) else w
            q = ctx.pick((2.0, 10, 3.5))
            w = [v * q / 2 for v in w] if isinstance(w, list) else w * (q / 2)
            return B + 'butterworth', [ctx.integer(1, 6), w, bt], {'output': ctx.pick(('nd', 'zps', 'sop')), 'sr': q}
        return B + 'butterworth', [ctx.integer(1, 6), w, bt], {'output': ctx.pick(('nd', 'zps', 'sop')), 'ag': ctx.chance(0.4)}
    if k == 'buttap':
        return B + 'buttap', [ctx.integer(1, 9)], {}
    p = _roots(ctx, ctx.integer(1, 6))
    z = _roots(ctx, ctx.integer(0, p.size))
    g = ctx.uniform(0.1, 3)
    if k == 'l2l':
        return B + 'low_to_low', [z, p, g, _freq(ctx)], {}
    if k == 'l2h':
        return B + 'low_to_high', [z, p, g, _freq(ctx)], {}
    if k in ('l2b', 'l2s'):
        return B + ('low_to_band' if k == 'l2b' else 'low_to_stop'), [z, p, g, _freq(ctx), _freq(ctx)], {}
    if k == 'bilinear':
        return B + 'bilinear', [z, p, g, ctx.logu(0.5, 10)], {}
    if k == 'sop':
        return B + 'xyz_to_sop', [z * 0.5, p * 0.5, g], ({'pg': ctx.pick(('nr', 'kd', 'ml'))} if ctx.chance(0.5) else {'ag': ctx.chance(0.5)})
    return B + 'xyz_to_ptf', [z, p, g], {}


def misc(ctx, k=None):
    k = k or ctx.wpick([('brentq', 3), ('fmin', 3), ('root', 2), ('bivar', 1)])
    LAST[:] = [misc, k]
    r = ctx.uniform(-3, 3)
    if k == 'brentq':
        return S + 'optimize.optimize.brentq', [lambda t: math.tanh(t - r), r - ctx.logu(0.1, 5), r + ctx.logu(0.1, 5)], \
            {'full_output': ctx.chance(0.5), **({} if ctx.chance(0.6) else {'xtol': ctx.logu(1e-12, 1e-3), 'maxiter': ctx.pick((500, 4, 50))})}
    if k == 'fmin':
        return S + 'optimize.optimize.fminbound', [lambda t, *p: abs(t - r - 0.01 * sum(p)), r - 2, r + 3], {**({'parameters': [float(v) for v in range(ctx.integer(1, 6))]} if ctx.chance(0.2) else {}), 'detailed_output': ctx.chance(0.5), **({} if ctx.chance(0.6) else {'tolerance': ctx.logu(1e-8, 1e-2),
                                                                           'max_evaluations': ctx.pick((500, 6, 20))})}
    if k == 'root':
        c = ctx.uniform(0.001, 0.05)
        return 'kernel.bivariate.root', [lambda t: t - c, ctx.pick((10, 200, 2000))], {}
    x = _rec(ctx, 10, 80)
    d = np.vstack([x, gen.series(ctx, x.size) + np.linspace(0, 1, x.size)])
    return 'kernel.bivariate.bivariate_kernel', [d, ctx.uniform(0.02, 0.3), ctx.uniform(0.02, 0.3), ctx.integer(4, 24)], {}


LAST = []
GROUPS = [(replacement, 5), (detection, 6), (stats, 4), (smoothing, 4), (filters, 2), (misc, 1.5)]


def draw(ctx, like=None):
    """-> (path, args, kwargs): a call that returns on valid data; like = (group, kind) of an earlier draw for the same kind."""
    if like is not None:
        return like[0](ctx, like[1])
    g = ctx.wpick(GROUPS)
    return g(ctx)


def spoil(ctx, path, args, kw):
    """Make the arguments such that the call is likely to raise part-way."""
    k = ctx.pick(('nan', 'badindex', 'param', 'short', 'tag'))
    arr = [i for i, a in enumerate(args) if isinstance(a, np.ndarray) and a.dtype == float and a.size > 1]
    if k == 'nan' and arr:
        a = args[ctx.pick(arr)]
        a.ravel()[int(ctx.u() * a.size)] = np.nan
    elif k == 'badindex' and path.startswith(R):
        s = args[1]
        args[1] = np.sort(np.append(s, args[0].size + 3))
    elif k == 'short' and arr:
        i = arr[-1]
        args[i] = args[i][:-1].copy()
    elif k == 'param':
        for i in range(len(args) - 1, 0, -1):
            if isinstance(args[i], (int, float)) and not isinstance(args[i], bool):
                if 'noise' in path or 'kernel' in path or 'bilinear' in path:
                    break
                args[i] = -abs(args[i]) - 1
                break
    elif k == 'tag' and 'acceleration' in path:
        args[2] = 7
    return args, kw
