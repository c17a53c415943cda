import numpy as np

from .. import gen, ref
from ..core import Skip, close

R = 'filtration.replacement.replacements.'
D = 'filtration.detection.'
S = 'statistics.'


def big(ctx, q, t):
    return t if ctx.tier == 'thorough' else q


def rounded_ok(out, refv, d, tol):
    """out is refv rounded to d decimals (ties and rounding of the true value within tol may go either way)."""
    h = 10.0 ** (-d)
    out = np.asarray(out, float)
    near = np.abs(out - refv) <= 0.5 * h * (1 + 1e-6) + tol
    k = out / h
    grid = np.abs(k - np.round(k)) <= 1e-6 * np.maximum(1.0, np.abs(k) * 1e-6)
    return near & grid


def pick_decimals(ctx):
    """-> (kwargs, decimals)"""
    k = ctx.u()
    if k < 0.35:
        return {}, 4
    d = ctx.pick((0, 1, 2, 3, 4, 5, 6, 8, 10, 12))
    if ctx.chance(0.04):        # whole tens and hundreds
        d = ctx.pick((-1, -2))
    return {'decimals': d}, d


def scale_of(x):
    return float(np.max(np.abs(x))) if len(x) else 0.0


def index_array(ctx, s):
    k = ctx.u()
    if k < 0.1:
        return s.astype(np.int32)
    if k < 0.2:
        b = np.empty(2 * s.size, dtype=np.int64)
        b[::2] = s
        return b[::2]
    if k < 0.25 and (s.size == 0 or s.max() < 30000):
        return s.astype(np.int16)
    if k < 0.32:
        ctx.tag('indices as a list')
        return s.tolist()
    return s


# the replacement methods: name -> (args drawn, decimals or None)
def draw_method(ctx, n):
    """-> (path, extra args, kwargs, decimals or None, min index bound fn) valid for a record of n samples"""
    opts = ['last_valid_data', 'mean_value', 'median_value', 'linear_interpolation', 'exponential_moving_average',
            'kalman_filter', 'polynomial_replacement', 'simple_moving_average']
    if n >= 25:
        opts.append('cubic_12points_polynomial')
    if n >= 3:
        opts += ['weighted_moving_average']
    if 8 <= n <= 400:
        opts.append('ssa')
    m = ctx.pick(opts)
    return (m,) + draw_params(ctx, m, n)


def draw_params(ctx, m, n):
    dec = None
    args, kw = (), {}
    if m in ('linear_interpolation', 'cubic_12points_polynomial'):
        kw, dec = pick_decimals(ctx)
    elif m == 'polynomial_replacement':
        kw, dec = pick_decimals(ctx)
        if ctx.chance(0.5):
            deg = ctx.pick((1, 2, 2, 3))
            kw['degree'] = deg
            kw['window'] = ctx.integer(deg + 2, max(deg + 2, min(n, 150)))
    elif m == 'simple_moving_average':
        if n < 20 or ctx.chance(0.6):
            kw['window_size'] = ctx.integer(1, min(n, 2500))
    elif m == 'exponential_moving_average':
        if ctx.chance(0.6):
            kw['alpha'] = ctx.pick((1.0, 0.5, 0.01, 0.2, ctx.uniform(0.001, 1)))
    elif m == 'weighted_moving_average':
        if n <= 20 or ctx.chance(0.6):
            kw['period'] = ctx.integer(1, min(n - 1, 2500))
    elif m == 'ssa':
        L = ctx.integer(3, min(n - 1, 40))
        fs = ctx.pick((100.0, 50.0, 25.0))
        args = (fs, fs / (L - ctx.pick((0.0, 0.5, 0.25))))
    elif m == 'kalman_filter':
        args = kalman_params(ctx)
    return args, kw, dec


def kalman_params(ctx):
    q = ctx.pick((0.0, 0.01, 1.0, 1e-5, ctx.logu(1e-4, 10)))
    r = ctx.pick((1.0, 15.0, 0.1, ctx.logu(1e-2, 100)))
    p0 = ctx.pick((1.0, 0.0, 10.0, ctx.logu(1e-2, 100)))
    x0 = ctx.pick((0.0, 1.0, -5.0, ctx.uniform(-50, 50)))
    return tuple(np.array([[v]]) for v in (x0, p0, q, r))


def contract(ctx, out, n, what):
    """Detector output contract: 1-D sorted distinct integer indices in range; returns the flag mask."""
    ctx.check(out.ndim == 1, lambda: f'{what}: the index array has shape {out.shape}')
    ctx.check(out.dtype.kind in 'iu' or out.size == 0, lambda: f'{what}: the index array has dtype {out.dtype}')
    m = np.zeros(n, bool)
    if out.size:
        ctx.check(out.min() >= 0 and out.max() < n, lambda: f'{what}: index out of range in {out[:10]} (n={n})')
        ctx.check(bool(np.all(np.diff(out) > 0)), lambda: f'{what}: indices are not strictly increasing: {out[:10]}')
        m[out] = True
    return m


def compare_flags(ctx, flagged, rhos, what, band=1e-8, extra=None):
    """flagged must be the union of rho > 1 over the criteria (each an array or None = flags nothing)."""
    n = flagged.size
    yes = np.zeros(n, bool)
    maybe = np.zeros(n, bool)
    for r in rhos:
        if r is None:
            continue
        with np.errstate(invalid='ignore'):
            yes |= r > 1 + band
            maybe |= np.abs(r - 1) <= band
    maybe &= ~yes
    if extra is not None:
        maybe |= extra
    wrong = np.nonzero((flagged != yes) & ~maybe)[0]
    ctx.check(wrong.size == 0, lambda: f'{what}: sample {wrong[0]} is {"" if flagged[wrong[0]] else "not "}flagged, '
              f'its distances are {[float(r[wrong[0]]) for r in rhos if r is not None]} (n={n}, {wrong.size} wrong)')
    ctx.count('samples classified', n)
    ctx.count('spikes flagged', int(flagged.sum()))
    ctx.count('borderline samples left open', int(maybe.sum()))
    for j, r in enumerate(rhos):
        if r is not None:
            only = (r > 1 + band)
            for k, q in enumerate(rhos):
                if k != j and q is not None:
                    only &= ~(q > 1)
            if only.any():
                ctx.tag(f'spikes only criterion {j + 1} sees')
    if flagged.any():
        ctx.tag('some spikes')
