"""C17 documented rejections: each documented kind of invalid argument raises the documented error; valid ones do not."""
from .common import *

FILES = ['proadv/statistics/descriptive.py', 'proadv/statistics/spread.py', 'proadv/statistics/series.py',
         'proadv/statistics/distributions/normal.py', 'proadv/statistics/optimize/optimize.py',
         'proadv/statistics/signal/butter.py', 'proadv/filtration/detection/acceleration.py',
         'proadv/filtration/replacement/replacements.py']
CASES = {'quick': 241200, 'thorough': 4116000}
N = S + 'distributions.normal.'
B = S + 'signal.butter.'


def rejects(ctx, err, path, *a, **k):
    o = ctx.call(path, *a, decoy=False, **k)
    ctx.check(not o.ok and isinstance(o.exc, err), lambda: f'{path.rsplit(".", 1)[1]} must raise '
              f'{err.__name__ if isinstance(err, type) else err} for this argument, but it {o!r}')
    ctx.count('rejections observed')


def accepts(ctx, path, *a, **k):
    o = ctx.call(path, *a, decoy=False, **k)
    ctx.check(o.ok, lambda: f'{path.rsplit(".", 1)[1]} rejects a valid argument: {o!r}')
    ctx.count('acceptances observed')
    return o.value


def put(ctx, x, v):
    """v at the start, the end or anywhere."""
    x = list(x)
    x[ctx.pick((0, len(x) - 1, int(ctx.u() * len(x))))] = v
    return x


def case(ctx):
    n = gen.nasty_sizes(ctx, 2, 3000 if ctx.chance(0.05) else 60)
    x = gen.series(ctx, n)
    k = ctx.pick(('minmax', 'median', 'spread', 'mean', 'ma', 'ema', 'wma', 'cubic', 'accel', 'normal', 'tests',
                  'butter', 'brentq', 'fmin', 'filters', 'replacement'))
    ctx.tag('group:' + k)
    if k == 'minmax':
        f = S + 'descriptive.' + ctx.pick(('min', 'max'))
        t = ctx.pick(('string', 'nan', 'empty', 'infinite'))
        if t == 'string':
            rejects(ctx, TypeError, f, put(ctx, x.tolist(), ctx.pick(('a', '1', '', 'nan'))))
        elif t == 'infinite':
            v = put(ctx, put(ctx, x.tolist(), float('inf')), float('-inf'))
            accepts(ctx, f, np.array(v) if ctx.chance(0.6) else v)
        elif t == 'nan':
            v = put(ctx, x.tolist(), float('nan'))
            if ctx.chance(0.2):
                v = put(ctx, v, float('inf'))
                v[int(ctx.u() * len(v))] = float('nan')
            rejects(ctx, ValueError, f, np.array(v) if ctx.chance(0.6) else v)
        else:
            rejects(ctx, ValueError, f, ctx.pick((np.array([]), [], ())))
    elif k in ('median', 'spread'):
        f = S + ('descriptive.median' if k == 'median' else ctx.pick(('spread.variance', 'spread.std')))
        t = ctx.pick(('2d', 'string', 'empty', '0d'))
        if t == '2d':
            m = ctx.pick((np.tile(x, (2, 1)), x.reshape(-1, 1), x.reshape(1, -1), np.tile(x, (2, 2, 1))))
            rejects(ctx, ValueError, f, m)
        elif t == 'string':
            rejects(ctx, TypeError, f, np.array(put(ctx, [str(a) for a in x], ctx.pick(('a', 'zz')))) if ctx.chance(0.5)
                    else np.array(put(ctx, x.tolist(), 'a'), dtype=object))
        elif t == '0d':
            rejects(ctx, ValueError, f, np.array(3.5))
        else:
            rejects(ctx, ValueError, f, np.array([]))
    elif k == 'mean':
        v = ctx.pick(([], (), np.array([]), 'abc', '', ['a'], ['a', 'b', 'x'], np.array(['q', 'zz'])))
        o = ctx.call(S + 'descriptive.mean', v, decoy=False)
        ctx.check(o.ok and isinstance(o.value, str) and o.value == 'Invalid input.', lambda: f'mean of {v!r}: {o!r}')
        ctx.count('rejections observed')
    elif k == 'ma':
        f = S + 'series.moving_average'
        t = ctx.pick(('nonpositive', 'toolarge', '2d', 'full', 'empty'))
        if t == 'nonpositive':
            rejects(ctx, ValueError, f, x, ctx.pick((0, -1, -5, -n)))
        elif t == 'toolarge':
            rejects(ctx, ValueError, f, x, n + ctx.pick((1, 2, 50, n)))
        elif t == '2d':
            rejects(ctx, ValueError, f, np.tile(x, (2, 1)), 2)
        elif t == 'full':
            accepts(ctx, f, x, n)
        else:
            v = accepts(ctx, f, np.array([]), 3)
            ctx.check(np.size(v) == 0, 'moving average of an empty record')
    elif k == 'ema':
        f = S + 'series.exponential_moving_average'
        if ctx.chance(0.7):
            rejects(ctx, ValueError, f, x, ctx.pick((0, 0.0, -1e-9, -0.5, -3, 1.0000001, 1.5, 2, 20)))
        else:
            accepts(ctx, f, x, ctx.pick((1, 1.0, 1e-9, 0.999)))
    elif k == 'wma':
        f = S + 'series.weighted_moving_average'
        t = ctx.pick(('nonpositive', 'toolarge', 'ok'))
        if t == 'nonpositive':
            rejects(ctx, ValueError, f, x, ctx.pick((0, -1, -7, -n)))
        elif t == 'toolarge':
            rejects(ctx, ValueError, f, x, n + ctx.pick((1, 2, n)))
        else:
            accepts(ctx, f, x, ctx.pick((n, n - 1, 1)))
    elif k == 'cubic':
        f = R + 'cubic_12points_polynomial'
        y = gen.series(ctx, max(n, 25))
        m = y.size
        t = ctx.pick(('negative', 'beyond', '2d', 'ok'))
        good = np.unique(ctx.rng().integers(0, m, 5))
        if t == 'negative':
            s = np.sort(np.append(good, -ctx.pick((1, 2, 5, m, m + 3))))
            rejects(ctx, ValueError, f, y, s)
        elif t == 'beyond':
            s = np.sort(np.append(good, m + ctx.pick((0, 1, 10, m))))
            rejects(ctx, ValueError, f, y, s)
        elif t == '2d':
            rejects(ctx, ValueError, f, np.tile(y, (2, 1)), good[:1] * 0)
        else:
            accepts(ctx, f, y, np.unique(np.append(good, ctx.pick((0, m - 1)))))
    elif k == 'replacement':
        f = ctx.pick(('simple_moving_average', 'weighted_moving_average', 'exponential_moving_average'))
        s = np.array([int(ctx.u() * n)])
        if f == 'exponential_moving_average':
            rejects(ctx, ValueError, R + f, x, s, ctx.pick((0, -0.2, 1.01, 5)))
        else:
            rejects(ctx, ValueError, R + f, x, s, ctx.pick((0, -1, n + 1, 2 * n)))
    elif k == 'accel':
        f = D + 'acceleration.acceleration_thresholding'
        if ctx.chance(0.7):
            rejects(ctx, ValueError, f, x, ctx.pick((100, 25.0, 1)), ctx.pick((0, 3, -1, -2, 4, 12, None, '1', 1.5)), **ctx.pick(({}, {'gravity': 1.0}, {'k_gravity': 0.1, 'k_sigma': 0.5})))
        else:
            accepts(ctx, f, x, 100, ctx.pick((1, 2)))
    elif k == 'normal':
        f = N + ctx.pick(('cdf', 'pdf', 'log_pdf', 'log_cdf', 'sf', 'log_sf'))
        if ctx.chance(0.35):
            rejects(ctx, ValueError, f, ctx.pick((np.array([]), [], np.zeros((0, 3)))))
        elif ctx.chance(0.7):
            v = put(ctx, x.tolist(), float('nan'))
            v = ctx.pick((v, np.array(v), np.array(v + v).reshape(2, -1)))
            rejects(ctx, TypeError, f, v)
        else:
            accepts(ctx, f, x)
    elif k == 'tests':
        f, lo = ctx.pick((('skewtest', 8), ('kurtotest', 5)))
        t = ctx.pick(('short', 'alternative', 'ok'))
        r = ctx.rng()
        if t == 'short':
            rejects(ctx, ValueError, N + f, r.normal(0, 1, int(r.integers(2, lo))))
        elif t == 'alternative':
            rejects(ctx, ValueError, N + f, r.normal(0, 1, lo + int(r.integers(0, 40))), ctx.pick(('both', '', 'two_sided', 'LESS', 'equal')))
        else:
            accepts(ctx, N + f, r.normal(0, 1, lo + ctx.pick((0, 1, 7, 50))), ctx.pick(('two-sided', 'less', 'greater')))
    elif k == 'butter':
        f = B + 'butterworth'
        q = ctx.integer(1, 8)
        t = ctx.pick(('order', 'type', 'output', 'zero', 'nyquist', 'sr', 'analog-sr', 'pair', 'single', 'reversed', 'ok', 'vec-sr'))
        lp = ctx.pick(('lp', 'hp'))
        bp = ctx.pick(('bp', 'bs'))
        # one argument is wrong; everything else is drawn from what is valid
        lo = ctx.uniform(0.01, 0.5)
        band = sorted((lo, ctx.uniform(0.5, 0.99)))
        kw = {} if ctx.chance(0.4) else {'output': ctx.pick(('nd', 'zps', 'sop', 'ND', 'Sop'))}
        an = ctx.chance(0.4)
        ka = dict(kw, ag=True) if an else kw
        vec = ctx.pick((np.array, list, tuple))
        one = (ctx.pick((lo, np.float64(lo), [lo])), lp)
        two = (vec(band), bp)
        if t == 'order':
            w, bt = ctx.pick((one, two))
            rejects(ctx, ValueError, f, ctx.pick((-1, -4, 1.5, 2.5, -0.5, 3.0000001)), w, bt, **ka)
        elif t == 'type':
            rejects(ctx, NotImplementedError, f, q, ctx.pick((lo, vec(band))), ctx.pick(('xx', 'low', 'b', '', 'bandpass', 'lpp')), **ka)
        elif t == 'output':
            w, bt = ctx.pick((one, two))
            rejects(ctx, ValueError, f, q, w, bt, ag=an, output=ctx.pick(('ba', 'zpk', 'x', '', 'sos', 'nds')))
        elif t == 'zero':
            if ctx.chance(0.5):
                rejects(ctx, ValueError, f, q, ctx.pick((0, -0.1, 0.0, -lo, [0.0])), lp, **ka)
            else:
                rejects(ctx, ValueError, f, q, vec((ctx.pick((0, 0.0, -0.1, -2)), band[1])), bp, **ka)
        elif t == 'nyquist':
            if ctx.chance(0.5):
                rejects(ctx, ValueError, f, q, ctx.pick((1, 1.0, 1.2, 7, 1 + 1e-12)), lp, **kw)
            else:
                rejects(ctx, ValueError, f, q, ctx.pick((vec((lo, 1.0)), vec((lo, 1.5)), vec((1.0, 1.5)), vec((1.2, 3)))), bp, **kw)
        elif t == 'sr':
            sr = ctx.pick((100.0, 25, 1, 2, 0.5))
            if ctx.chance(0.6):
                rejects(ctx, ValueError, f, q, sr / 2 * ctx.pick((1.0, 1.1, 3, 0, -0.5)), lp, sr=sr, **kw)
            else:
                rejects(ctx, ValueError, f, q, vec((lo * sr / 2, sr / 2 * ctx.pick((1.0, 1.1)))), bp, sr=sr, **kw)
        elif t == 'vec-sr':
            rejects(ctx, ValueError, f, q, lo, lp, sr=ctx.pick((np.array([100.0, 50.0]), np.array([100.0]), [100.0], (100, 50))), **kw)
        elif t == 'analog-sr':
            w, bt = ctx.pick((one, two))
            rejects(ctx, ValueError, f, q, w, bt, **dict(kw, ag=True, sr=ctx.pick((100, 2, 0.5, 2.0))))
        elif t == 'pair':
            rejects(ctx, ValueError, f, q, vec(band), lp, **ka)
        elif t == 'single':
            rejects(ctx, ValueError, f, q, ctx.pick((lo, [lo], np.array(lo), np.array([lo]))), bp, **ka)
        elif t == 'reversed':
            rejects(ctx, ValueError, f, q, ctx.pick((vec(band[::-1]), vec((lo, lo)))), bp, **ka)
        else:
            m = ctx.integer(1, 4)
            w = ctx.pick((0.999, 1e-3, 0.5, 1 - 1e-9 if q < 3 else 0.9))
            if ctx.chance(0.3):
                accepts(ctx, f, m, 5.0 * w, lp, **dict(kw, ag=True))
            elif ctx.chance(0.5):
                accepts(ctx, f, float(m) if ctx.chance(0.5) else m, w, lp, **kw)
            else:
                accepts(ctx, f, m, vec((0.4 * lo, 0.5)), bp, sr=ctx.pick((2, 3.0)), **kw)
    elif k == 'brentq':
        f = S + 'optimize.optimize.brentq'
        a = ctx.uniform(-5, 5)
        t = ctx.pick(('order', 'signs', 'maxiter'))
        if t == 'order':
            c = ctx.pick((0.0, a))      # also where the function vanishes at the bracket
            rejects(ctx, ValueError, f, lambda z: z - c, a, a - ctx.pick((0, 1, 0.1)), **ctx.pick(({}, {'full_output': True})))
        elif t == 'signs':
            c = ctx.pick((-1, 1)) * ctx.uniform(0.1, 5)
            e = ctx.pick((1.0, 1.0, 1e-170, 1e-250, 1e200))
            rejects(ctx, ValueError, f, lambda z: e * c * (1 + z * z), a, a + ctx.pick((1, 1e-6, 50)), **ctx.pick(({}, {'full_output': True}, {'maxiter': 3})))
        else:
            rejects(ctx, ValueError, f, lambda z: (z - 0.123) ** 3, -1, 2, maxiter=ctx.pick((1, 2, 3)))
    elif k == 'fmin':
        f = S + 'optimize.optimize.fminbound'
        t = ctx.pick(('inf', 'nan', 'order'))
        more = ctx.pick(({}, {'detailed_output': True}, {'max_evaluations': 5}, {'tolerance': 0.5}))
        if t == 'inf':
            rejects(ctx, ValueError, f, lambda z: z * z, *ctx.pick(((-np.inf, 1), (0, np.inf), (-np.inf, np.inf), (np.inf, np.inf))), **more)
        elif t == 'nan':
            rejects(ctx, ValueError, f, lambda z: z * z, *ctx.pick(((np.nan, 1), (0, np.nan), (np.nan, np.nan))), **more)
        else:
            rejects(ctx, ValueError, f, lambda z: z * z, 1.0, 1.0 - ctx.pick((0.1, 1, 5, 1e-9)), **more)
    else:
        f = ctx.pick(('low_to_low', 'low_to_high', 'low_to_band', 'low_to_stop', 'bilinear'))
        z = np.array([-1.0, -2.0, -3.0][:ctx.pick((2, 3))])
        t = ctx.pick(('improper', 'improper', 'pairing', 'srnone', 'analog-pairing', 'conj', 'complex-gain'))
        if t == 'improper':
            a = (z, np.array([-1.5]), 1.0) + ((2.0,) if f == 'bilinear' else ())
            rejects(ctx, ValueError, B + f, *a)
        elif t == 'srnone':
            rejects(ctx, ValueError, B + 'bilinear', np.array([]), np.array([-1.0]), 1.0, ctx.pick((None, np.array([1.0, 2.0]), np.array([2.0]), [2.0])))
        elif t == 'pairing':
            rejects(ctx, ValueError, B + 'xyz_to_sop', [0.1], [0.2], 1.0, ctx.pick(('nearest', 'x', '')))
        elif t == 'analog-pairing':
            rejects(ctx, ValueError, B + 'xyz_to_sop', [0.1], [0.2], 1.0, ctx.pick(('nr', 'kd')), ag=True)
        elif t == 'conj':
            rejects(ctx, ValueError, B + 'xyz_to_sop', np.array([]), np.array([0.1 + 0.3j, 0.2]), 1.0)
        else:
            rejects(ctx, ValueError, B + 'xyz_to_sop', np.array([0.1]), np.array([0.2]), 1.0 + 2.0j)
