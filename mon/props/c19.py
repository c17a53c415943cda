"""C19 normal distribution functions."""
import math

from .common import *

FILES = ['proadv/statistics/distributions/normal.py']
CASES = {'quick': 300000, 'thorough': 3000000}
N = S + 'distributions.normal.'


def points(ctx):
    k = ctx.pick(('normal', 'uniform', 'special', 'tails', 'small', 'ints', 'dict', 'far'))
    n = gen.nasty_sizes(ctx, 1, ctx.wpick([(40, 95), (600, 5), (30000, 0.02)]))
    r = ctx.rng()
    ctx.tag('points:' + k)
    if k == 'normal':
        x = r.normal(0, 1, n)
    elif k == 'uniform':
        x = r.uniform(-6, 6, n)
    elif k == 'special':
        x = r.choice([0.0, -0.0, 1.0, -1.0, 0.5, 2.0, 3.0, math.sqrt(2), -math.sqrt(2), 1.0000001, 0.9999999, 8.0, -8.0], n)
    elif k == 'tails':
        x = r.choice([-1, 1], n) * r.uniform(4, 30, n)
    elif k == 'far':
        x = r.choice([-1, 1], n) * 10 ** r.uniform(1, 6, n)
    elif k == 'small':
        x = r.normal(0, 1e-6, n)
    elif k == 'ints':
        x = r.integers(-6, 7, n).astype(float)
    else:
        x = r.choice([-1, 1], n) * np.array([min(ctx.pick(ctx.floats or [1.0]), 30.0) for _ in range(n)]) + \
            r.choice([0, 1e-7, -1e-7], n)
    return x


def wrap(ctx, x):
    """-> (argument, shape)"""
    k = ctx.pick(('array', 'array', 'list', 'scalar', '2d', '3d', 'ints', 'ints', 'nested', 'float32'))
    if k == 'array':
        return gen.layout(ctx, x), x, x.shape
    ctx.tag('container:' + k)
    if k == 'list':
        return x.tolist(), x, x.shape
    if k == 'scalar':
        return float(x[0]), x[:1].reshape(()), ()
    if k == '2d':
        x = np.resize(x, (2, x.size))
        return x, x, x.shape
    if k == '3d':
        x = np.resize(x, (2, 2, x.size))
        return x, x, x.shape
    if k == 'nested':
        x = np.resize(x, (2, x.size))
        return x.tolist(), x, x.shape
    if k == 'float32':
        x = x.astype(np.float32)
        if ctx.chance(0.3):
            x = np.resize(x, (2, x.size))
        return x, x.astype(float), x.shape
    y = np.round(np.clip(x * ctx.pick((1, 1, 1, 3000)), -2e9, 2e9)).astype(int)
    form = ctx.pick(('1d', '2d', '3d', 'list', 'scalar', 'int32'))
    ctx.tag('integers:' + form)
    if form in ('2d', '3d'):
        y = np.resize(y, (3, y.size) if form == '2d' else (2, 1, y.size))
    if form == 'list':
        return y.tolist(), y.astype(float), y.shape
    if form == 'scalar':
        return int(y[0]), y[:1].astype(float).reshape(()), ()
    if form == 'int32':
        y = y.astype(np.int32)
    return y, y.astype(float), y.shape


def Phi(x):
    return 0.5 * math.erfc(-x / math.sqrt(2))


def log_phi(x):
    """log of the distribution function, also where the function itself underflows."""
    if x > 0:
        return math.log1p(-Phi(-x))
    if x > -30:
        return math.log(Phi(x))
    t, s = 1.0, 1.0
    for k in range(1, 9):
        t *= -(2 * k - 1) / (x * x)
        s += t
    return -0.5 * x * x - math.log(-x) - 0.5 * math.log(2 * math.pi) + math.log(s)


def case(ctx):
    f = ctx.pick(('cdf', 'pdf', 'log_pdf', 'log_cdf', 'sf', 'log_sf', 'cdf', 'pdf'))
    ctx.tag('function:' + f)
    arg, x, shape = wrap(ctx, points(ctx))
    flat = np.asarray(x, float).ravel().tolist()
    kw = {}
    args = ()
    if f in ('pdf', 'log_pdf'):
        sd, mu = 1, 0
        if ctx.chance(0.6):
            sd = ctx.pick((1, 2, 0.5, 10.0, ctx.logu(0.05, 50), ctx.logu(0.05, 50), ctx.logu(1e-10, 1e8)))
            mu = ctx.pick((0, 1, -2.5, ctx.uniform(-20, 20)))
            if ctx.chance(0.3):     # a mean near the data, however large they are
                mu = ctx.pick(flat)
                mu = int(mu) if mu == int(mu) and ctx.chance(0.5) else mu
            if ctx.chance(0.5):
                kw = {'std': sd, 'mean': mu}
            else:
                args = (sd, mu)
            ctx.tag('general normal')
    got = np.asarray(ctx.expect(ctx.call(N + f, arg, *args, **kw), f), float)
    ctx.check(got.shape == shape, lambda: f'{f}: shape {got.shape} for an argument of shape {shape}')
    g = got.ravel().tolist()
    for a, b in zip(flat, g):
        if f in ('cdf', 'sf'):
            y = a if f == 'cdf' else -a
            w = Phi(y)
            ok = abs(b - w) <= 1e-15 * (5 + 2 * y * y) * w + (4e-16 if y > -1 else 0) + 1e-320
        elif f in ('log_cdf', 'log_sf'):
            y = a if f == 'log_cdf' else -a
            w = log_phi(y)
            ok = abs(b - w) <= (1e-9 * abs(w) + 1e-320 if y > 6.5 else 2e-15 * (5 + 2 * min(y, 0) ** 2) + 1e-15 * abs(w))
        else:
            t = (a - mu) / sd
            w = -0.5 * t * t - math.log(sd) - 0.5 * math.log(2 * math.pi)
            e = 2e-14 * (1 + abs(w) + t * t) + 1e-14 * abs(t) * (abs(mu) + abs(a)) / sd
            if f == 'pdf':
                w = math.exp(w)
                ok = abs(b - w) <= w * e + 1e-320
            else:
                ok = abs(b - w) <= e
        if not ok:
            ctx.fail(f'{f}({a!r}) is {w!r}, got {b!r} {kw or args}')
        ctx.count('function values compared')
    ctx.count('oracle verdicts', len(flat))
