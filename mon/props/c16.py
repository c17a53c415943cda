"""C16 descriptive statistics."""
from collections import Counter
from fractions import Fraction

from .common import *

FILES = ['proadv/statistics/descriptive.py', 'proadv/statistics/spread.py']
CASES = {'quick': 55100, 'thorough': 2056000}


def container(ctx, x, kinds=('array', 'list', 'tuple', 'int array')):
    k = ctx.pick(kinds)
    ctx.tag('container:' + k)
    if k == 'array':
        return gen.layout(ctx, x, narrow=True), x
    if k == 'list':
        v = x.tolist()
        if ctx.chance(0.3):
            v = [int(a) if a == int(a) else a for a in v]
        return v, x
    if k == 'tuple':
        return tuple(x.tolist()), x
    y = np.round(np.clip(x, -1e6, 1e6)).astype(np.int64)
    if ctx.chance(0.2):
        y = y.astype(np.int32)
    return y, y.astype(float)


def infinite(ctx, f, x):
    """Records with some infinite samples (an overflowed sensor); a mean or middle of opposite infinities is undefined."""
    r = ctx.rng()
    n = x.size
    x = x.copy()
    kinds = ctx.pick(([np.inf], [-np.inf], [np.inf, -np.inf]))
    if f == 'mean' and len(kinds) == 2:
        kinds = kinds[:1]
    x[r.integers(0, n, ctx.pick((1, 1, 2, 5, n)))] = kinds[0]
    if len(kinds) == 2:
        x[r.integers(0, n, ctx.pick((1, 1, 2, 5)))] = kinds[1]
    ctx.tag('infinite values')
    keep = x.copy()
    v = gen.layout(ctx, x, ints=False) if f == 'median' or ctx.chance(0.6) else x.tolist()
    o = sorted(keep.tolist())
    got = ctx.expect(ctx.call(S + 'descriptive.' + f, v), f)
    if f == 'mode':
        cnt = Counter(keep.tolist())
        top = max(cnt.values())
        want = min(a for a, k in cnt.items() if k == top)
        ctx.check(float(got[0]) == want and int(got[1]) == top, lambda: f'mode is ({want!r}, {top}), got {got!r}')
    else:
        if f == 'median':
            a, b = o[(n - 1) // 2], o[n // 2]
            if np.isinf(a) and np.isinf(b) and a != b:
                raise Skip()
            want = (a + b) / 2
        else:
            want = {'min': o[0], 'max': o[-1], 'mean': kinds[0]}[f]
        got = float(got)
        ctx.check(got == want or np.isfinite(want) and abs(got - want) <= 1e-15 * abs(want),
                  lambda: f'{f} of {n} values with infinite ones among them is {want!r}, got {got!r}')
    ctx.count('statistics compared')


def case(ctx):
    n = gen.sizes(ctx, 1, 200, big(ctx, 20000, 60000), 0.05, 200000)
    x = gen.series(ctx, n)
    if ctx.chance(0.05):
        x = np.full(n, x[0])
        ctx.tag('constant')
    f = ctx.pick(('min', 'max', 'mean', 'median', 'mode', 'variance', 'std'))
    ctx.tag('statistic:' + f)
    if f in ('min', 'max', 'mean', 'median', 'mode') and ctx.chance(0.06):
        infinite(ctx, f, x)
        return
    if f in ('min', 'max'):
        v, x = container(ctx, x)
        if n % 2 == 0 and ctx.chance(0.1):
            v = np.reshape(v, (2, -1))
            ctx.tag('2-D')
        got = ctx.expect(ctx.call(S + 'descriptive.' + f, v), f)
        want = sorted(x.tolist())[0 if f == 'min' else -1]
        ctx.check(float(got) == want, lambda: f'{f} of {n} values is {want!r}, got {got!r}')
    elif f == 'mean':
        k = ctx.u()
        if k < 0.08:
            v = ctx.pick((int(x[0]), float(x[0]), 0, -3))
            got = ctx.expect(ctx.call(S + 'descriptive.mean', v), f)
            ctx.check(got == v, lambda: f'mean of the number {v!r} is {got!r}')
            return
        if k < 0.25:        # numbers mixed with numeric and other strings
            vals, mixed = [], []
            r = ctx.rng()
            for a in x[:60].tolist():
                t = r.integers(6)
                if t == 0:
                    mixed.append(repr(a))
                    vals.append(a)
                elif t == 5:
                    i = int(r.integers(-300, 301)) * 10 ** int(r.integers(0, 3))
                    mixed.append((str(i), f'{i:+d}', f' {i} ', f'{i}e1', f'{i}.50')[int(r.integers(5))])
                    vals.append(float(mixed[-1]))
                elif t == 1:
                    mixed.append(('abc', 'not a number', '--', 'x1')[int(r.integers(4))])
                elif t == 2:
                    mixed.append(int(a))
                    vals.append(int(a))
                else:
                    mixed.append(a)
                    vals.append(a)
            if not vals or not any(isinstance(a, str) for a in mixed):
                raise Skip()
            ctx.tag('numbers and strings')
            got = ctx.expect(ctx.call(S + 'descriptive.mean', mixed), f)
            want = float(sum(Fraction(a) for a in vals) / len(vals))
            t = 1e-12 * max(abs(a) for a in vals) * len(vals) + 1e-300
            ctx.check(not isinstance(got, str) and abs(float(got) - want) <= t, lambda: f'mean of {mixed[:6]}... is {want!r}, got {got!r}')
            return
        v, x = container(ctx, x)
        if n % 2 == 0 and ctx.chance(0.25):
            v = np.reshape(v, (2, -1) if ctx.chance(0.7) else (-1, 2))
            ctx.tag('2-D')
        got = ctx.expect(ctx.call(S + 'descriptive.mean', v), f)
        want = float(np.mean(x.astype(np.longdouble)))
        ctx.check(not isinstance(got, str) and abs(float(got) - want) <= 1e-13 * scale_of(x) * (10 + n ** .5),
                  lambda: f'mean of {n} values is {want!r}, got {got!r}')
    elif f == 'median':
        v, x = container(ctx, x, ('array', 'array', 'int array'))
        got = ctx.expect(ctx.call(S + 'descriptive.median', v), f)
        o = sorted(x.tolist())
        want = o[n // 2] if n % 2 else (o[n // 2 - 1] + o[n // 2]) / 2
        ctx.check(abs(float(got) - want) <= 1e-15 * scale_of(x), lambda: f'median of {n} values is {want!r}, got {got!r}')
    elif f == 'mode':
        r = ctx.rng()
        if ctx.chance(0.6):
            x = np.round(x, int(r.integers(0, 2)))
        x = (x[r.integers(0, n, n)] if ctx.chance(0.85) else r.permutation(n) * ctx.pick((1.0, 0.5, -3.0, 1e-3))) + 0.0
        v, x = container(ctx, x)
        if n % 2 == 0 and ctx.chance(0.1):
            v = np.reshape(v, (2, -1))
            ctx.tag('2-D')
        m, c = ctx.expect(ctx.call(S + 'descriptive.mode', v), f)
        cnt = Counter(x.tolist())
        top = max(cnt.values())
        want = min(a for a, k in cnt.items() if k == top)
        ctx.check(float(m) == want and int(c) == top, lambda: f'mode is ({want!r}, {top}), got ({m!r}, {c!r})')
        if sum(1 for k in cnt.values() if k == top) > 1:
            ctx.tag('tied mode')
    else:
        v, x = container(ctx, x, ('array', 'array', 'int array'))
        got = float(ctx.expect(ctx.call(S + 'spread.' + f, v), f))
        ld = x.astype(np.longdouble)
        var = float(np.mean((ld - ld.mean()) ** 2))
        want = var if f == 'variance' else var ** 0.5
        t = 1e-10 * var + 1e-22 * scale_of(x) ** 2 * 1.0
        ok = abs(got - var) <= t if f == 'variance' else abs(got * got - var) <= 3 * t
        ctx.check(ok and got >= 0, lambda: f'{f} of {n} values is {want!r}, got {got!r}')
    ctx.count('statistics compared')
