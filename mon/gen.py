"""Workload generators: velocity records, spike patterns, memory layouts."""
import os

import numpy as np

from .core import REPO

_DATA = {}


def dataset():
    """The instrument records shipped with the repository (read from the working tree)."""
    if not _DATA:
        for n in ('first', 'second'):
            p = os.path.join(REPO, 'dataset', n + '.csv')
            try:
                _DATA[n] = np.loadtxt(p, delimiter=',', skiprows=1)
            except (OSError, ValueError):
                _DATA[n] = np.random.default_rng(3).normal(10, 5, (18000, 3)).round(2)
    return _DATA


KINDS = ('gauss', 'ar1', 'dataset', 'walk', 'sine', 'ramp', 'step', 'quantised', 'heavy', 'negative', 'ties',
         'spiky', 'plateau', 'alternating', 'integral', 'burst', 'edge_spikes', 'counts', 'offset')


def series(ctx, n, kind=None, scale=None, signed=True):
    """A finite float64 record of n samples."""
    kind = kind or ctx.pick(KINDS)
    r = ctx.rng()
    s = scale if scale is not None else ctx.wpick([(1.0, 4), (10.0, 4), (0.1, 1), (0.01, 1), (100.0, 1), (1000.0, 1),
                                                             (None, 0.8)])
    if s is None:       # any magnitude, or one the code mentions
        s = ctx.pick(ctx.floats or [1.0]) if ctx.chance(0.4) else ctx.logu(1e-6, 1e6)
        s = float(min(max(s, 1e-7), 1e7))
        ctx.tag('data:unusual magnitude')
    t = np.arange(n)
    if kind == 'gauss':
        x = r.normal(r.choice([0, 0, 1, -3]), 1, n)
    elif kind == 'ar1':
        e = r.normal(0, 1, n)
        x = np.empty(n)
        a = 0.0
        ph = r.uniform(-0.9, 0.99)
        for i in range(n):
            a = ph * a + e[i]
            x[i] = a
    elif kind == 'dataset':
        d = dataset()[('first', 'second')[int(r.integers(2))]]
        c = d[:, int(r.integers(d.shape[1]))]
        o = int(r.integers(max(1, c.size - n + 1)))
        x = np.resize(c[o:o + n], n).astype(float)
        s = 1.0 if scale is None else scale / max(np.std(c), 1e-9)
    elif kind == 'walk':
        x = np.cumsum(r.normal(0, 1, n))
    elif kind == 'sine':
        x = np.sin(t * r.uniform(0.01, 3)) + r.uniform(0, 0.3) * r.normal(0, 1, n)
    elif kind == 'ramp':
        x = r.uniform(-1, 1) * t / max(n, 1) * 5 + r.uniform(0, 0.2) * r.normal(0, 1, n)
    elif kind == 'step':
        x = np.where(t < r.integers(0, n + 1), -1.0, 2.0) + 0.1 * r.normal(0, 1, n)
    elif kind == 'quantised':
        x = np.round(r.normal(2, 3, n), 2)
        s = 1.0 if scale is None else scale
    elif kind == 'heavy':
        x = np.clip(r.standard_t(1.5, n), -1e3, 1e3)
    elif kind == 'negative':
        x = -np.abs(r.normal(5, 1, n)) - 0.1
    elif kind == 'ties':
        x = r.integers(-2, 3, n).astype(float)
    elif kind == 'spiky':
        x = r.normal(0, 1, n)
        k = max(1, int(n * r.uniform(0.005, 0.2)))
        i = r.integers(0, n, k)
        x[i] += r.choice([-1, 1], k) * r.uniform(4, 40, k)
    elif kind == 'plateau':
        x = np.repeat(r.normal(0, 2, n // 5 + 1), 5)[:n] + (1e-3 * r.normal(0, 1, n) if r.random() < .5 else 0)
    elif kind == 'alternating':
        x = np.where(t % 2 == 0, 1.0, -1.0) * r.uniform(0.5, 2, n)
    elif kind == 'integral':
        x = r.integers(-50, 51, n).astype(float)
        s = 1.0 if scale is None else scale
    elif kind == 'counts':      # raw instrument counts that fill most of the range of a narrow integer type
        lo, hi = ctx.pick(((-120, 120), (0, 250), (-30000, 30000), (-30000, 30000), (0, 65000), (-2 * 10 ** 9, 2 * 10 ** 9)))
        x = (hi + lo) / 2 + (hi - lo) * r.choice([0.02, 0.15, 0.45]) * np.clip(r.normal(0, 1, n), -1, 1)
        i = r.integers(0, n, int(r.integers(0, 4)))
        x[i] = r.choice([lo, hi], i.size)
        x = np.rint(x)
        s = 1.0 if scale is None else scale
    elif kind == 'burst':
        x = r.normal(0, 0.3, n)
        a = int(r.integers(0, n))
        b = min(n, a + int(r.integers(1, max(2, n // 4))))
        x[a:b] += r.choice([-1, 1]) * r.uniform(3, 20)
    elif kind == 'edge_spikes':
        x = r.normal(0, 1, n)
        x[0] += r.choice([-1, 1]) * 15
        x[-1] += r.choice([-1, 1]) * 15
    else:   # offset
        x = r.normal(0, 1, n) + r.choice([-50., 50., 200.])
    x = np.asarray(x, dtype=float) * s
    if not signed:
        x = np.abs(x)
    ctx.tag('data:' + kind)
    return np.ascontiguousarray(x)


def exact(ctx, n):
    """A record whose mean and deviation are exact in binary, however they are computed: ties can be decided.

    -> (record of about n samples, mean, deviation)
    """
    r = ctx.rng()
    p = ctx.pick(([1, -1], [2, -2, 0, 0, 0, 0, 0, 0], [3, -3] + [0] * 16, [1, -1, 1, -1, 2, -2] + [0] * 6, [-1, 1, 2, -2, 0, 0, 0, 0, 0, 0]))
    x = np.tile(np.array(p, float), max(1, n // len(p)))
    if ctx.chance(0.8):
        x = r.permutation(x)
    s = float(ctx.pick((1, 2, 0.5, 16, 0.25, 64)))
    m = float(ctx.pick((0, 0, 1, -3, 8, -20)))
    ctx.tag('data:exact')
    return x * s + m, m, s


def varied(ctx, x):
    """True when the record is far from constant (so that normalising by its spread is meaningful)."""
    return x.size > 2 and np.std(x) > 1e-7 * (1e-12 + np.max(np.abs(x)))


def nasty_sizes(ctx, lo, hi):
    k = ctx.u()
    if k < 0.2:
        p = [v for v in (2 ** j + d for j in range(1, 16) for d in (-1, 0, 1)) if lo <= v <= hi]
        if p:
            return ctx.pick(p)
    if k < 0.3:
        p = [v for v in (10 ** j * m + d for j in range(1, 5) for m in (1, 2, 5) for d in (-1, 0, 1)) if lo <= v <= hi]
        if p:
            return ctx.pick(p)
    return ctx.integer(lo, hi)


def sizes(ctx, lo, small, large, p_large, huge, p_huge=0.0015):
    """A record length: mostly up to `small`, sometimes `large`, rarely a field record up to `huge` samples.

    Numbers the code mentions that lie beyond `small` get a share of their own.
    """
    k = ctx.u()
    if k < p_huge and huge > large:
        ctx.tag('field-size record')
        return ctx.integer(large, huge)
    if k < p_huge + 0.01:
        p = [v for v in ctx.ints if small <= v < huge]
        if p:
            v = ctx.pick(p) + ctx.pick((-1, 0, 1, 2))
            if v <= large or ctx.chance(0.3):
                return int(min(max(v, lo), huge))
    return nasty_sizes(ctx, lo, large if k > 1 - p_large else small)


def layout(ctx, x, readonly=True, ints=True, narrow=False):
    """The same values in another memory layout, or as integers when they all are."""
    if ints and x.size and x.ndim == 1 and x.dtype == float and np.all(x == np.rint(x)) and np.abs(x).max() < (2 ** 31 if narrow else 10 ** 6) \
            and ctx.chance(0.5):
        ctx.tag('layout:integers')
        fits = [t for t in (np.int8, np.uint8, np.int16, np.uint16, np.int32)
                if narrow and np.iinfo(t).min <= x.min() and x.max() <= np.iinfo(t).max]
        x = x.astype(ctx.pick(fits[:3] + [np.int64, np.int64] + [np.int32] * (narrow or np.abs(x).max() < 2 * 10 ** 4)))
        ctx.tag('layout:' + x.dtype.name)
    k = ctx.wpick([('plain', 10), ('strided', 2), ('reversed', 1), ('readonly', 1 if readonly else 0), ('offset', 1),
                   ('column', 2)])
    if k == 'plain':
        return x
    ctx.tag('layout:' + k)
    if k == 'strided':
        b = np.full(2 * x.size + 1, 777, dtype=x.dtype)
        v = b[1::2][:x.size]
        v[...] = x
        return v
    if k == 'reversed':
        b = x[::-1].copy()
        return b[::-1]
    if k == 'offset':
        b = np.full(x.size + 3, -777, dtype=x.dtype)
        v = b[2:2 + x.size]
        v[...] = x
        return v
    if k == 'column':
        b = np.full((x.size, 3), 555, dtype=x.dtype)
        v = b[:, 1]
        v[...] = x
        return v
    v = x.copy()
    v.flags.writeable = False
    return v


def spikes(ctx, n, allow_first=True, allow_empty=True, lo=0, hi=None):
    """Sorted distinct spike indices in [lo, hi)."""
    hi = n if hi is None else hi
    lo = lo if allow_first else max(lo, 1)
    if hi <= lo:
        return np.array([], dtype=np.int64)
    m = hi - lo
    r = ctx.rng()
    kinds = [('single', 3), ('few', 4), ('many', 2), ('runs', 4), ('longrun', 1), ('ends', 2), ('alternate', 1),
             ('twos', 2), ('boundary', 3), ('dict', 3), ('most', 0.5), ('all', 0.3)]
    if allow_empty:
        kinds.append(('empty', 0.7))
    k = ctx.wpick(kinds)
    if k == 'empty':
        s = []
    elif k == 'single':
        s = [lo + int(r.integers(m))]
    elif k == 'few':
        s = lo + r.integers(0, m, min(m, int(r.integers(2, 8))))
    elif k == 'many':
        s = lo + r.integers(0, m, max(1, int(m * r.uniform(0.05, 0.4))))
    elif k == 'runs':
        s = []
        for _ in range(int(r.integers(1, 5))):
            a = lo + int(r.integers(m))
            s += list(range(a, min(hi, a + int(r.integers(1, 7)))))
    elif k == 'longrun':
        a = lo + int(r.integers(m))
        s = list(range(a, min(hi, a + int(r.integers(5, 60)))))
    elif k == 'ends':
        s = list(range(lo, lo + int(r.integers(0, min(4, m) + 1)))) + list(range(hi - int(r.integers(0, min(4, m) + 1)), hi))
    elif k == 'alternate':
        a = lo + int(r.integers(m))
        s = list(range(a, min(hi, a + int(r.integers(2, 40))), 2))
    elif k == 'twos':
        s = []
        for _ in range(int(r.integers(1, 6))):
            a = lo + int(r.integers(m))
            s += [a, min(a + 1, hi - 1)]
    elif k == 'boundary':       # indices near numbers the code mentions, from either end
        s = []
        for _ in range(int(r.integers(1, 5))):
            c = ctx.pick(ctx.ints or [1]) + ctx.pick((-1, 0, 1))
            s.append(c if ctx.chance(0.5) else n - 1 - c)
    elif k == 'dict':           # as many spikes as a number the code mentions
        c = ctx.pick(ctx.ints or [1]) + ctx.pick((-1, 0, 1))
        c = min(max(1, c), m)
        s = lo + r.permutation(m)[:c]
    elif k == 'most':
        s = lo + np.nonzero(r.random(m) < 0.9)[0]
    else:
        s = np.arange(lo, hi)
    s = np.unique(np.asarray(s, dtype=np.int64))
    s = s[(s >= lo) & (s < hi)]
    ctx.tag('spikes:' + k)
    if s.size == 0 and not allow_empty:
        s = np.array([lo + int(r.integers(m))], dtype=np.int64)
    return s


def runs(idx):
    """[(start, end)] of the maximal runs of consecutive indices."""
    out = []
    for i in idx:
        i = int(i)
        if out and out[-1][1] == i - 1:
            out[-1][1] = i
        else:
            out.append([i, i])
    return [tuple(r) for r in out]
