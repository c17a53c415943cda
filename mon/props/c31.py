"""C31 cleaning pipelines: detect, replace, repeat."""
import math

from .common import *
from .c11 import three

FILES = ['proadv/filtration/detection/acceleration.py', 'proadv/filtration/detection/phasespace.py',
         'proadv/filtration/detection/spherical.py', 'proadv/filtration/detection/correlation.py',
         'proadv/filtration/detection/trivariatekernel.py', 'proadv/filtration/detection/poincare.py',
         'proadv/filtration/replacement/replacements.py']
CASES = {'quick': 2600, 'thorough': 72000}
RULE = ('seeded multi-step histories: up to eight rounds of detection and replacement on one record or on three components, every '
        'detector with every replacement; each round\'s indices and record are checked against the previous round\'s')

DET = ('acceleration', 'phasespace', 'premodified phasespace', 'spherical', 'correlation', 'kernel')


def detect(ctx, det, recs, it, opts):
    """The indices one round of the documented loop finds (union over the components)."""
    n = recs[0].size
    if det == 'correlation':
        out = [ctx.expect(ctx.call(D + 'correlation.velocity_correlation', *recs, decoy=False), det)]
    else:
        out = []
        for x in recs:
            if det == 'acceleration':
                v = ctx.expect(ctx.call(D + 'acceleration.acceleration_thresholding', x, opts['freq'], opts['tag'] if it % 2 == 0 else
                                        3 - opts['tag'], decoy=False), det)
            elif det == 'phasespace':
                v = ctx.expect(ctx.call(D + 'phasespace.phasespace_thresholding', x - np.mean(x), decoy=False), det)
            elif det == 'spherical':
                v = ctx.expect(ctx.call(D + 'spherical.spherical_phasespace_thresholding', x, it, float(np.mean(x)), decoy=False), det)
            else:
                v = ctx.expect(ctx.call(D + 'trivariatekernel.three_dimensional_kernel', x, opts['grid'], decoy=False), det)
            out.append(v)
    for v in out:
        contract(ctx, np.asarray(v), n, det)
    return np.unique(np.concatenate([np.asarray(v, dtype=np.int64).ravel() for v in out]))


def case(ctx):
    det = ctx.pick(DET)
    n = ctx.integer(70, 240) if det == 'kernel' else gen.sizes(ctx, 70, 400, big(ctx, 1500, 6000), 0.15, 6000)
    three_ = det == 'correlation' or ctx.chance(0.4)
    if three_:
        recs = list(three(ctx, n))
    else:
        recs = [gen.series(ctx, n)]
    planted = None
    if ctx.chance(0.35) and det in ('phasespace', 'correlation', 'spherical', 'acceleration'):
        # isolated spikes far above Gaussian noise: the detectors must see them
        r = ctx.rng()
        n = max(n, 200)
        three_ = three_ or det == 'correlation'
        recs = [r.normal(0, 1, n) for _ in range(3 if three_ else 1)]
        planted = np.sort(5 + 12 * r.permutation((n - 10) // 12)[:int(r.integers(1, 4))])
        if r.random() < 0.25:       # the very ends of the record
            planted = np.unique(np.append(planted, r.choice([1, 2, n - 1, n - 2])))
            planted = planted[np.insert(np.diff(planted) > 6, 0, True)]
        # in the later components a spike can make its own ellipse degenerate: a limit of the correlation method
        host = 0 if det == 'correlation' else int(r.integers(len(recs)))
        recs[host][planted] += r.choice([-1, 1], planted.size) * r.uniform(35, 60, planted.size)
        recs = [x + off for x, off in zip(recs, r.uniform(-3, 3, 3))]
        ctx.tag('planted spikes')
    if not all(gen.varied(ctx, x) for x in recs):
        raise Skip()
    method = ctx.pick(('last_valid_data', 'mean_value', 'median_value', 'linear_interpolation', 'cubic_12points_polynomial',
                       'simple_moving_average', 'exponential_moving_average', 'polynomial_replacement', 'kalman_filter',
                       'weighted_moving_average') + (('ssa',) if n <= 400 else ()))
    args, kw = (), {}
    dec = None
    if method in ('linear_interpolation', 'cubic_12points_polynomial', 'polynomial_replacement'):
        dec = ctx.pick((3, 4, 6))
        kw = {'decimals': dec}
    if method == 'kalman_filter':
        args = kalman_params(ctx)
    if method == 'ssa':
        args = (100, 100 / ctx.uniform(4, 20))
    if method == 'weighted_moving_average':
        kw = {'period': ctx.pick((2, 5, 20))}
    ctx.tag('detector:' + det, 'replacement:' + method)
    opts = {'freq': ctx.pick((25, 50, 100)), 'tag': ctx.pick((1, 2)), 'grid': ctx.integer(8, 20)}
    orig = [x.copy() for x in recs]
    if det == 'premodified phasespace':
        pre = [np.asarray(ctx.expect(ctx.call(D + 'phasespace.phasespace_thresholding_premodification', x, decoy=False), det)[0]) for x in recs]
        for a, b in zip(pre, recs):
            ctx.check(a.shape == b.shape and bool(np.all(np.isfinite(a))), f'{det}: premodified record of shape {a.shape}')
        recs = [p - np.mean(p) for p in pre]
        if not all(gen.varied(ctx, x) for x in recs):
            raise Skip()
        orig = [x.copy() for x in recs]
        det = 'phasespace'
    cur = [x.copy() for x in recs]
    history = []
    ever = np.zeros(n, bool)
    rounds = ctx.integer(1, 8 if det != 'kernel' else 3)
    for it in range(rounds):
        idx = detect(ctx, det, cur, it, opts)
        if it == 0 and planted is not None and not (det == 'acceleration'):
            miss = np.setdiff1d(planted, idx)
            ctx.check(miss.size == 0, lambda: f'{det}: the isolated spike at {miss[0]} ({recs[host][miss[0]]:.1f} in unit noise, n={n}) '
                      f'is not detected; flagged: {idx[:12]}')
            ctx.count('planted spikes found', int(planted.size))
        history.append(idx)
        ctx.count('rounds')
        if idx.size == 0:
            ctx.tag('pipeline came to rest')
            break
        if idx.size == n:
            raise Skip()
        if method == 'weighted_moving_average' and idx[-1] >= n - kw['period']:
            ctx.tag('weighted average: no entry for the last samples (C07-wma-tail)')
            break
        new = []
        for x in cur:
            y = np.asarray(ctx.expect(ctx.call(R + method, x, idx, *args, decoy=False, **kw), method))
            ctx.check(y.shape == (n,), lambda: f'{det}+{method}: a record of {n} samples came back with shape {y.shape}')
            ctx.check(bool(np.all(np.isfinite(y))), lambda: f'{det}+{method}: non-finite sample at {np.nonzero(~np.isfinite(y))[0][:4]} in round {it}')
            keep = np.ones(n, bool)
            keep[idx] = False
            ok = y[keep] == x[keep] if dec is None else rounded_ok(y[keep], x[keep], dec, 1e-12 * scale_of(x))
            ctx.check(bool(np.all(ok)), lambda: f'{det}+{method}: a sample that was not flagged changed in round {it}')
            new.append(y)
        ever[idx] = True
        cur = new
        if not all(gen.varied(ctx, x) for x in cur):
            break
    # over the whole history only samples flagged in some round differ from the record that went in
    for a, b in zip(cur, orig):
        same = a[~ever] == b[~ever] if dec is None else rounded_ok(a[~ever], b[~ever], dec, 1e-12 * scale_of(b)) | (a[~ever] == b[~ever])
        ctx.check(bool(np.all(same)), lambda: f'{det}+{method}: a sample never flagged differs from the input after {len(history)} rounds')
    if planted is not None and method in ('last_valid_data', 'mean_value', 'median_value', 'linear_interpolation', 'cubic_12points_polynomial',
                                             'polynomial_replacement') and det != 'acceleration' \
            and len(history) >= 1:
        top = np.max(np.abs(cur[host][planted] - np.median(orig[host])))
        ctx.check(top < 15, lambda: f'{det}+{method}: {top:.1f} units of a spike are left after {len(history)} rounds')
    ctx.count('samples followed', n * len(cur) * len(history))
