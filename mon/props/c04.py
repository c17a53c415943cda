"""C04 last valid / mean / median fill values."""
from .common import *

FILES = ['proadv/filtration/replacement/replacements.py']
CASES = {'quick': 180000, 'thorough': 1800000}


def case(ctx):
    n = gen.sizes(ctx, 2, 300, big(ctx, 3000, 20000), 0.1, 70000)
    x = gen.series(ctx, n)
    s = gen.spikes(ctx, n)
    m = ctx.pick(('last_valid_data', 'mean_value', 'median_value'))
    ctx.tag('method:' + m)
    keep = x.copy()
    out = np.asarray(ctx.expect(ctx.call(R + m, gen.layout(ctx, x), index_array(ctx, s)), m))
    ctx.check(out.shape == (n,), f'{m}: wrong shape {out.shape}')
    tol = 1e-12 * scale_of(keep) * max(1.0, np.sqrt(n))
    if m == 'last_valid_data':
        want, lead = ref.last_valid(keep, s)
        body = np.setdiff1d(s, lead)
        bad = [int(i) for i in body if out[i] != want[i]]
        ctx.check(not bad, lambda: f'last valid data: sample {bad[0]} became {out[bad[0]]!r}, the last valid sample before it '
                  f'is {want[bad[0]]!r} (n={n}, spikes {s[:12]})')
        if lead:
            nxt = keep[len(lead)] if len(lead) < n else None
            v = out[lead]
            sane = [keep[lead], np.full(len(lead), np.mean(keep))] + ([np.full(len(lead), nxt)] if nxt is not None else [])
            if any(close(v, w, 1e-9, tol) for w in sane):
                return
            if np.all(v == keep[-1]):
                k = ctx.stats['known'].setdefault('C04-leading-wrap', [0, 'leading spikes take the final sample'])
                k[0] += 1
                return
            ctx.fail(f'last valid data: the leading spikes {lead[:5]} became {v[:5]!r}')
    else:
        want = float(np.mean(keep.astype(np.longdouble))) if m == 'mean_value' else float(np.median(keep))
        bad = [int(i) for i in s if abs(out[i] - want) > tol]
        ctx.check(not bad, lambda: f'{m}: sample {bad[0]} became {out[bad[0]]!r}, not {want!r} (n={n}, {s.size} spikes)')
    ctx.count('fill values compared', int(s.size))
