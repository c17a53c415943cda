"""C14 premodification of the modified phase-space method."""
import math

from .common import *

FILES = ['proadv/filtration/detection/phasespace.py']
CASES = {'quick': 120800, 'thorough': 2400000}
M = D + 'phasespace.phasespace_thresholding_premodification'


def case(ctx):
    n = gen.sizes(ctx, 2, 300, big(ctx, 5000, 20000), 0.1, 70000)
    x = gen.series(ctx, n)
    k = ctx.u()
    if k < 0.6:
        x = x - np.mean(x)
    elif k < 0.75:
        x = np.round(x - np.median(x))
    kw = {}
    c1, c2 = 1.5, 1.35
    if ctx.chance(0.6):
        c1 = ctx.pick((1.0, 1.483, 2.0, 0.5, ctx.uniform(0.2, 4)))
        kw['c1'] = c1
    if ctx.chance(0.6):
        c2 = ctx.pick((1.0, 1.483, 0.3, 0.1, 2.0, ctx.uniform(0.05, 3)))
        kw['c2'] = c2
    keep = x.copy()
    sc = scale_of(keep)
    th = ref.mad(keep)
    tol = 1e-10 * (sc + 1e-300)
    lim = c2 * th * math.sqrt(2 * math.log(n))
    rem = np.abs(keep) > lim
    unsure_rem = np.abs(np.abs(keep) - lim) <= tol * (1 + c2)
    prot = np.abs(keep) <= c1 * th
    unsure_prot = np.abs(np.abs(keep) - c1 * th) <= tol * (1 + c1)
    if c1 * 4 == round(c1 * 4) and np.all(keep * 4 == np.round(keep * 4)) and sc < 1e6:
        unsure_prot[:] = False      # every number involved is exactly representable: a tie is a tie
        ctx.tag('exact ties decided')
        if (np.abs(keep) == c1 * th).any():
            ctx.tag('samples exactly at the protection limit')
    if unsure_rem.any():
        if th == 0 and np.all(unsure_rem == (keep == 0)):
            pass            # threshold exactly zero: zeros are not beyond it
        else:
            raise Skip()
    xin = gen.layout(ctx, x)
    if len(kw) == 2 and ctx.chance(0.4):
        o = ctx.call(M, xin, c1, c2)
    else:
        o = ctx.call(M, xin, **kw)
    got, un = ctx.expect(o, 'premodification')
    got, un = np.asarray(got), np.asarray(un)
    flagged = contract(ctx, un, n, 'premodification (unremovable indices)')
    if th == 0:
        unsure_prot[:] = False
    wrong = np.nonzero((flagged != prot) & ~unsure_prot)[0]
    ctx.check(wrong.size == 0, lambda: f'premodification: sample {wrong[0]}={keep[wrong[0]]!r} is '
              f'{"" if flagged[wrong[0]] else "not "}listed as unremovable with the bound {c1 * th!r}')
    ctx.check(got.shape == (n,), f'premodification: shape {got.shape}')
    same = ~rem
    ctx.check(bool(np.all(got[same] == keep[same])), lambda: f'premodification changed the sample '
              f'{np.nonzero(same & (got != keep))[0][0]}, which lies within the threshold {lim!r}')
    want, lead = ref.last_valid(keep, np.nonzero(rem)[0])
    body = rem.copy()
    body[lead] = False
    ctx.check(bool(np.all(got[body] == want[body])), lambda: f'premodification: removable sample '
              f'{np.nonzero(body & (got != want))[0][0]} became {got[body & (got != want)][0]!r}, not the last valid sample '
              f'{want[body & (got != want)][0]!r}')
    ctx.check(bool(np.all(np.isfinite(got))), 'premodification: non-finite sample')
    if len(lead):
        v = got[lead]
        nxt = [np.full(len(lead), keep[len(lead)])] if len(lead) < n else []
        if not any(np.array_equal(v, w) for w in [keep[lead]] + nxt):
            if np.all(v == keep[-1]):
                k = ctx.stats['known'].setdefault('C14-leading-wrap', [0, 'leading outliers take the final sample'])
                k[0] += 1
            else:
                ctx.fail(f'premodification: the leading outliers became {v[:5]!r}')
    ctx.count('removable samples', int(rem.sum()))
    ctx.count('unremovable samples', int(prot.sum()))
    if rem.any() and (keep[rem] > 0).any() and (keep[rem] < 0).any():
        ctx.tag('outliers on both sides')
