"""C25 synthetic noise."""
import math

from .common import *

FILES = ['proadv/statistics/signal/synthetic.py']
CASES = {'quick': 8500, 'thorough': 380000}
M = S + 'signal.synthetic.synthetic_noise'
RULE = ('seeded records and percentages; every polluted record is decomposed into its perturbations and checked sample by '
        'sample; amplitudes and chosen positions are also pooled over the run and tested against their distributions')

AMP = []
POS = np.zeros(10, dtype=np.int64)
REL = np.zeros((3, 11))     # relative positions (ten bins) and odd indices: seen, expected, variance
ADJ = np.zeros(3)           # neighbouring spikes


def setup(tier):
    AMP.clear()
    POS[:] = 0
    REL[:] = 0
    ADJ[:] = 0


def case(ctx):
    if ctx.chance(0.003):
        return cover(ctx)
    n = gen.sizes(ctx, 1, 250, big(ctx, 1500, 4000), 0.08, 6000)
    x = gen.series(ctx, n)
    pct = ctx.pick((0, 1, 5, 10, 20, 33, 50, 75, 99, 100, 100, 0.5, 12.5, ctx.integer(0, 100)))
    uniform_probe = ctx.chance(0.15)
    if uniform_probe:
        n, pct = 10, 10
        x = np.abs(gen.series(ctx, n, kind='gauss', scale=1.0)) + 1.0
    if n > 400 and pct > 50:
        pct = 20
    keep = x.copy()
    m = float(np.mean(keep.astype(np.longdouble)))
    want = int(n * pct / 100)
    seed = int(ctx.u() * 2 ** 32) % (2 ** 32)
    fresh = not ctx.genome_in       # mutated cases repeat seeds: their draws are not independent and stay out of the pools
    np.random.seed(seed)
    xin = gen.layout(ctx, x)
    got = np.asarray(ctx.expect(ctx.call(M, xin, pct, decoy=False), 'synthetic noise'), float)
    after = np.random.get_state()
    ctx.check(got.shape == (n,), f'synthetic noise: shape {got.shape}')
    d = got - keep
    hit = np.nonzero(d != 0)[0]
    sc = scale_of(keep)
    decidable = abs(m) * max(pct, 0.01) > 1e-9 * sc and pct > 0
    if not decidable:
        ctx.check(hit.size <= want, lambda: f'synthetic noise: {hit.size} samples changed at {pct}% of {n}')
    else:
        ctx.check(hit.size == want, lambda: f'synthetic noise: {hit.size} of {n} samples changed at {pct}%, expected {want}')
        t = d[hit] / m
        sign = np.where(np.arange(hit.size) % 2 == 0, 1.0, -1.0)
        a = t * sign - pct
        eps = 1e-12 * (sc / abs(m) + pct) * 10
        bad = np.nonzero((a < -eps) | (a > 0.5 + eps))[0]
        ctx.check(bad.size == 0, lambda: f'synthetic noise: sample {hit[bad[0]]} (spike {bad[0]}) was perturbed by '
                  f'{t[bad[0]]!r} times the mean, expected {"+" if sign[bad[0]] > 0 else "-"}({pct} + |r|) with |r| of order 0.05')
        if fresh and eps < 1e-6 and len(AMP) < 200000:
            AMP.extend(a.tolist())
        if hit.size >= 8 and eps < 1e-9:
            same = int(np.count_nonzero(np.diff(np.sort(a)) <= eps))
            ctx.check(same <= hit.size // 4, lambda: f'synthetic noise: {same} of {hit.size} spikes repeat the deviate of another spike')
        if uniform_probe and fresh:
            np.add.at(POS, hit, 1)
        if fresh and n >= 20 and 0 < want < n:
            f = want / n
            b = (np.arange(n) * 10) // n
            size = np.append(np.bincount(b, minlength=10), n // 2)
            REL[0] += np.append(np.bincount(b[hit], minlength=10), np.count_nonzero(hit % 2))
            REL[1] += size * f
            REL[2] += size * f * (1 - f)
            ADJ[0] += np.count_nonzero(np.diff(hit) == 1)
            ADJ[1] += want * (want - 1) / n
            ADJ[2] += want * (want - 1) / n * (1 + f)
    ctx.count('samples perturbed', int(hit.size))
    ctx.count('samples untouched', int(n - hit.size))
    np.random.seed(seed)
    again = np.asarray(ctx.expect(ctx.call(M, keep.copy(), pct, decoy=False), 'synthetic noise'), float)
    ctx.check(np.array_equal(again, got), 'synthetic noise: the same seed gives another record')
    s2 = np.random.get_state()
    ctx.check(s2[2] == after[2] and np.array_equal(s2[1], after[1]), 'synthetic noise: random state differs after the same call')
    if want >= 3 and decidable:
        other = np.asarray(ctx.expect(ctx.call(M, keep.copy(), pct, decoy=False), 'synthetic noise'), float)
        ctx.check(not np.array_equal(other, got), 'synthetic noise: successive calls repeat the same noise')
        if hit.size >= 8 and eps < 1e-9:
            h2 = np.nonzero(other != keep)[0]
            a2 = np.abs((other - keep)[h2] / m) - pct
            both = np.sort(np.concatenate([np.abs(t) - pct, a2]))
            rep = int(np.count_nonzero(np.diff(both) <= eps))
            ctx.check(rep <= hit.size // 4, lambda: f'synthetic noise: {rep} of {hit.size} deviates come again in the next call')


def cover(ctx):
    """Many calls on one record: every position is chosen sooner or later, none always (odds below 1e-15 otherwise)."""
    n, pct, calls = ctx.pick(((5, 40, 80), (12, 50, 60), (64, 75, 45), (300, 75, 45), (520, 80, 40), (700, 75, 45), (1100, 50, 70)))
    n += ctx.integer(0, 9)
    x = np.abs(gen.series(ctx, n, kind='gauss', scale=1.0)) + 1.0
    np.random.seed(int(ctx.u() * 2 ** 32) % (2 ** 32))
    count = np.zeros(n, int)
    for _ in range(calls):
        count += np.asarray(ctx.expect(ctx.call(M, x.copy(), pct, decoy=False), 'synthetic noise'), float) != x
    for bad, how in ((count == 0, 'never'), (count == calls, 'always')):
        ctx.check(not bad.any() or how == 'always' and calls * math.log10(100 / pct) < 15,
                  lambda: f'synthetic noise: in {calls} calls at {pct}% sample {int(np.argmax(bad))} of {n} was {how} chosen')
    ctx.tag('position coverage')
    ctx.count('positions covered', n)


def aggregate():
    return {'amp': AMP[:100000], 'pos': POS.tolist(), 'rel': REL.tolist(), 'adj': ADJ.tolist()}


def merge(aggs, st):
    from ..core import Violation
    a = np.concatenate([np.asarray(g['amp']) for g in aggs])
    p = np.sum([g['pos'] for g in aggs], axis=0)
    st['events']['pooled amplitudes'] = int(a.size)
    st['events']['pooled single positions'] = int(p.sum())
    if a.size > 2000:
        mean, want = a.mean(), 0.05 * math.sqrt(2 / math.pi)
        se = 0.05 * math.sqrt(1 - 2 / math.pi) / math.sqrt(a.size / 4)   # draws repeat across related cases
        if abs(mean - want) > 8 * se + 1e-4:
            raise Violation(f'synthetic noise: the amplitudes beyond the percentage average {mean:.5f} over {a.size} spikes, '
                            f'a half-normal with deviation 0.05 gives {want:.5f}')
        q = np.mean(a < 0.05)
        if abs(q - 0.6827) > 8 * math.sqrt(0.25 / (a.size / 4)) + 1e-3:
            raise Violation(f'synthetic noise: {q:.4f} of the amplitudes lie below 0.05, a normal deviation of 0.05 gives 0.6827')
    if p.sum() > 300:
        e = p.sum() / 10
        if np.any(np.abs(p - e) > 8 * math.sqrt(e) + 5):
            raise Violation(f'synthetic noise: positions are not uniform: {p.tolist()}')
    r = np.sum([g['rel'] for g in aggs], axis=0)
    j = np.sum([g['adj'] for g in aggs], axis=0)
    z = np.abs(r[0] - r[1]) / np.sqrt(4 * r[2] + 25)
    if np.any(z > 8):
        k = int(np.argmax(z))
        raise Violation('synthetic noise: ' + (f'{r[0][k]:.0f} spikes in part {k + 1} of ten of the records, {r[1][k]:.0f} expected'
                        if k < 10 else f'{r[0][k]:.0f} spikes at odd positions, {r[1][k]:.0f} expected') + ': positions are not uniform')
    if abs(j[0] - j[1]) > 8 * math.sqrt(4 * j[2] + 25):
        raise Violation(f'synthetic noise: {j[0]:.0f} neighbouring pairs of spikes, {j[1]:.0f} expected: positions are not uniform')
    st['events']['pooled relative positions'] = int(r[0][:10].sum())
    st['events']['pooled neighbouring pairs'] = int(j[0])
