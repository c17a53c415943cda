"""C24 Welch power spectrum."""
from .common import *

FILES = ['proadv/statistics/signal/spectrum.py']
CASES = {'quick': 102300, 'thorough': 1500000}
M = S + 'signal.spectrum.power_spectra'


def case(ctx):
    block = gen.nasty_sizes(ctx, 4, ctx.wpick([(256, 85), (2048, 12), (20000, 3)]))
    kw = {}
    if ctx.chance(0.08):
        block = 2048
    else:
        if ctx.chance(0.05):        # around a number the code mentions
            block = int(min(max(ctx.pick(ctx.ints or [64]) * ctx.pick((1, 1, 2)) + ctx.pick((-1, 0, 0, 1)), 4), 20000))
        kw['block'] = block
    n = block + ctx.integer(0, 4 * block)
    if ctx.chance(0.2):             # many blocks
        n = block + ctx.integer(0, int(min(60 * block, 40000)))
    if ctx.chance(0.01):
        n = block * ctx.integer(60, 1500) + ctx.integer(0, block)
        if n > 70000:
            raise Skip()
    if ctx.chance(0.1):
        n = block * ctx.pick((1, 2, 3))
    x = gen.series(ctx, n)
    ov = 50
    if ctx.chance(0.7):
        ov = ctx.pick((0, 10, 25, 33, 50, 66.6, 75, 90, 99, ctx.integer(0, 95)))
        if int(block * ov / 100) >= block:
            raise Skip()
        kw['overlap'] = ov
    if (n - block) / (block - int(block * ov / 100)) * max(block, 200) > 8e5:
        raise Skip()
    one = True
    if ctx.chance(0.4):
        one = ctx.pick((True, False))
        kw['onesided'] = one
    fs = ctx.pick((100.0, 25, 50, 200, 1, ctx.logu(0.5, 1000)))
    keep = x.copy()
    fr, ps, nseg = ref.welch_psd(keep, fs, ov, block, one)
    xin = gen.layout(ctx, x)
    if len(kw) == 3 and ctx.chance(0.4):
        o = ctx.call(M, xin, fs, ov, block, one)
    else:
        o = ctx.call(M, xin, fs, **kw)
    gf, gp = ctx.expect(o, 'power spectrum')
    gf, gp = np.asarray(gf, float), np.asarray(gp, float)
    ctx.check(gf.shape == fr.shape and gp.shape == ps.shape, lambda: f'power spectrum: {gf.shape} frequencies, expected {fr.shape}')
    o1, o2 = np.argsort(gf), np.argsort(fr)
    ctx.check(close(gf[o1], fr[o2], 1e-9, 1e-9 * fs / block) or
              (not one and block % 2 == 0 and close(np.sort(np.abs(gf)), np.sort(np.abs(fr)), 1e-9, 1e-9 * fs / block)),
              'power spectrum: frequencies')
    tol = 1e-8 * ps + 1e-12 * ps.max() + 1e-24 * scale_of(keep) ** 2 / fs
    if not one:
        want = ps
        got = gp
    else:
        want, got = ps, gp
    bad = np.nonzero(~(np.abs(got - want) <= tol))[0]
    ctx.check(bad.size == 0, lambda: f'power spectral density at {fr[bad[0]]:.5g} is {got[bad[0]]!r}, expected '
              f'{want[bad[0]]!r} (n={n}, block={block}, overlap={ov}%, one-sided={one}, {nseg} blocks)')
    ctx.check(bool(np.all(got >= 0)), 'negative power')
    ctx.count('spectral values compared', int(ps.size))
    ctx.count('blocks averaged', nseg)
