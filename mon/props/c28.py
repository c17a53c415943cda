"""C28 Butterworth design."""
import math

from scipy import signal as sps

from .common import *

FILES = ['proadv/statistics/signal/butter.py']
CASES = {'quick': 95200, 'thorough': 2540000}
M = S + 'signal.butter.butterworth'


def match(a, b):
    """Largest distance between two multisets of complex numbers, greedily matched, relative to their size."""
    a, b = list(np.asarray(a, complex)), list(np.asarray(b, complex))
    if len(a) != len(b):
        return math.inf
    worst = 0.0
    for v in a:
        d = [abs(v - w) for w in b]
        k = int(np.argmin(d))
        worst = max(worst, d[k] / max(abs(v), abs(b[k]), 1e-300) if d[k] else 0.0)
        b.pop(k)
    return worst


def poly_bound(roots, gain):
    """Sum of absolute products: the natural error scale of each coefficient."""
    return np.abs(np.poly(-np.abs(np.asarray(roots)))) * abs(gain) if len(roots) else np.array([abs(gain)])


def logmag(z, p, k, s):
    """log |H| at the points s from zeros, poles and gain."""
    out = np.full(len(s), math.log(abs(k)))
    for v in z:
        out += np.log(np.abs(s - v))
    for v in p:
        out -= np.log(np.abs(s - v))
    return out


def butter_power(q, bt, u, w):
    """log |H|^2 of the analog Butterworth filter at angular frequency u, from the definition."""
    if bt == 'lp':
        x = u / w[0]
    elif bt == 'hp':
        x = w[0] / u
    else:
        x = np.abs(u * u - w[0] * w[1]) / (u * (w[1] - w[0]))
        if bt == 'bs':
            x = 1 / x
    return -np.logaddexp(0, 2 * q * np.log(x))


def case(ctx):
    q = ctx.integer(1, 12) if ctx.chance(0.85) else ctx.pick((0, 1, 2, 3, 15, 20, ctx.integer(13, 40)))
    bt = ctx.pick(('lp', 'hp', 'bp', 'bs'))
    ag = ctx.chance(0.4)
    out = ctx.pick(('nd', 'zps', 'sop'))
    if q == 0:
        bt = ctx.pick(('lp', 'hp'))
    sr = None
    if ag:
        a = ctx.pick((1.0, 2.0, ctx.logu(1e-2, 1e3), ctx.logu(1e-4, 1e5) if q <= 12 else 1.0))
        b = a * (1 + (ctx.logu(0.05, 10) if ctx.chance(0.8) else ctx.logu(2e-3, 200)))
    else:
        a = ctx.pick((0.1, 0.25, 0.5, ctx.uniform(0.02, 0.9), ctx.logu(5e-4, 0.05), 1 - ctx.logu(0.025, 0.3)))
        b = a + (0.98 - a) * (ctx.uniform(0.05, 1.0) if ctx.chance(0.8) else ctx.logu(3e-3, 0.05))
        if ctx.chance(0.4):
            sr = ctx.pick((100, 25.0, 1, 48000.0, 200, ctx.logu(0.05, 1e5)))
    wn = np.array([a]) if bt in ('lp', 'hp') else np.array([a, b])
    given = wn * sr / 2 if sr else wn
    form = ctx.u()
    whole = sr is not None and sr >= 25 and ctx.chance(0.4)
    if whole:           # whole frequencies, as users give them
        given = np.maximum(np.rint(given), 1).astype(int)
        if given.size == 2 and given[1] <= given[0]:
            given[1] = given[0] + 1
        if given[-1] >= 0.49 * sr:
            raise Skip()
        wn = given * 2.0 / sr
        ctx.tag('whole frequencies')
        if bt in ('lp', 'hp'):
            w = int(given[0]) if form < 0.8 else ([int(given[0])] if form < 0.9 else np.array(given[0]))
        else:
            w = given.tolist() if form < 0.5 else (tuple(given) if form < 0.7 else given.copy())
    elif bt in ('lp', 'hp'):
        w = float(given[0]) if form < 0.8 else ([float(given[0])] if form < 0.9 else np.array(given[0]))
    else:
        w = [float(v) for v in given] if form < 0.5 else (tuple(given) if form < 0.7 else given.copy())
    kw = {}
    if ag:
        kw['ag'] = True
    if sr is not None:
        kw['sr'] = sr
    if out != 'nd' or ctx.chance(0.3):
        kw['output'] = out if ctx.chance(0.85) else out.upper()
    ctx.tag(f'{bt} {"analog" if ag else "digital"} {out}')
    ctx.tag(f'order {q}')
    if bt == 'bp' and ctx.chance(0.3):
        o = ctx.call(M, q, w, decoy=False, **kw)
    elif ctx.chance(0.15):
        o = ctx.call(M, q, w, bt, ag, out, sr, decoy=False)
    else:
        o = ctx.call(M, q, w, bt if ctx.chance(0.85) else bt.upper(), decoy=False, **kw)
    if q == 0:
        zz, pp, kk = np.array([]), np.array([]), 1.0
    else:
        zz, pp, kk = sps.butter(q, wn[0] if wn.size == 1 else wn, {'lp': 'lowpass', 'hp': 'highpass', 'bp': 'bandpass',
                                'bs': 'bandstop'}[bt], analog=ag, output='zpk')
        if out == 'sop':
            try:
                sps.zpk2sos(zz, pp, kk, analog=ag)
            except ValueError:      # conjugate pairs lost to rounding: no sections exist in double precision
                ctx.count('designs beyond double precision')
                raise Skip()
    res = ctx.expect(o, 'Butterworth design')
    sys_q = 2 * q if bt in ('bp', 'bs') else q
    what = f'Butterworth {bt} order {q} {"analog" if ag else "digital"} w={np.asarray(w)} sr={sr}'
    # frequencies at which the response is compared with the defining formula
    r = ctx.rng()
    wa = wn if ag else 4 * np.tan(np.pi * wn / 2)
    u = np.concatenate([wa, np.exp(r.uniform(np.log(wa[0]) - 3, np.log(wa[-1]) + 3, 6))])
    if bt in ('bp', 'bs'):
        u = u[np.abs(u * u - wa[0] * wa[1]) > 1e-3 * u * u]
    s = 1j * u
    if not ag:
        s = (4 + s) / (4 - s)
    if out == 'zps':
        z, p, k = res
        z, p = np.asarray(z), np.asarray(p)
        ctx.check(p.shape == (sys_q,) and z.ndim == 1, lambda: f'{what}: {p.size} poles, expected {sys_q}')
        dp = match(p, pp)
        ctx.check(dp < 1e-6, lambda: f'{what}: a pole is off by {dp:.3g}')
        dz = match(z, zz)
        ctx.check(dz < 1e-6, lambda: f'{what}: a zero is off by {dz:.3g} ({z.size} zeros, expected {len(zz)})')
        ctx.check(close(float(np.real(k)), kk, 1e-7), lambda: f'{what}: gain {k!r}, expected {kk!r}')
        if q:
            stable = np.max(np.abs(p)) < 1 if not ag else np.max(p.real) < 0
            ctx.check(stable, lambda: f'{what}: unstable pole among {p}')
            lm = 2 * logmag(z, p, float(np.real(k)), s)
            want = butter_power(q, bt, u, wa)
            ctx.check(bool(np.all(np.abs(lm - want) <= 1e-5 + 1e-6 * np.abs(want))), lambda: f'{what}: |H|^2 = {np.exp(lm)} at analog '
                      f'frequencies {u}, the Butterworth formula gives {np.exp(want)}')
            ctx.count('response points compared', len(u))
    elif out == 'nd':
        b_, a_ = res
        b_, a_ = np.asarray(b_), np.asarray(a_)
        ctx.check(a_.shape == (sys_q + 1,) and b_.shape == (len(zz) + 1,), lambda: f'{what}: coefficient shapes {b_.shape} {a_.shape}')
        ctx.check(b_.dtype.kind == 'f' and a_.dtype.kind == 'f', lambda: f'{what}: coefficients are {b_.dtype} {a_.dtype}')
        wb, wda = kk * np.real(np.poly(zz)), np.real(np.poly(pp))
        tb, ta = poly_bound(zz, kk), poly_bound(pp, 1.0)
        ctx.check(bool(np.all(np.abs(b_ - wb) <= 1e-7 * tb + 1e-300)), lambda: f'{what}: numerator {b_}, expected {wb}')
        ctx.check(bool(np.all(np.abs(a_ - wda) <= 1e-7 * ta)), lambda: f'{what}: denominator {a_}, expected {wda}')
        ctx.count('coefficients compared', b_.size + a_.size)
    else:
        sop = np.asarray(res)
        n_sec = max(1, (sys_q + 1) // 2)
        ctx.check(sop.ndim == 2 and sop.shape == (n_sec, 6) and sop.dtype.kind == 'f', lambda: f'{what}: sections have shape {sop.shape} {sop.dtype}')
        ps = []
        for c in sop:
            if q:
                d = np.trim_zeros(c[3:], 'f') if ag else c[3:]
                ctx.check(abs(d[0] - 1) < 1e-12 if not ag else d.size > 0, lambda: f'{what}: section denominators are not monic: {c}')
                ps += list(np.roots(np.trim_zeros(d, 'f')))
        if q:
            ps = np.array(ps)
            # drop the padding poles at the origin of odd digital orders
            if not ag and ps.size > sys_q:
                ps = ps[np.argsort(np.abs(ps))[ps.size - sys_q:]]
            ctx.check((np.max(np.abs(ps)) < 1) if not ag else (np.max(np.real(ps)) < 0), lambda: f'{what}: unstable section')
        pts = np.concatenate([s, np.exp(1j * r.uniform(0, np.pi, 3)) * r.uniform(1.05, 2, 3) * (1 if not ag else wa[0])])
        lm = np.zeros(len(pts))
        ph = np.ones(len(pts), complex)
        ok = np.ones(len(pts), bool)
        for c in sop:
            nu, de = np.polyval(c[:3], pts), np.polyval(c[3:], pts)
            sn = np.polyval(np.abs(c[:3]), np.abs(pts))
            ok &= np.abs(nu) > 1e-9 * sn
            lm += np.log(np.abs(nu) + 1e-300) - np.log(np.abs(de) + 1e-300)
            ph *= np.exp(1j * (np.angle(nu) - np.angle(de)))
        want = logmag(zz, pp, kk, pts)
        ctx.check(bool(np.all((np.abs(lm - want) <= 1e-4 + 1e-6 * np.abs(want)) | ~ok)), lambda: f'{what}: the sections multiply to '
                  f'|H| = {np.exp(lm)}, expected {np.exp(want)}')
        pw = np.full(len(pts), np.sign(kk), complex)
        for v in zz:
            pw *= np.exp(1j * np.angle(pts - v))
        for v in pp:
            pw *= np.exp(-1j * np.angle(pts - v))
        ctx.check(bool(np.all((np.abs(ph - pw) <= 1e-4) | ~ok)), lambda: f'{what}: the phase of the cascaded sections is off by '
                  f'{np.max(np.abs(ph - pw)[ok]):.3g}')
        ctx.count('response points compared', int(ok.sum()))
