"""C29 filter transformations and representations keep the transfer function."""
import math

from scipy import signal as sps

from .common import *

FILES = ['proadv/statistics/signal/butter.py']
CASES = {'quick': 118700, 'thorough': 4116000}
B = S + 'signal.butter.'


def roots(ctx, n, lo=0.15, hi=2.5, left=False, special=True, origin=True):
    """n numbers closed under conjugation, well away from 0 and from each other, or (special) some repeated, several pairs on one
    vertical line, some at the origin."""
    r = ctx.rng()
    mode = ctx.pick(('mixed', 'real', 'complex'))
    out = []
    extra = ctx.pick((None,) * 6 + ('repeated', 'line', 'origin', 'nearly real')) if special else None
    if extra == 'line' and n >= 4:
        ctx.tag('several conjugate pairs on a vertical line')
        x = -r.uniform(lo, hi) * 0.6 if left or r.random() < 0.6 else r.choice([0.0, r.uniform(lo, hi) * 0.6])
        if x >= 0 and not origin:
            x = -r.uniform(lo, hi) * 0.6
        top = math.sqrt(max(hi * hi - x * x, 0.01))
        for y in r.permutation(np.linspace(0.3, 1.0, n // 2) * top)[:int(r.integers(2, n // 2 + 1))]:
            out += [complex(x, y), complex(x, -y)]
    elif extra == 'origin' and origin and n >= 1 and not left:
        ctx.tag('roots at the origin')
        out += [0j] * int(r.integers(1, min(n, 3) + 1))
    elif extra == 'repeated' and n >= 2:
        ctx.tag('repeated roots')
        m = math.exp(r.uniform(math.log(lo), math.log(hi)))
        a = r.uniform(math.pi / 2 + 0.1, math.pi - 0.15)
        z = [complex(-m)] if n < 4 or r.random() < 0.5 else [m * complex(math.cos(a), math.sin(a)), m * complex(math.cos(a), -math.sin(a))]
        out += z * int(r.integers(2, min(3, n // len(z)) + 1))
    elif extra == 'nearly real' and n >= 2:
        ctx.tag('nearly real pairs')
        m = math.exp(r.uniform(math.log(lo), math.log(hi)))
        y = math.exp(r.uniform(math.log(1e-8), math.log(1e-2)))
        out += [complex(-m, y), complex(-m, -y)]
    guard = 0
    while len(out) < n and guard < 500:
        guard += 1
        m = math.exp(r.uniform(math.log(lo), math.log(hi)))
        if n - len(out) >= 2 and mode != 'real' and (mode == 'complex' or r.random() < 0.6):
            a = r.uniform(0.15, math.pi - 0.15) if not left else r.uniform(math.pi / 2 + 0.1, math.pi - 0.15)
            z = [m * complex(math.cos(a), math.sin(a))]
            z.append(z[0].conjugate())
        else:
            z = [complex(-m if left or r.random() < 0.6 else m)]
        if all(abs(a - b) > 0.02 for a in z for b in out):
            out += z
    out = np.array(out, complex)
    out = out[r.permutation(out.size)]
    if out.size and np.all(out.imag == 0) and ctx.chance(0.6):
        out = out.real
    return out


def give(ctx, a):
    k = ctx.u()
    if k < 0.25:
        return a.tolist()
    return a.copy()


def H(z, p, k, s):
    v = np.full(np.shape(s), complex(k))
    for x in z:
        v = v * (s - x)
    for x in p:
        v = v / (s - x)
    return v


def points(ctx, avoid, n=8, scale=1.0):
    r = ctx.rng()
    out = []
    for _ in range(400):
        s = complex(r.normal(0, 1.5), r.normal(0, 1.5)) * scale
        if all(abs(s - a) > 0.02 * scale for a in avoid) and abs(s) > 0.05 * scale:
            out.append(s)
            if len(out) == n:
                break
    if len(out) < n:
        raise Skip()
    return np.array(out)


def factors(roots, s):
    """Relative conditioning of the product of (s - root) evaluated factor by factor."""
    return sum(((np.abs(s) + abs(x)) / np.abs(s - x) for x in roots), np.zeros(np.shape(s)))


def expanded(roots, s):
    """Relative conditioning of the expanded polynomial at s."""
    v = np.full(np.shape(s), float(len(roots) + 1))
    for x in roots:
        v = v * (np.abs(s) + abs(x)) / np.abs(s - x)
    return v


def same(ctx, got, want, what, cond):
    sc = np.abs(want)
    d = np.abs(got - want) / np.maximum(sc, 1e-300)
    tol = 1e-9 + 1e-13 * cond
    hard = tol > 1e-5
    if np.any(hard):
        ctx.count('ill-conditioned points left out', int(hard.sum()))
        d = np.where(hard, 0.0, d)
    ctx.check(bool(np.all(d <= tol)), lambda: f'{what}: transfer function {got[np.argmax(d)]:.9g} where {want[np.argmax(d)]:.9g} is '
              f'expected')
    ctx.count('transfer function values compared', len(want))


def case(ctx):
    f = ctx.pick(('low_to_low', 'low_to_high', 'low_to_band', 'low_to_stop', 'bilinear', 'xyz_to_ptf', 'xyz_to_sop', 'xyz_to_sop',
                  'buttap'))
    ctx.tag('function:' + f)
    if f == 'buttap':
        n = ctx.integer(1, 40) if ctx.chance(0.9) else ctx.integer(41, 300)
        z, p, k = ctx.expect(ctx.call(B + f, n, decoy=False), f)
        p = np.asarray(p)
        ctx.check(np.size(z) == 0 and p.size == n and k == 1, f'{f}({n}): {np.size(z)} zeros, {p.size} poles, gain {k}')
        ctx.check(bool(np.all(np.abs(np.abs(p) - 1) < 1e-12) and np.all(p.real < 0)), f'{f}({n}): poles off the left unit semicircle')
        w = np.exp(ctx.rng().uniform(-0.7, 0.7, 6))
        g = np.abs(H([], p, 1, 1j * w)) ** 2
        ctx.check(bool(np.all(np.abs(g * (1 + w ** (2 * n)) - 1) < 1e-8)), f'{f}({n}): the prototype is not maximally flat')
        return
    npole = ctx.integer(1, 9) if ctx.chance(0.9) else ctx.integer(10, 24)
    nzero = ctx.integer(0, npole) if ctx.chance(0.7) else ctx.pick((0, npole))
    k = ctx.pick((1.0, 0.5, 2, -1.5, 3, ctx.uniform(0.05, 4), ctx.logu(1e-6, 1e6)))
    if f in ('low_to_low', 'low_to_high', 'low_to_band', 'low_to_stop', 'bilinear'):
        z, p = roots(ctx, nzero, origin=f not in ('low_to_high', 'low_to_stop')), \
            roots(ctx, npole, left=ctx.chance(0.7), origin=f not in ('low_to_high', 'low_to_stop'))
        if p.size < z.size:
            raise Skip()
        deg = p.size - z.size
        ctx.tag(f'relative degree {min(deg, 4)}')
        dc = ctx.pick((1.0, 2, 0.5, 3.0, ctx.logu(0.1, 10), ctx.logu(1e-3, 1e4)))
        pw = ctx.pick((1.0, 2, 0.3, ctx.logu(0.1, 10), dc * ctx.logu(0.01, 10)))
        if f in ('low_to_low', 'low_to_high'):
            a, kw = (dc,), {}
            if ctx.chance(0.15):
                a, dc = (), 1.0
            elif ctx.chance(0.2):
                a, kw = (), {'dc': dc}
        elif f == 'bilinear':
            sr = ctx.pick((1.0, 2, 0.5, 100, 25.0, ctx.logu(0.3, 50), ctx.logu(0.02, 1e4)))
            if np.any(np.abs(2 * sr - np.concatenate([z, p])) < 0.02 * sr):
                raise Skip()
            a, kw = (sr,), {}
        else:
            a, kw = (dc, pw), {}
            if ctx.chance(0.15):
                a, dc, pw = (), 1.0, 1.0
            elif ctx.chance(0.2):
                a, kw = (), {'pc': dc, 'pw': pw}
        Z, P, K = ctx.expect(ctx.call(B + f, give(ctx, z), give(ctx, p), k, *a, decoy=False, **kw), f)
        Z, P = np.asarray(Z), np.asarray(P)
        two = f in ('low_to_band', 'low_to_stop')
        ctx.check(P.size == p.size * (1 + two), f'{f}: {P.size} poles from {p.size}')
        zw = {'low_to_low': z.size, 'low_to_high': p.size, 'bilinear': p.size, 'low_to_band': 2 * z.size + deg,
              'low_to_stop': 2 * p.size}[f]
        ctx.check(Z.size == zw, lambda: f'{f}: {Z.size} zeros from {z.size} zeros and {p.size} poles, expected {zw}')
        sc = 1.0 if f == 'bilinear' else dc
        s = points(ctx, np.concatenate([Z, P]), scale=sc)
        if f == 'low_to_low':
            m = s / dc
        elif f == 'low_to_high':
            m = dc / s
        elif f == 'bilinear':
            if np.any(np.abs(s + 1) < 0.05):
                raise Skip()
            m = 2 * sr * (s - 1) / (s + 1)
        elif f == 'low_to_band':
            m = (s * s + dc * dc) / (s * pw)
        else:
            if np.any(np.abs(s * s + dc * dc) < 1e-3 * dc * dc):
                raise Skip()
            m = s * pw / (s * s + dc * dc)
        if any(np.min(np.abs(m - x)) < 1e-5 * (1 + abs(x)) for x in np.concatenate([z, p])):
            raise Skip()
        amp = 1 + (np.abs(s) ** 2 + dc * dc) / np.abs(s * s + dc * dc) if two else 1 + (2 / np.abs(s - 1) if f == 'bilinear' else 0)
        spread = 1 + (dc / pw + pw / dc if two else 0)      # rounding of the transformed roots themselves
        both = np.concatenate([z, p])
        same(ctx, H(Z, P, np.real(K), s), H(z, p, k, m), f'{f}{a}',
             factors(np.concatenate([Z, P]), s) * spread + factors(both, m) * amp)
        return
    if f == 'xyz_to_ptf':
        z, p = roots(ctx, nzero), roots(ctx, npole)
        rows = 1
        if ctx.chance(0.12):        # systems with complex coefficients
            r = ctx.rng()
            z, p = (a * np.exp(1j * r.uniform(0.2, 1.2)) if r.random() < 0.7 else a for a in (z, p))
            if r.random() < 0.3:
                p = np.where(np.imag(p) > 0, p + 0.1j, p)
            ctx.tag('complex coefficients')
            b, a = ctx.expect(ctx.call(B + f, give(ctx, z), give(ctx, p), k, decoy=False), f)
            b, a = np.asarray(b), np.asarray(a)
            ctx.check(b.shape == (z.size + 1,) and a.shape == (p.size + 1,), f'{f}: shapes {b.shape} {a.shape}')
            s = points(ctx, np.concatenate([z, p]))
            same(ctx, np.polyval(b, s) / np.polyval(a, s), H(z, p, k, s), f, expanded(z, s) + expanded(p, s))
            return
        if ctx.chance(0.1) and z.size:
            rows = ctx.integer(2, 3)
            zz = np.array([z * (1 + 0.3 * i) for i in range(rows)])
            kk = [k * (i + 1) for i in range(rows)] if ctx.chance(0.5) else k
            ctx.tag('several outputs')
            b, a = ctx.expect(ctx.call(B + f, zz, give(ctx, p), kk, decoy=False), f)
            b, a = np.asarray(b), np.asarray(a)
            ctx.check(b.shape == (rows, z.size + 1), f'{f}: numerator shape {b.shape}')
            kk = kk if isinstance(kk, list) else [kk] * rows
            s = points(ctx, np.concatenate([zz.ravel(), p]))
            for i in range(rows):
                same(ctx, np.polyval(b[i], s) / np.polyval(a, s), H(zz[i], p, kk[i], s), f, expanded(zz[i], s) + expanded(p, s))
            return
        b, a = ctx.expect(ctx.call(B + f, give(ctx, z), give(ctx, p), k, decoy=False), f)
        b, a = np.asarray(b), np.asarray(a)
        ctx.check(b.shape == (z.size + 1,) and a.shape == (p.size + 1,), f'{f}: shapes {b.shape} {a.shape}')
        ctx.check(b.dtype.kind == 'f' and a.dtype.kind == 'f', lambda: f'{f}: coefficients of a real system are {b.dtype} {a.dtype}')
        ctx.check(abs(a[0] - 1) < 1e-12 and abs(b[0] - k) < 1e-9 * abs(k), lambda: f'{f}: leading coefficients {b[0]} {a[0]}')
        s = points(ctx, np.concatenate([z, p]))
        same(ctx, np.polyval(b, s) / np.polyval(a, s), H(z, p, k, s), f, expanded(z, s) + expanded(p, s))
        return
    # second-order sections
    ag = ctx.chance(0.35)
    pg = None
    if ag:
        pg = ctx.pick((None, 'ml'))
    elif ctx.chance(0.7):
        pg = ctx.pick(('nr', 'kd', 'ml'))
    eff = pg or ('ml' if ag else 'nr')
    if eff != 'ml' and ctx.chance(0.15):
        nzero = npole + ctx.integer(1, 4)         # digital systems may have more zeros than poles
        ctx.tag('more zeros than poles')
    z, p = roots(ctx, nzero, 0.2, 1.6), \
        roots(ctx, npole, 0.2, ctx.pick((0.97, 0.97, 0.97, 0.97, 1.6)) if not ag else 3.0, left=ag and ctx.chance(0.8))
    if ctx.chance(0.05):
        z = p = np.array([])
        ctx.tag('no poles or zeros')
    if eff == 'ml' and z.size > p.size:
        raise Skip()
    if ctx.chance(0.25) and np.iscomplexobj(p):
        # conjugates that agree only up to rounding, as computed systems have them
        r = ctx.rng()
        jitter = lambda a: np.where(a.imag != 0, a.real * (1 + 2.0 ** -52 * r.integers(-1, 2, a.size)) + 1j * a.imag, a)
        p = jitter(p)
        if np.iscomplexobj(z):
            z = jitter(z)
        ctx.tag('conjugates up to rounding')
    kw = {}
    if pg is not None:
        kw['pg'] = pg
    if ag or ctx.chance(0.2):
        kw['ag'] = ag
    ctx.tag(f'pairing {eff}', 'analog' if ag else 'digital')
    # SciPy's own conversion follows the same documented pairing; systems it cannot section are outside the domain
    try:
        want = sps.zpk2sos(z, p, k, pairing={'nr': 'nearest', 'kd': 'keep_odd', 'ml': 'minimal'}[eff], analog=ag)
    except Exception:
        raise Skip()
    sop = np.asarray(ctx.expect(ctx.call(B + f, z.copy(), p.copy(), k, decoy=False, **kw), f))
    n_sec = max(1, (max(p.size, z.size) + 1) // 2)
    ctx.check(sop.shape == (n_sec, 6) and sop.dtype.kind == 'f', lambda: f'{f}: sections of shape {sop.shape} {sop.dtype}')
    if not z.size and not p.size:
        want_row = [0., 0., k, 0., 0., 1.] if ag else [k, 0., 0., 1., 0., 0.]
        ctx.check(close(sop[0], np.array(want_row, float), 1e-12), f'{f}: a pure gain became {sop}')
        return
    s = points(ctx, np.concatenate([z, p]))
    pad = max(p.size, z.size) if not ag and eff != 'ml' else 0
    v = np.ones(len(s), complex)
    for c in sop:
        v = v * np.polyval(c[:3], s) / np.polyval(c[3:], s)
    target = H(z, p, k, s)
    if not ag and eff != 'ml' and z.size != p.size:      # padded with zeros at the origin (delays)
        target = target * s ** (max(p.size, z.size) - z.size) / s ** (max(p.size, z.size) - p.size)
    secs = sum(np.polyval(np.abs(c[i:i + 3]), np.abs(s)) / np.maximum(np.abs(np.polyval(c[i:i + 3], s)), 1e-300)
               for c in sop for i in (0, 3))
    same(ctx, v, target, f'{f} pairing {eff}', secs)
    if {'repeated roots', 'several conjugate pairs on a vertical line', 'roots at the origin'} & set(ctx.tags):
        return          # equally critical poles, equally near zeros: several pairings fit the description
    # every section carries the poles and zeros the documented pairing gives it, the most critical poles last
    d = np.abs(sop - want)
    sc = np.maximum(np.abs(sop), np.abs(want))
    ctx.check(bool(np.all(d <= 1e-6 * (1 + sc))), lambda: f'{f} pairing {eff}: section {int(np.argmax(d.max(1)))} is '
              f'{sop[int(np.argmax(d.max(1)))]}, expected {want[int(np.argmax(d.max(1)))]}')
    ctx.count('sections compared', n_sec)
