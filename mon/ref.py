"""Independent reference models (oracles).  Nothing here imports proadv."""
import math

import numpy as np

from .gen import runs


# --------------------------------------------------------------------------- smoothing
def sma(x, w):
    """Mean of the last min(i+1, w) samples."""
    x = np.asarray(x, dtype=np.longdouble)
    c = np.concatenate(([np.longdouble(0)], np.cumsum(x)))
    i = np.arange(x.size)
    lo = np.maximum(0, i + 1 - w)
    return np.asarray((c[i + 1] - c[lo]) / (i + 1 - lo), dtype=float)


def ema(x, alpha):
    out = np.empty(len(x))
    a = None
    for i, v in enumerate(np.asarray(x, dtype=float).tolist()):
        a = v if a is None else alpha * v + (1 - alpha) * a
        out[i] = a
    return out


def wma(x, p):
    """Linearly weighted means of the windows x[j:j+p], j = 0 .. n-p-1."""
    x = np.asarray(x, dtype=float)
    n = x.size
    out = np.zeros(n - p)
    for k in range(1, p + 1):
        out += k * x[k - 1:k - 1 + n - p]
    return out * 2.0 / (p * (p + 1))


def kalman(x, x0, p0, q, r):
    s, p = float(x0), float(p0)
    out = []
    for z in np.asarray(x, dtype=float).tolist():
        p = p + q
        k = p / (p + r)
        s = s + k * (z - s)
        p = (1 - k) * p
        out.append(s)
    return np.array(out)


class Ambiguous(Exception):
    pass


def ssa(x, fs, f):
    """Singular spectrum analysis keeping the eigenvectors no rougher than a sinusoid of the cut-off frequency."""
    x = np.asarray(x, dtype=float)
    n = x.size
    ratio = fs / f
    L = int(math.ceil(ratio))
    k = n - L + 1
    if abs(ratio - round(ratio)) < 1e-9 and ratio != round(ratio):
        raise Ambiguous('window length')
    idx = np.arange(L)[:, None] + np.arange(k)[None, :]
    T = x[idx]
    C = T @ T.T
    w, V = np.linalg.eigh(C)

    def rough(v):
        a = round(float(np.sqrt(np.sum(v * v))) / v.size, 4)
        b = float(np.sqrt(np.sum(np.diff(v) ** 2))) / (v.size - 1)
        return b, a
    tb, ta = rough(np.sin(2 * np.pi * np.arange(L) * f / fs))
    frac = float(np.sqrt(np.sum(np.sin(2 * np.pi * np.arange(L) * f / fs) ** 2))) / L * 1e4
    if abs(frac - math.floor(frac) - 0.5) < 1e-6 or ta == 0:
        raise Ambiguous('threshold rounding')
    thr = tb / ta
    fr1 = 1e4 / L
    if abs(fr1 - math.floor(fr1) - 0.5) < 1e-6 or round(1 / L, 4) == 0:
        raise Ambiguous('norm rounding')
    mob = np.array([rough(V[:, j])[0] / round(1.0 / L, 4) for j in range(L)])
    sel = mob <= thr
    if np.any(np.abs(mob - thr) < 1e-6 * thr):
        raise Ambiguous('threshold')
    # eigenvectors must be numerically well determined wherever the choice depends on them
    top = max(abs(w).max(), 1e-300)
    groups, cur = [], [0]
    for j in range(1, L):
        if (w[j] - w[j - 1]) < 1e-7 * top:
            cur.append(j)
        else:
            groups.append(cur)
            cur = [j]
    groups.append(cur)
    for g in groups:
        if len(g) > 1:
            # a (nearly) degenerate group matters only through its contribution to the data
            contrib = math.sqrt(max(float(np.sum(np.abs(w[g]))), 0.0))
            if contrib > 1e-7 * (1 + np.abs(x).max()):
                raise Ambiguous('degenerate eigenvalues')
    P = V[:, sel] @ V[:, sel].T @ T
    out = np.zeros(n)
    cnt = np.zeros(n)
    np.add.at(out, idx, P)
    np.add.at(cnt, idx, 1)
    return out / cnt, L


# --------------------------------------------------------------------------- replacement
def last_valid(x, s):
    out = np.array(x, dtype=float)
    known = np.ones(out.size, bool)
    known[s] = False
    last = None
    lead = []
    for i in range(out.size):
        if known[i]:
            last = out[i]
        elif last is None:
            lead.append(i)
        else:
            out[i] = last
    return out, lead


def linear(x, s):
    x = np.asarray(x, dtype=float)
    n = x.size
    out = x.copy()
    m = float(np.mean(x.astype(np.longdouble))) if n else 0.0
    for a, b in runs(s):
        if b >= n - 1:
            out[a:b + 1] = m
        elif a == 0:
            out[a:b + 1] = x[b + 1]
        else:
            for i in range(a, b + 1):
                f = (i - (a - 1)) / (b + 1 - (a - 1))
                out[i] = x[a - 1] * (1 - f) + x[b + 1] * f
    return out


def cubic12(x, s, rnd=None):
    """rnd(v): the four-decimal rounding used near the boundaries."""
    from scipy.interpolate import CubicSpline
    rnd = rnd or (lambda v: np.around(v, 4))
    x = np.asarray(x, dtype=float)
    n = x.size
    bad = np.zeros(n, bool)
    bad[s] = True
    out = x.copy()
    good = np.nonzero(~bad)[0]
    xs = np.r_[1:13, 14:26].astype(float)
    cubic = 0
    for i in s:
        i = int(i)
        nxt = good[np.searchsorted(good, i):][:12]
        if i <= 30 or i >= n - 30 or nxt.size < 12:
            parts = []
            if i > 0:
                parts.append(out[i - 1])
            if nxt.size:
                parts.append(x[nxt[0]])
            out[i] = rnd(sum(parts) / len(parts))
        else:
            out[i] = CubicSpline(xs, np.r_[out[i - 12:i], x[nxt]], bc_type='not-a-knot')(13.0)
            cubic += 1
    return out, cubic


def polyfit_predict(y, degree):
    """Value at the next position of the least-squares polynomial through equispaced y."""
    m = len(y)
    t = (np.arange(m) - (m - 1) / 2.0) / max(m / 2.0, 1.0)
    A = np.polynomial.legendre.legvander(t, degree)
    c, *_ = np.linalg.lstsq(A, np.asarray(y, dtype=float), rcond=None)
    tn = (m - (m - 1) / 2.0) / max(m / 2.0, 1.0)
    return float(np.polynomial.legendre.legval(tn, c))


def monomial_condition(lo, hi, degree):
    """Condition number of fitting i, i^2, ... on lo..hi-1 (after centring)."""
    if degree == 0:
        return 1.0
    i = np.arange(lo, hi, dtype=float)
    A = np.column_stack([i ** k for k in range(1, degree + 1)])
    sv = np.linalg.svd(A - A.mean(0), compute_uv=False)
    return float(sv[0] / sv[-1]) if sv[-1] > 0 else np.inf


def polynomial(x, s, window, degree, decimals, jitter=None, early_jitter=0.0, info=None):
    """jitter: relative error put on every fit; early_jitter: absolute error put on the early, rounded samples."""
    out = np.array(x, dtype=float)
    early = [int(i) for i in s if i <= 10]
    done = False
    for i in (int(v) for v in s):
        if i == 0:
            out[0] = np.mean(out)
        elif i <= 10:
            if not done:
                raw = linear(out, early)
                if info is not None:
                    k = raw * 10.0 ** decimals
                    info['tie'] = bool(np.any(np.abs(k - np.floor(k) - 0.5) < 1e-6 + 1e-12 * np.abs(k)))
                out = np.around(raw, decimals)
                if jitter is not None:
                    out = out + np.sign(jitter) * early_jitter
                done = True
        else:
            lo = 0 if i <= window - 1 else i - window
            seg = out[lo:i]
            out[i] = polyfit_predict(seg, degree)
            if jitter is not None or info is not None:
                cond = monomial_condition(lo, i, degree)
                if info is not None:
                    info['cond'] = max(info.get('cond', 1.0), cond)
                if jitter is not None:
                    out[i] += jitter[i] * max(1.0, cond * 1e-7) * np.max(np.abs(seg))
    return out


# --------------------------------------------------------------------------- detection
def accel(v, freq, tag, gravity=980, kg=1.5, ks=1, exact=False):
    """-> (certain set, undecided set)"""
    v = np.asarray(v, dtype=float)
    d = np.concatenate(([0.0], (v[1:] - v[:-1]) * freq))
    m = float(np.mean(v.astype(np.longdouble)))
    sd = float(np.sqrt(np.mean((v.astype(np.longdouble) - m) ** 2)))
    sgn = 1.0 if tag == 1 else -1.0
    a = sgn * d - kg * gravity
    b = sgn * v - (sgn * m + ks * sd)
    ta = 1e-9 * (abs(kg * gravity) + np.abs(d)) + 1e-12 * freq * np.max(np.abs(v))
    tb = 1e-9 * (abs(m) + abs(ks) * sd + np.abs(v))
    yes = (a > ta) & (b > tb)
    no = (a < -ta) | (b < -tb)
    # exactly representable comparisons are decidable
    if exact:
        yes = (a > 0) & (b > 0)
        return yes, np.zeros(v.size, bool)
    if float(freq).is_integer() and np.all(v == np.round(v)) and float(kg * 4).is_integer() and float(gravity).is_integer():
        ea = a == 0
        no = no | ea
    return yes, ~(yes | no)


def rho_from(x, y, th, a, b):
    xr = x * math.cos(th) + y * math.sin(th)
    yr = y * math.cos(th) - x * math.sin(th)
    return (xr / a) ** 2 + (yr / b) ** 2


def ellipse_axes2(s1, s2, th, lam):
    """Squared semi-axes of the ellipse with the given shadow lengths in the rotated frame."""
    c2, n2 = math.cos(th) ** 2, math.sin(th) ** 2
    f = c2 * c2 - n2 * n2
    r1, r2 = (lam * s1) ** 2, (lam * s2) ** 2
    A = (r1 * c2 - r2 * n2, r2 * c2 - r1 * n2)
    noise = 1e-9 * (r1 + r2)
    return A[0] / f if f else math.nan, A[1] / f if f else math.nan, abs(f) < 1e-8 or abs(A[0]) < noise or abs(A[1]) < noise


def pstd(x):
    x = np.asarray(x, dtype=np.longdouble)
    return float(np.sqrt(np.mean((x - np.mean(x)) ** 2)))


def mad(x):
    return float(np.median(np.abs(x - np.median(x))))


# --------------------------------------------------------------------------- KDE
def gauss_kde(vals, pos):
    """Gaussian KDE (Scott's rule) of 2 x n values at 2 x m positions."""
    d, n = vals.shape
    C = np.cov(vals) * n ** (-2.0 / (d + 4))
    Ci = np.linalg.inv(C)
    norm = 1.0 / (2 * np.pi * math.sqrt(np.linalg.det(C)) * n)
    out = np.zeros(pos.shape[1])
    Lw = np.linalg.cholesky(Ci)
    a = Lw.T @ vals
    b = Lw.T @ pos
    for j in range(0, pos.shape[1], 512):
        d2 = (b[0, j:j + 512, None] - a[0][None]) ** 2 + (b[1, j:j + 512, None] - a[1][None]) ** 2
        out[j:j + 512] = np.exp(-0.5 * d2).sum(1)
    return out * norm


def cutoff_index(prof, peak, density_peak, c1, c2, grid, exact=False):
    """(lower, upper) cut-off indices, or Ambiguous when a comparison is too close to call (never, with exact)."""
    n = prof.size
    delta = np.concatenate(([0.0], np.diff(prof))) * grid / density_peak

    def below(i):
        r = prof[i] / prof[peak]
        s = abs(delta[i])
        if exact:
            return bool(r <= c1 and s <= c2)
        t1 = 1e-8 * max(c1, 1e-12) + 1e-13
        t2 = 1e-8 * max(c2, 1e-12) + 1e-10
        if r > c1 + t1 or s > c2 + t2:
            return False
        if r <= c1 - t1 and s <= c2 - t2:
            return True
        raise Ambiguous('cutoff')
    lo = 1
    for i in range(peak - 1, 0, -1):
        if below(i):
            lo = i
            break
    hi = n - 1
    for i in range(peak + 1, n - 1):
        if below(i):
            hi = i
            break
    return lo, hi


# --------------------------------------------------------------------------- spectrum
def welch_psd(x, fs, overlap_pct, block, onesided):
    x = np.asarray(x, dtype=float)
    nov = int(block * overlap_pct / 100)
    step = block - nov
    w = 0.5 - 0.5 * np.cos(2 * np.pi * np.arange(block) / (block - 1)) if block > 1 else np.ones(1)
    segs = []
    j = 0
    while j + block <= x.size:
        segs.append(x[j:j + block])
        j += step
    S = np.array(segs)
    S = (S - S.mean(1, keepdims=True)) * w
    F = np.fft.fft(S, axis=1)
    P = (np.abs(F) ** 2).mean(0) / (fs * np.sum(w * w))
    if onesided:
        m = block // 2 + 1
        P = P[:m].copy()
        if block % 2:
            P[1:] *= 2
        else:
            P[1:-1] *= 2
        return np.arange(m) * fs / block, P, len(segs)
    k = np.arange(block)
    k = np.where(k < (block + 1) // 2, k, k - block)
    return k * fs / block, P, len(segs)
