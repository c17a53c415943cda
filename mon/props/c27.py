"""C27 bounded scalar minimiser."""
import math

from .common import *

FILES = ['proadv/statistics/optimize/optimize.py']
CASES = {'quick': 450000, 'thorough': 4800000}
M = S + 'optimize.optimize.fminbound'


def case(ctx):
    r = ctx.pick((0.0, 2.0, -1.0, ctx.uniform(-20, 20), ctx.logu(1e-5, 1e3), -ctx.logu(1e-5, 1e3)))
    k = ctx.pick(('abs', 'quad', 'p15', 'quart', 'cosh', 'skew', 'inc', 'dec', 'multi', 'plateau', 'notch', 'args'))
    w1, w2 = ctx.logu(1e-3, 100), ctx.logu(1e-3, 100)
    lo, hi = r - w1, r + w2
    c = ctx.logu(1e-3, 1e3)
    best = r
    unimodal = True
    params = ()
    base = ctx.pick((0.0, 0.0, 1.0, -3.0))
    if k == 'abs':
        f = lambda x: c * abs(x - r)
    elif k == 'quad':
        f = lambda x: c * (x - r) ** 2
    elif k == 'p15':
        f = lambda x: c * abs(x - r) ** 1.5
    elif k == 'quart':
        f = lambda x: c * (x - r) ** 4
    elif k == 'cosh':
        f = lambda x: abs(math.expm1(min(x - r, 50.0))) + abs(x - r)
    elif k == 'skew':
        f = lambda x: (x - r) if x > r else 5 * (r - x)
    elif k == 'inc':
        f = lambda x: c * x
        best = lo
    elif k == 'dec':
        f = lambda x: -c * x
        best = hi
    elif k == 'multi':
        f = lambda x: math.sin(3 * x) + 0.1 * (x - r) ** 2
        unimodal = False
    elif k == 'plateau':
        f = lambda x: max(abs(x - r) - 0.3 * min(w1, w2), 0.0)
        unimodal = False
    elif k == 'notch':
        f = lambda x: math.floor(4 * abs(x - r)) * 1.0
        unimodal = False
    else:
        p1, p2 = ctx.uniform(0.5, 3), ctx.uniform(-1, 1)
        params = (p1, p2)
        f = lambda x, a, b: a * abs(x - r) + 0 * b
        if ctx.chance(0.6):
            params = tuple(ctx.uniform(0.5, 3) for _ in range(ctx.integer(1, 8)))
            f = lambda x, *q: sum(q) * abs(x - r)
        if ctx.chance(0.1):
            params = params[:1] * 2
            f = lambda x, a, b: a * abs(x - r) + 0 * b
    ctx.tag('function:' + k)
    kw = {}
    tol, maxe = 1e-5, 500
    if ctx.chance(0.6):
        tol = ctx.pick((1e-2, 1e-3, 1e-6, 1e-8, 0.1, ctx.logu(1e-9, 1e-2)))
        kw['tolerance'] = tol
    if ctx.chance(0.4):
        maxe = ctx.pick((2, 3, 4, 5, 8, 12, 20, 50, 200))
        kw['max_evaluations'] = maxe
    if params:
        kw['parameters'] = params
    det = ctx.chance(0.8)
    if det:
        kw['detailed_output'] = True
    if base and k in ('abs', 'skew', 'inc', 'dec'):
        g = f
        f = lambda x, *p: g(x, *p) + base
    ev = []

    def probe(x, *p):
        v = f(float(x), *p)
        ev.append((float(x), float(v), p))
        return v
    o = ctx.call(M, probe, lo, hi, decoy=False, **kw)
    ctx.fingerprint(k, r, lo, hi, c)
    res = ctx.expect(o, 'bounded minimiser')
    ctx.count('function evaluations observed', len(ev))
    bad = [e[0] for e in ev if not lo <= e[0] <= hi]
    ctx.check(not bad, lambda: f'bounded minimiser evaluated at {bad[0]!r}, outside [{lo!r}, {hi!r}]')
    ctx.check(all(e[2] == params for e in ev), 'bounded minimiser: extra parameters not passed on')
    if det:
        ctx.check(len(res) == 4, f'bounded minimiser: detailed output {res!r}')
        x, fv, flag, ne = res
        ctx.check(int(ne) == len(ev), lambda: f'bounded minimiser reports {ne} evaluations, {len(ev)} were made')
        ctx.check(flag in (0, 1), f'flag {flag!r}')
        ctx.check((flag == 1) == (len(ev) >= maxe), lambda: f'flag {flag} after {len(ev)} of {maxe} evaluations')
    else:
        x = res
        fv = None
        flag = 1 if len(ev) >= maxe else 0
    x = float(x)
    ctx.check(len(ev) <= maxe, lambda: f'bounded minimiser made {len(ev)} evaluations, {maxe} allowed')
    ctx.check(lo <= x <= hi, lambda: f'bounded minimiser returned {x!r}, outside [{lo!r}, {hi!r}]')
    vb = min(e[1] for e in ev)
    ctx.check(f(x, *params) == vb, lambda: f'bounded minimiser returned {x!r} with value {f(x, *params)!r}, it had evaluated {vb!r}')
    if fv is not None:
        ctx.check(float(fv) == f(x, *params), lambda: f'bounded minimiser reports the value {fv!r} at {x!r}, it is {f(x, *params)!r}')
    if unimodal and flag == 0:
        t = tol + 4e-8 * abs(x) + 1e-12
        if base:
            t += 1e-14 * (abs(base) + abs(f(x, *params))) / max(min(c, 1.0), 1e-300) + 1e-12
        if k == 'quart':
            t += 1e-70
        ctx.check(abs(x - best) <= t, lambda: f'bounded minimiser returned {x!r}, the minimum is at {best!r} '
                  f'(function {k}, bounds [{lo!r}, {hi!r}], tolerance {tol})')
        ctx.tag('converged on a unimodal function')
    if flag == 1:
        ctx.tag('evaluation limit')
    ctx.count('minimisations')
