"""C26 bracketing root finder."""
import math

from .common import *

FILES = ['proadv/statistics/optimize/optimize.py']
CASES = {'quick': 600000, 'thorough': 6000000}
M = S + 'optimize.optimize.brentq'


def function(ctx, r):
    """Strictly monotone (or sign-changing once) functions with the exactly known root r."""
    k = ctx.pick(('linear', 'cube', 'quint', 'exp', 'atan', 'step', 'sqrt', 'steep', 'log', 'flat9', 'kink', 'quad', 'sinh',
                  'hyper', 'slowtail'))
    c = ctx.logu(1e-3, 1e3)
    sg = ctx.pick((1.0, -1.0))
    ctx.tag('function:' + k)
    tab = {
        'linear': lambda x: c * (x - r),
        'cube': lambda x: c * (x - r) ** 3,
        'quint': lambda x: c * (x - r) ** 5,
        'exp': lambda x: c * math.expm1(max(min((x - r), 300), -700)),
        'atan': lambda x: math.atan(c * (x - r)),
        'step': lambda x: -1.0 if x < r else 1.0,
        'sqrt': lambda x: math.copysign(math.sqrt(abs(x - r)), x - r),
        'steep': lambda x: math.tanh(1e4 * (x - r)),
        'log': lambda x: math.copysign(math.log1p(abs(x - r)), x - r),
        'flat9': lambda x: (x - r) ** 9,
        'kink': lambda x: (x - r) * (1e-3 if x < r else 1e3),
        'quad': lambda x: (x - r) * (2 + math.tanh(x - r)),
        'sinh': lambda x: math.sinh(max(min(3 * (x - r), 600), -600)),
        'hyper': lambda x: 1 - 1 / (1 + (x - r)) if x > r - 0.999 else -999.0 + (x - r),
        'slowtail': lambda x: (x - r) / (1 + (x - r) ** 2),
    }
    f = tab[k]
    if ctx.chance(0.12):        # values of any magnitude
        sg *= ctx.pick((1e-120, 1e-160, 1e-200, 1e-280, 1e120, 1e200, ctx.logu(1e-290, 1e250)))
        ctx.tag('values of unusual magnitude')
    return (lambda x: sg * f(float(x))), k


def case(ctx):
    r = ctx.pick((0.0, 1.0, -2.5, ctx.uniform(-50, 50), ctx.logu(1e-6, 1e4), -ctx.logu(1e-6, 1e4)))
    f, k = function(ctx, r)
    wa, wb = ctx.logu(1e-4, 100), ctx.logu(1e-4, 100)
    where = ctx.u()
    a, b = r - wa, r + wb
    if where < 0.06:
        a = r
    elif where < 0.12:
        b = r
    if not a < b:
        raise Skip()
    if f(a) != 0 and f(b) != 0 and (f(a) > 0) == (f(b) > 0):     # a drawn function that does not change sign (underflow)
        raise Skip()
    kw = {}
    xtol = rtol = 1.48e-8
    if ctx.chance(0.6):
        xtol = ctx.pick((1e-3, 1e-6, 1e-10, 1e-12, 0.1, ctx.logu(1e-12, 1e-2)))
        kw['xtol'] = xtol
    if ctx.chance(0.5):
        rtol = ctx.pick((1e-3, 1e-6, 1e-10, 1e-12, ctx.logu(1e-12, 1e-3)))
        kw['rtol'] = rtol
    maxiter = 500
    if ctx.chance(0.35):
        maxiter = ctx.pick((1, 2, 3, 5, 8, 12, 20, 40, 100, 1000))
        kw['maxiter'] = maxiter
    full = ctx.chance(0.6)
    if full:
        kw['full_output'] = True
    calls = []

    def probe(x):
        calls.append(float(x))
        return f(x)
    if len(kw) == 4 and full and ctx.chance(0.3):
        o = ctx.call(M, probe, a, b, xtol, rtol, maxiter, True, decoy=False)
    else:
        o = ctx.call(M, probe, a, b, decoy=False, **kw)
    ctx.fingerprint(k, r, a, b)
    ctx.count('function evaluations observed', len(calls))
    out_of = [x for x in calls if not a <= x <= b]
    ctx.check(not out_of, lambda: f'root finder evaluated the function at {out_of[0]!r}, outside [{a!r}, {b!r}]')
    ctx.check(len(calls) <= maxiter + 2, f'root finder made {len(calls)} evaluations with maxiter={maxiter}')
    if f(a) == 0 or f(b) == 0:
        root = ctx.expect(o, 'root finder')
        if full:
            ctx.check(isinstance(root, dict), f'root finder: full output is {root!r}')
            ctx.check(root['converged'] is True or root['converged'] == True, 'root at an endpoint not reported as converged')
            ctx.check(root['function_calls'] == len(calls), lambda: f'root finder reports {root["function_calls"]} function calls, '
                      f'{len(calls)} were made (root at an end point)')
            ctx.check(0 <= root['iterations'] <= maxiter, lambda: f'root finder reports {root["iterations"]} iterations of {maxiter}')
            root = root['root']
        ctx.check(f(root) == 0, lambda: f'root finder returned {root!r} although the end point is a root')
        ctx.tag('root at an end point')
        return
    if not o.ok:
        ctx.check(not full and isinstance(o.exc, ValueError), lambda: f'root finder raised {o.exc!r}')
        ctx.check(len(calls) == maxiter + 2, lambda: f'root finder gave up after {len(calls)} evaluations with maxiter={maxiter}')
        need = math.log2(max((b - a) / (xtol + rtol * min(abs(a), abs(b))), 1.0))
        ctx.check(maxiter < (need + 2) ** 2 + 8, f'root finder failed to converge within {maxiter} iterations (bisection needs {need:.0f})')
        ctx.tag('not converged')
        return
    res = o.value
    conv = True
    if full:
        ctx.check(isinstance(res, dict) and {'root', 'function_calls', 'iterations', 'converged', 'flag'} <= set(res),
                  lambda: f'root finder: full output is {res!r}')
        conv = bool(res['converged'])
        ctx.check(res['function_calls'] == len(calls), lambda: f'root finder reports {res["function_calls"]} function calls, '
                  f'{len(calls)} were made (converged={conv})')
        ctx.check(1 <= res['iterations'] <= maxiter, lambda: f'root finder reports {res["iterations"]} iterations of {maxiter}')
        ctx.check((res['flag'] == 'converged') == conv, lambda: f'flag {res["flag"]!r} with converged={conv}')
        if not conv:
            ctx.check(len(calls) == maxiter + 2, lambda: f'root finder gave up after {len(calls)} evaluations with maxiter={maxiter}')
        root = res['root']
    else:
        root = res
    root = float(root)
    ctx.check(a <= root <= b, lambda: f'root {root!r} outside [{a!r}, {b!r}]')
    if conv:
        tol = xtol + rtol * abs(root) + 4e-16 * max(abs(a), abs(b))
        ctx.check(abs(root - r) <= tol or f(root) == 0, lambda: f'root finder returned {root!r}, the root {r!r} is further than '
                  f'xtol={xtol} + rtol={rtol} |x| away (function {k}, bracket [{a!r}, {b!r}])')
        ctx.tag('converged')
    else:
        ctx.tag('not converged')
