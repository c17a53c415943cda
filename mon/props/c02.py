"""C02 a result depends on the arguments alone: not on earlier calls, other threads or reused buffers; no global side effects."""
import os
import pickle
import struct
import sys
import threading
import time
import warnings

from . import catalog
from .c01 import FILES, leaves
from .common import *
from ..core import Ctx, guarded, resolve, Coverage

CASES = {'quick': 4500, 'thorough': 60000}
RULE = ('each case is a history of 2-6 calls of public functions; the same calls are replayed in a process that has made none '
        'before, in other orders, on other data in the same buffers, and concurrently in threads with forced switches inside the '
        'library; all outcomes are compared bit by bit. Distinct = the calls and their data differ')
ASSUMPTIONS = ['BLAS runs single-threaded and is deterministic for identical buffers', 'alignment of identical values may differ '
               'between buffers: cross-buffer comparisons allow 1e-9 relative difference, same-buffer ones none']

ZYGOTE = None
MON = 3


def _codes():
    c = Coverage()
    codes = set()
    for name, m in list(sys.modules.items()):
        if not name.startswith('proadv') or '.tests' in name or m is None:
            continue
        for v in list(vars(m).values()):
            if hasattr(v, '__code__') and str(getattr(v, '__module__', '')).startswith('proadv'):
                c._walk(v.__code__, codes)
    return codes


def _read(fd, n):
    b = b''
    while len(b) < n:
        x = os.read(fd, n - len(b))
        if not x:
            raise EOFError
        b += x
    return b


def setup(tier):
    """A process forked before any library call; for each request it forks a pristine child that replays the calls."""
    global ZYGOTE
    ra, wa = os.pipe()
    rb, wb = os.pipe()
    if os.fork() == 0:
        try:
            os.close(wa)
            os.close(rb)
            while True:
                n, = struct.unpack('<q', _read(ra, 8))
                req = pickle.loads(_read(ra, n))
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    try:
                        out = pickle.dumps(_replay(req))
                    except BaseException as e:
                        out = pickle.dumps(('error', repr(e)))
                    os.close(r)
                    with os.fdopen(w, 'wb') as f:
                        f.write(out)
                    os._exit(0)
                os.close(w)
                with os.fdopen(r, 'rb') as f:
                    data = f.read()
                os.waitpid(pid, 0)
                os.write(wb, struct.pack('<q', len(data)))
                with os.fdopen(os.dup(wb), 'wb') as f:
                    f.write(data)
        except BaseException:
            pass
        finally:
            os._exit(0)
    os.close(ra)
    os.close(wb)
    ZYGOTE = (wa, rb)


def _ask(req):
    w, r = ZYGOTE
    b = pickle.dumps(req)
    with os.fdopen(os.dup(w), 'wb') as f:
        f.write(struct.pack('<q', len(b)) + b)
    n, = struct.unpack('<q', _read(r, 8))
    return pickle.loads(_read(r, n))


def _variant(ctx, base):
    """The same function again: other data of the same shape (nearly the same, same sum, same ends ...), other parameters, or both."""
    path, args, kw, like = base
    args = [a.copy() if isinstance(a, np.ndarray) else list(a) if isinstance(a, list) else a for a in args]
    kw = dict(kw)
    data = [i for i, a in enumerate(args) if isinstance(a, np.ndarray) and a.dtype == float and a.ndim <= 2 and a.size > 2]
    what = ctx.pick(('data', 'data', 'parameters', 'nudged parameters', 'both'))
    if what == 'nudged parameters':
        r = ctx.rng()
        nudge = lambda v: v * (1 + r.uniform(-0.06, 0.06)) if isinstance(v, float) and r.random() < 0.6 else v
        args = [nudge(a) if i else a for i, a in enumerate(args)]
        kw = {k: nudge(v) for k, v in kw.items()}
    elif what != 'data':
        p2, a2, k2 = catalog.draw(ctx, like)
        if p2 == path and len(a2) == len(args):
            n = args[data[0]].size if data else 0
            for i, v in enumerate(a2):
                if i in data or ctx.chance(0.4):
                    continue
                if isinstance(v, np.ndarray) and v.dtype.kind == 'i' and n:
                    v = v[v < n]
                elif type(v) is int and ctx.chance(0.1):
                    v = float(v)
                args[i] = v
            if ctx.chance(0.6):
                kw = k2
    if what in ('data', 'both') and not path.startswith(S + 'signal.butter'):
        r = ctx.rng()
        for i in data:
            a = args[i]
            f = a.ravel()                     # a view: these arrays are contiguous copies
            sd = np.std(a[np.isfinite(a)]) + 1e-6 if np.any(np.isfinite(a)) else 1.0
            m = r.integers(9)
            j = int(r.integers(1, f.size - 1))
            if m == 0:
                a += r.normal(0, 1, a.shape) * sd
            elif m == 1:
                f[:] = f[::-1].copy()
            elif m == 2:
                f[j] += 5 * sd
            elif m == 3:
                f[:] = r.permutation(f)
            elif m == 4:
                f[j] += 1e-3 * sd
            elif m == 5:
                f[1:-1] = r.permutation(f[1:-1])
            elif m == 6:
                f *= -1
            elif m == 7:
                f[j:] = np.roll(f[j:], 1)
            else:
                a += sd
    ctx.tag('variant: ' + what)
    return path, args, kw, like


def _calls(ctx):
    out = []
    if ctx.chance(0.65):
        # one function over and over, on arguments that are nearly alike
        path, args, kw = catalog.draw(ctx)
        out.append((path, args, kw, tuple(catalog.LAST)))
        if max((a.size for a in args if isinstance(a, np.ndarray)), default=0) <= 300:
            for _ in range(ctx.integer(5, 14)):
                out.append(_variant(ctx, ctx.pick(out)))
            ctx.tag('one function over and over')
            return [c[:3] for c in out]
    k = ctx.integer(2, 6)
    same = ctx.chance(0.7)
    for _ in range(k):
        if same and out and ctx.chance(0.7):
            c = _variant(ctx, ctx.pick(out))
        else:
            path, args, kw = catalog.draw(ctx)
            c = (path, args, kw, tuple(catalog.LAST))
            if ctx.chance(0.1):
                args, kw = catalog.spoil(ctx, path, args, kw)
                c = (path, args, kw, c[3])
        out.append(c)
    return [c[:3] for c in out]


def _run(call, seed):
    path, args, kw = call
    fn = resolve(path)
    if 'synthetic' in path:
        np.random.seed(seed)
    return guarded(fn, args, kw)


def _freeze(o):
    """A comparable, picklable copy of an outcome."""
    if not o.ok:
        return ('raised', type(o.exc).__name__, str(o.exc))
    return ('returned', _fz(o.value))


def _fz(v):
    if isinstance(v, np.ma.MaskedArray):
        return ('o', 'masked ' + repr(v.tolist()))
    if isinstance(v, np.ndarray):
        return ('a', v.shape, v.dtype.str, v.tobytes() if v.dtype != object else repr(v.tolist()))
    if isinstance(v, dict):
        return ('d', tuple((k, _fz(x)) for k, x in v.items()))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, tuple(_fz(x) for x in v))
    if isinstance(v, (float, np.floating)):
        return ('f', float(v).hex())
    return ('o', repr(v))


def _near(a, b):
    """Equal up to rounding noise."""
    if a == b:
        return True
    if type(a) != type(b) or isinstance(a, str):
        return False
    if isinstance(a, tuple):
        if len(a) != len(b):
            return False
        if a and a[0] == 'a' and b[0] == 'a':
            if a[1:3] != b[1:3]:
                return False
            if isinstance(a[3], str):
                return a[3] == b[3]
            x, y = np.frombuffer(a[3], a[2]), np.frombuffer(b[3], b[2])
            if x.dtype.kind in 'iub':
                return np.array_equal(x, y)
            sc = np.max(np.abs(x[np.isfinite(x)])) if np.any(np.isfinite(x)) else 1.0
            return close(x, y, 1e-9, 1e-9 * sc)
        if a and a[0] == 'f' and b[0] == 'f':
            return close(float.fromhex(a[1]), float.fromhex(b[1]), 1e-9, 1e-12)
        if a and a[0] == 'o':
            return a == b
        return all(_near(x, y) for x, y in zip(a, b))
    return a == b


def _replay(req):
    genome, seed, lits, tier, order, nseed = req
    ctx = Ctx(genome, seed, lits, tier)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with np.errstate(all='ignore'):
            cs = _calls(ctx)
            res = {}
            for i in order:
                res[i] = _freeze(_run(cs[i], nseed + i))
    return res


def _globals():
    st = np.random.get_state()
    return {
        'numpy random state': (st[0], st[1].tobytes(), st[2], st[3], st[4]),
        'python random state': hash(__import__('random').getstate()),
        'numpy error handling': (tuple(sorted(np.geterr().items())), np.geterrcall()),
        'numpy print options': repr(sorted(np.get_printoptions().items(), key=lambda t: t[0])),
        'warning filters': repr(warnings.filters),
        'module search path': tuple(sys.path),
        'garbage collection': __import__('gc').isenabled(),
        'thread switch interval': sys.getswitchinterval(),
        'locale': __import__('locale').setlocale(__import__('locale').LC_NUMERIC),
        'numpy functions': tuple(id(getattr(np, k)) for k in ('mean', 'std', 'median', 'around', 'diff', 'sum', 'exp', 'log')),
        'environment': tuple(sorted(os.environ.items())),
        'working directory': os.getcwd(),
        'files in the working directory': tuple(sorted(os.listdir('.'))),
        'open files': len(os.listdir('/proc/self/fd')),
        'threads': threading.active_count(),
        'recursion limit': sys.getrecursionlimit(),
        'standard output': (sys.stdout, sys.stderr),
    }


def case(ctx):
    if ZYGOTE is None:
        setup(ctx.tier)
    k0 = len(ctx.used)
    cs = _calls(ctx)
    genome = ctx.used[k0:]
    for path, args, kw in cs:
        ctx.tag('function:' + path.rsplit('.', 2)[-2] + '.' + path.rsplit('.', 1)[1])
        ctx.fingerprint(path, *[a for a in args if not callable(a)], sorted(kw.items()))
        ctx.log.append(('history', path + '(' + ', '.join(str(a)[:40] if not isinstance(a, np.ndarray) else f'array{a.shape}' for a in args) + ')'))
    nseed = int(ctx.u() * 2 ** 31)
    np.random.seed(nseed)
    first, kept = [], []
    # a distinctive warning filter in front, so that a call that adds its own leaves a mark
    warnings.filterwarnings('ignore', message='mark of the monitor')
    # distinctive numeric error handling, so that a call that sets its own leaves a mark
    np.seterr(**{k: ctx.pick(('warn', 'ignore')) for k in ('divide', 'over', 'under', 'invalid')})
    if 'one function over and over' in ctx.tags:
        return over_and_over(ctx, cs, genome, nseed)
    for i, c in enumerate(cs):
        before = _globals()
        o = _run(c, nseed + i)
        after = _globals()
        ctx.count('call ' + c[0].rsplit('.', 2)[-2] + '.' + c[0].rsplit('.', 1)[1])
        for g in before:
            if 'synthetic' in c[0] and g == 'numpy random state':
                continue
            ctx.check(before[g] == after[g], lambda: f'{c[0]} changed a global: {g}')
        ctx.count('global state snapshots compared')
        first.append(_freeze(o))
        kept.append(o)
    # results handed out earlier are not changed by later calls
    for i, o in enumerate(kept):
        ctx.check(_freeze(o) == first[i], lambda: f'the result of {cs[i][0]} changed after later calls')
    # caller overwrites the results; the same calls again, in another order, on the very same buffers
    for o in kept:
        if o.ok:
            for r in leaves(o.value):
                if r.size and r.flags.writeable and r.dtype.kind in 'fc':
                    r[...] = 9.75
    r = ctx.rng()
    for i in r.permutation(len(cs)):
        again = _freeze(_run(cs[i], nseed + int(i)))
        ctx.count('repeated calls compared')
        ctx.check(again == first[i], lambda: f'{cs[i][0]} returned something else on the same arguments after other calls')
    # other values in the same buffers in between, then the original values restored
    if ctx.chance(0.5):
        for i, c in enumerate(cs):
            arrs = [a for a in c[1] if isinstance(a, np.ndarray) and a.dtype == float and a.flags.writeable]
            saved = [a.copy() for a in arrs]
            for a in arrs:
                if ctx.chance(0.5):
                    a[...] = a.ravel()[::-1].reshape(a.shape).copy()
                else:
                    a *= 1.5
            mid = _freeze(_run(c, nseed + i))
            args2 = [a.copy() if isinstance(a, np.ndarray) else a for a in c[1]]
            mid2 = _freeze(_run((c[0], args2, c[2]), nseed + i))
            for a, s in zip(arrs, saved):
                a[...] = s
            ctx.count('reused buffers compared')
            ctx.check(_near(mid, mid2), lambda: f'{c[0]} gives another result for the same values in a reused buffer')
            ctx.check(_freeze(_run(c, nseed + i)) == first[i], lambda: f'{c[0]} remembers the values its buffers held before')
    # a process without any history
    order = r.permutation(len(cs)).tolist()
    if ctx.chance(0.3):
        order = order[:1]
        ctx.tag('first call of a process')
    fresh = _ask((genome, 0, (ctx.ints, ctx.floats), ctx.tier, order, nseed))
    ctx.check(isinstance(fresh, dict), f'replay in a fresh process failed: {fresh}')
    for i in order:
        ctx.count('fresh-process results compared')
        ctx.check(_near(fresh[i], first[i]), lambda: f'{cs[i][0]} returned something else in a process without history')
    # threads
    if ctx.chance(0.4):
        threads(ctx, cs, first, nseed)


def over_and_over(ctx, cs, genome, nseed):
    """Forwards here, backwards in a process without history, shuffled here: every call has one outcome."""
    before = _globals()
    first = [_freeze(_run(c, nseed + i)) for i, c in enumerate(cs)]
    after = _globals()
    for g in before:
        if 'synthetic' not in cs[0][0] or g != 'numpy random state':
            ctx.check(before[g] == after[g], lambda: f'{cs[0][0]} changed a global: {g}')
    ctx.count('global state snapshots compared')
    ctx.count('call ' + cs[0][0].rsplit('.', 2)[-2] + '.' + cs[0][0].rsplit('.', 1)[1], len(cs))
    fresh = _ask((genome, 0, (ctx.ints, ctx.floats), ctx.tier, list(range(len(cs)))[::-1], nseed))
    ctx.check(isinstance(fresh, dict), f'replay in a fresh process failed: {fresh}')
    for i in ctx.rng().permutation(len(cs)):
        i = int(i)
        ctx.check(_near(fresh[i], first[i]), lambda: f'{cs[i][0]} returned something else in a process that made these calls in reverse')
        again = _freeze(_run(cs[i], nseed + i))
        ctx.count('repeated calls compared')
        ctx.check(again == first[i], lambda: f'{cs[i][0]} returned something else on the same arguments after other calls')
    ctx.count('fresh-process results compared', len(cs))
    ctx.count('outcomes distinct within a series of like calls', len(set(map(repr, first))))


def threads(ctx, cs, first, nseed):
    todo = [i for i in range(len(cs)) if 'synthetic' not in cs[i][0]]
    if not todo:
        return
    # plain values may be computed on copies so that threads do not share buffers the caller writes
    nt = ctx.pick((2, 3, 4, 6))
    r = ctx.rng()
    switches, spent = [0], [0]
    mon = sys.monitoring
    if max((a.size for i in todo for a in cs[i][1] if isinstance(a, np.ndarray)), default=0) > 500:
        return
    seeds = r.integers(0, 2 ** 31, nt)
    local = threading.local()

    def line(code, ln):
        g = getattr(local, 'g', None)
        if g is not None:
            g[0] = (g[0] * 1103515245 + 12345) & 0x7fffffff
            if g[0] % 7 == 0 and g[1] > 0:
                g[1] -= 1
                switches[0] += 1
                time.sleep(0)
            if g[1] <= 0:
                spent[0] += 1
        return mon.DISABLE if spent[0] > 2000 else None

    codes = _codes()
    mon.restart_events()
    mon.use_tool_id(MON, 'switch')
    mon.register_callback(MON, mon.events.LINE, line)
    for c in codes:
        mon.set_local_events(MON, c, mon.events.LINE)
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    wrong = []
    gate = threading.Barrier(nt)

    def body(k):
        g = np.random.default_rng(seeds[k])
        seq = [todo[int(j)] for j in g.permutation(len(todo))] * 2
        local.g = [int(seeds[k]), 300]
        with np.errstate(all='ignore'):
            gate.wait()
            for i in seq[:6]:
                path, args, kw = cs[i]
                try:
                    v = ('returned', _fz(resolve(path)(*args, **kw)))
                except Exception as e:
                    v = ('raised', type(e).__name__, str(e))
                if v != first[i]:
                    wrong.append((i, v))
    try:
        ts = [threading.Thread(target=body, args=(k,)) for k in range(nt)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
        for c in codes:
            mon.set_local_events(MON, c, 0)
        mon.register_callback(MON, mon.events.LINE, None)
        mon.free_tool_id(MON)
    ctx.count('forced thread switches inside the library', switches[0])
    ctx.count('concurrent batches')
    if wrong:
        i, v = wrong[0]
        ctx.fail(f'{cs[i][0]} returned something else when called from {nt} threads at once '
                 f'({v[0]} {v[1] if v[0] == "raised" else ""})')
