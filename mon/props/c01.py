"""C01 arguments are never changed, and results do not alias them."""
import copy

from . import catalog
from .common import *
from ..core import guarded, resolve, Outcome

FILES = ['proadv/filtration/replacement/replacements.py', 'proadv/filtration/detection/acceleration.py',
         'proadv/filtration/detection/phasespace.py', 'proadv/filtration/detection/spherical.py',
         'proadv/filtration/detection/trivariatekernel.py', 'proadv/filtration/detection/correlation.py',
         'proadv/filtration/detection/pollution.py', 'proadv/filtration/detection/poincare.py',
         'proadv/statistics/descriptive.py', 'proadv/statistics/spread.py', 'proadv/statistics/series.py',
         'proadv/statistics/moment.py', 'proadv/statistics/distributions/normal.py', 'proadv/statistics/signal/butter.py',
         'proadv/statistics/signal/synthetic.py', 'proadv/statistics/signal/fluid.py', 'proadv/statistics/signal/spectrum.py',
         'proadv/statistics/optimize/optimize.py', 'proadv/kernel/bivariate.py']
CASES = {'quick': 53300, 'thorough': 1052000}
RULE = ('seeded calls of every public function, valid or spoiled so that the call raises, with each array argument placed in '
        'a larger guarded buffer of varying layout; a case is distinct when its function and argument values are')


class Guarded:
    """An array argument together with the buffer it lives in; any byte that changes is reported."""

    def __init__(self, ctx, a, name):
        self.name = name
        kind = ctx.pick(('plain', 'plain', 'offset', 'strided', 'reversed', 'readonly'))
        if a.ndim != 1 or a.size == 0:
            kind = 'plain' if kind not in ('plain', 'readonly') else kind
        n = a.shape[0] if a.ndim else 0
        if kind == 'plain':
            self.buf = a.copy()
            self.view = self.buf
        elif kind == 'readonly':
            self.buf = a.copy()
            self.view = self.buf.view()
            self.view.flags.writeable = False
        elif kind == 'offset':
            self.buf = np.full(n + 4, 7, dtype=a.dtype)
            self.view = self.buf[2:2 + n]
            self.view[...] = a
        elif kind == 'strided':
            self.buf = np.full((n, 3), 5, dtype=a.dtype)
            self.view = self.buf[:, 1]
            self.view[...] = a
        else:
            self.buf = a[::-1].copy()
            self.view = self.buf[::-1]
        ctx.tag('layout:' + kind)
        self.snap = self.buf.tobytes() if self.buf.dtype != object else repr(self.buf.tolist())
        self.shape, self.dtype, self.strides = self.view.shape, self.view.dtype, self.view.strides

    def changed(self):
        if self.view.shape != self.shape or self.view.dtype != self.dtype or self.view.strides != self.strides:
            return f'its shape or type became {self.view.shape} {self.view.dtype}'
        if self.buf.dtype == object:
            return None if repr(self.buf.tolist()) == self.snap else 'an element changed'
        if self.buf.tobytes() != self.snap:
            now, was = self.buf.ravel(), np.frombuffer(self.snap, dtype=self.dtype)
            d = np.nonzero(~((now == was) | ((now != now) & (was != was))))[0]
            return f'element {d[0] if d.size else "?"} of its buffer went from {was[d[0]]!r} to {now[d[0]]!r}' if d.size else 'a byte changed'
        return None


def leaves(v, depth=0):
    if isinstance(v, np.ma.MaskedArray):
        return
    if isinstance(v, np.ndarray):
        yield v
    elif isinstance(v, dict):
        for x in v.values():
            yield from leaves(x, depth + 1)
    elif isinstance(v, (list, tuple)) and depth < 4:
        for x in v:
            yield from leaves(x, depth + 1)


def case(ctx):
    path, args, kw = catalog.draw(ctx)
    name = path.rsplit('.', 1)[1]
    ctx.tag('function:' + path.rsplit('.', 2)[-2] + '.' + name)
    if ctx.chance(0.2):
        args, kw = catalog.spoil(ctx, path, args, kw)
        ctx.tag('spoiled')
    if ctx.chance(0.1):
        dt = ctx.pick((np.float32, np.int64, object, np.longdouble))
        for i, a in enumerate(args):
            if isinstance(a, np.ndarray) and a.dtype == float and np.all(np.isfinite(a)):
                args[i] = a.astype(dt)
        ctx.tag('dtype:' + np.dtype(dt).name)
    if ctx.chance(0.12):        # lists where arrays usually go; a call that insists on arrays raises, and must leave them alone too
        which = [i for i, a in enumerate(args) if isinstance(a, np.ndarray)]
        for i in which:
            if len(which) == 1 or ctx.chance(0.7):
                args[i] = args[i].tolist()
        ctx.tag('lists instead of arrays')
    guards, lists = [], []
    for i, a in enumerate(args):
        if isinstance(a, np.ndarray):
            g = Guarded(ctx, a, f'argument {i + 1}')
            guards.append(g)
            args[i] = g.view
        elif isinstance(a, list):
            lists.append((f'argument {i + 1}', a, copy.deepcopy(a)))
    kwsnap = repr(sorted(kw.items()))

    def audit(when):
        for g in guards:
            c = g.changed()
            ctx.check(c is None, lambda: f'{name} changed {g.name} ({when}): {c}')
        for nm, a, s in lists:
            ctx.check(repr(a) == repr(s), lambda: f'{name} changed the list {nm} ({when})')
        ctx.check(repr(sorted(kw.items())) == kwsnap, lambda: f'{name} changed its options ({when})')
        ctx.count('argument buffers compared', len(guards) + len(lists))

    o = ctx.call(path, *args, decoy=False, **kw)
    audit('returning' if o.ok else f'raising {type(o.exc).__name__}')
    if not o.ok:
        ctx.tag('call raised')
        if any(not g.view.flags.writeable for g in guards) and 'read-only' in str(o.exc):
            ctx.fail(f'{name} tried to write to a read-only argument: {o.exc}')
        return
    ctx.tag('call returned')
    for r in leaves(o.value):
        for g in guards:
            ctx.check(not np.shares_memory(r, g.buf, max_work=10 ** 4) if r.size and g.buf.size else True,
                      lambda: f'{name}: the result shares memory with {g.name}')
        # what the caller does to the result must not reach the arguments
        if r.size and r.flags.writeable:
            try:
                r[...] = 1 if r.dtype.kind in 'iu' else -12345.678
            except (TypeError, ValueError):
                pass
            ctx.count('results overwritten by the caller')
    audit('after the caller overwrote the result')
    # and a call on the same arguments still works (nothing frozen, nothing cached in them)
    if ctx.chance(0.3):
        o2 = ctx.call(path, *args, decoy=False, **kw)
        ctx.check(o2.ok, lambda: f'{name} raised on the second call with the same arguments: {o2!r}')
        audit('second call')
