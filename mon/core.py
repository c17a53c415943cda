"""Runtime-monitoring core: drives the real proadv code, records call events, feeds oracles.

A property module exposes ``case(ctx)``: it draws one workload from ``ctx``, makes monitored
calls of the public API through ``ctx.call`` and hands what it observed to an oracle.  An oracle
reports with ``ctx.fail(...)``.  All choices come from ``ctx`` so that a case is a list of numbers
(its genome) and can be replayed or mutated.
"""
import ast
import hashlib
import importlib
import json
import math
import os
import signal
import sys
import time
import traceback

import numpy as np

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.path.join(VERIF, 'evidence')
CALL_CPU_LIMIT = 120.0


class Violation(Exception):
    pass


class Skip(Exception):
    """The drawn workload is outside the property's domain, or undecidable in floating point."""


class HangSignal(BaseException):
    pass


class CheckError(Exception):
    pass


# --------------------------------------------------------------------------- literal dictionary
def mine_literals(root=None):
    """Numbers that occur in the sources under test, used as a fuzzing dictionary."""
    root = root or os.path.join(REPO, 'proadv')
    ints, floats = set(), set()
    for d, _, fs in os.walk(root):
        if os.sep + 'tests' in d:
            continue
        for f in fs:
            if not f.endswith('.py'):
                continue
            try:
                with open(os.path.join(d, f), encoding='utf-8') as fh:
                    tree = ast.parse(fh.read())
            except (OSError, SyntaxError, UnicodeDecodeError):
                continue
            for n in ast.walk(tree):
                if isinstance(n, ast.BinOp) and isinstance(n.left, ast.Constant) and isinstance(n.right, ast.Constant):
                    try:      # 1 << 12, 2 ** 15, 60 * 100 and the like
                        v = eval(compile(ast.Expression(n), '<lit>', 'eval'), {'__builtins__': {}})
                    except Exception:
                        v = None
                    if isinstance(v, (int, float)) and not isinstance(v, bool) and abs(v) < 1e7:
                        (ints if isinstance(v, int) else floats).add(v)
                if isinstance(n, ast.Constant) and not isinstance(n.value, bool):
                    v = n.value
                    if isinstance(v, int) and abs(v) < 10 ** 7:
                        ints.add(abs(v))
                    elif isinstance(v, float) and math.isfinite(v) and abs(v) < 1e7:
                        floats.add(abs(v))
                        if v == int(v):
                            ints.add(abs(int(v)))
    return sorted(ints), sorted(floats)


# --------------------------------------------------------------------------- coverage observation
class Coverage:
    """Line and branch events of the proadv code objects, via sys.monitoring."""
    TOOL = 4

    def __init__(self):
        self.lines = set()
        self.branches = {}
        self.new = False
        self.total = {}
        self.codes = set()

    def _walk(self, code, out):
        if code in out:
            return
        out.add(code)
        for c in code.co_consts:
            if hasattr(c, 'co_consts'):
                self._walk(c, out)

    def start(self):
        mon = sys.monitoring
        try:
            mon.use_tool_id(self.TOOL, 'verif')
        except ValueError:
            return
        codes = set()
        for name, m in list(sys.modules.items()):
            if not name.startswith('proadv') or '.tests' in name or m is None:
                continue
            for v in list(vars(m).values()):
                f = getattr(v, '__wrapped__', v)
                if hasattr(f, '__code__') and str(getattr(f, '__module__', '')).startswith('proadv'):
                    self._walk(f.__code__, codes)
        self.codes = codes
        prefix = os.path.join(REPO, 'proadv') + os.sep
        for c in codes:
            if not c.co_filename.startswith(prefix):
                continue
            rel = os.path.relpath(c.co_filename, REPO)
            s = self.total.setdefault(rel, set())
            for _, _, ln in c.co_lines():
                if ln is not None and ln != c.co_firstlineno:
                    s.add(ln)
        mon.register_callback(self.TOOL, mon.events.LINE, self._line)
        mon.register_callback(self.TOOL, mon.events.BRANCH, self._branch)
        for c in codes:
            mon.set_local_events(self.TOOL, c, mon.events.LINE | mon.events.BRANCH)

    def _line(self, code, line):
        key = (os.path.relpath(code.co_filename, REPO), line)
        if key not in self.lines:
            self.lines.add(key)
            self.new = True
        return sys.monitoring.DISABLE

    def _branch(self, code, src, dst):
        key = (os.path.relpath(code.co_filename, REPO), code.co_qualname, src)
        s = self.branches.setdefault(key, set())
        if dst not in s:
            s.add(dst)
            self.new = True
        if len(s) > 1:
            return sys.monitoring.DISABLE
        return None


# --------------------------------------------------------------------------- monitored calls
class Outcome:
    __slots__ = ('ok', 'value', 'exc')

    def __init__(self, ok, value=None, exc=None):
        self.ok, self.value, self.exc = ok, value, exc

    def __repr__(self):
        return f'returned {short(self.value)}' if self.ok else f'raised {type(self.exc).__name__}: {self.exc}'


def short(v, n=160):
    try:
        if isinstance(v, np.ndarray):
            s = f'array{v.shape}{v.dtype}:' + np.array2string(v.ravel()[:8], precision=6, threshold=8).replace('\n', ' ')
        else:
            s = repr(v)
    except Exception:
        s = f'<{type(v).__name__}>'
    return s if len(s) <= n else s[:n] + '...'


def resolve(path):
    mod, fn = path.rsplit('.', 1)
    try:
        return getattr(importlib.import_module('proadv.' + mod), fn)
    except (ImportError, AttributeError) as e:
        if fn.startswith('_'):      # an internal step that was renamed or inlined: nothing to observe there
            raise Skip()
        raise Violation(f'the public function proadv.{path} cannot be reached: {e}')


def _on_prof(signum, frame):
    raise HangSignal()


def guarded(fn, args, kwargs, limit=CALL_CPU_LIMIT):
    """Call fn, bounding its CPU time; returns an Outcome."""
    old = signal.signal(signal.SIGPROF, _on_prof)
    signal.setitimer(signal.ITIMER_PROF, limit)
    try:
        try:
            return Outcome(True, fn(*args, **kwargs))
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
    except HangSignal:
        raise Violation(f'no result after {limit:.0f} s of CPU time (normally milliseconds)')
    except (MemoryError, KeyboardInterrupt):
        raise CheckError('resources exhausted')
    except Violation:
        raise
    except Exception as e:
        return Outcome(False, exc=e)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)


# --------------------------------------------------------------------------- context
class Ctx:
    def __init__(self, genome=None, seed=0, lits=((), ()), tier='quick', stats=None):
        self.genome_in = genome or []
        self.used = []
        self._fresh = np.random.default_rng(seed)
        self.ints, self.floats = lits
        self.tier = tier
        self.stats = stats if stats is not None else new_stats()
        self.tags = []
        self.log = []
        self.h = hashlib.blake2b(digest_size=8)
        self.history = True

    # --- choices
    def u(self):
        i = len(self.used)
        v = self.genome_in[i] if i < len(self.genome_in) else float(self._fresh.random())
        self.used.append(v)
        return v

    def rng(self):
        return np.random.default_rng(int(self.u() * 2 ** 52))

    def chance(self, p):
        return self.u() < p

    def pick(self, seq):
        seq = list(seq)
        return seq[min(int(self.u() * len(seq)), len(seq) - 1)]

    def wpick(self, pairs):
        tot = sum(w for _, w in pairs)
        x = self.u() * tot
        for v, w in pairs:
            x -= w
            if x < 0:
                return v
        return pairs[-1][0]

    def uniform(self, lo, hi):
        return lo + (hi - lo) * self.u()

    def logu(self, lo, hi):
        return math.exp(self.uniform(math.log(lo), math.log(hi)))

    def integer(self, lo, hi):
        """Integer in [lo, hi], with the ends, small values and dictionary values favoured."""
        k = self.u()
        if hi <= lo:
            return lo
        if k < 0.2:
            return self.pick([lo, lo + 1, hi, hi - 1])
        if k < 0.45 and self.ints:
            for _ in range(6):
                v = self.pick(self.ints) + self.pick((-1, 0, 0, 1))
                if lo <= v <= hi:
                    return int(v)
        if k < 0.75:
            a = max(lo, 1)
            return int(min(max(round(self.logu(a, hi + 1)), lo), hi)) if hi > a else lo
        return int(lo + min(int(self.u() * (hi - lo + 1)), hi - lo))

    def real(self, lo, hi):
        k = self.u()
        if k < 0.15 and self.floats:
            for _ in range(4):
                v = self.pick(self.floats)
                if lo <= v <= hi:
                    return float(v)
        if k < 0.3 and self.ints:
            for _ in range(4):
                v = self.pick(self.ints)
                if lo <= v <= hi:
                    return float(v)
        if k < 0.4:
            return float(self.pick([lo, hi]))
        if k < 0.7 and lo > 0:
            return float(self.logu(lo, hi))
        return float(self.uniform(lo, hi))

    # --- bookkeeping
    def tag(self, *names):
        for n in names:
            self.tags.append(str(n))

    def note(self, k, v):
        self.log.append((k, short(v)))

    def count(self, name, n=1):
        self.stats['events'][name] = self.stats['events'].get(name, 0) + n

    def fingerprint(self, *objs):
        for o in objs:
            if isinstance(o, np.ndarray) and o.dtype != object:
                self.h.update(np.ascontiguousarray(o).tobytes())
            else:
                self.h.update(repr(o).encode('utf-8', 'replace'))

    def fail(self, msg):
        raise Violation(msg)

    def check(self, cond, msg):
        self.count('oracle verdicts')
        if not cond:
            raise Violation(msg() if callable(msg) else msg)

    # --- calls
    def call(self, path, *args, decoy=True, **kwargs):
        """One monitored call of the public function; a call event is recorded.

        With some probability the function is first called on different data that sits in the very
        same buffers (restored afterwards), so a result that leaks from an earlier call shows.
        """
        fn = resolve(path)
        self.fingerprint(path, *args, sorted(kwargs.items(), key=lambda t: t[0]) if kwargs else '')
        self.log.append(('call', f'{path}(' + ', '.join([short(a) for a in args] +
                                                        [f'{k}={short(v)}' for k, v in kwargs.items()]) + ')'))
        if decoy and self.history and self.chance(0.12):
            self._decoy(fn, args, kwargs)
        out = guarded(fn, args, kwargs)
        self.count('call ' + path.rsplit('.', 2)[-2] + '.' + path.rsplit('.', 1)[-1])
        self.log.append(('outcome', repr(out)))
        return out

    def _decoy(self, fn, args, kwargs):
        arrs = [a for a in list(args) + list(kwargs.values())
                if isinstance(a, np.ndarray) and a.dtype == float and a.flags.writeable and a.size > 1]
        mode = self.pick(('shift', 'reverse', 'scale', 'sparse'))
        if not arrs:
            return
        saved = [a.copy() for a in arrs]
        try:
            for a in arrs:
                if mode == 'shift':
                    a += 1.0 + abs(a).max()
                elif mode == 'reverse':
                    a[...] = a.ravel()[::-1].reshape(a.shape).copy()
                elif mode == 'scale':
                    a *= 1.7
                else:
                    a[a.size // 2:a.size // 2 + 1] += 3.3
            guarded(fn, args, kwargs)
            self.count('interleaved decoy calls')
        finally:
            for a, s in zip(arrs, saved):
                a[...] = s

    def expect(self, out, what=''):
        """The call had to return."""
        if not out.ok:
            tb = ''.join(traceback.format_exception_only(type(out.exc), out.exc)).strip()
            self.fail(f'{what or "the call"} raised {tb} on a valid input')
        return out.value


def new_stats():
    return {'evaluations': 0, 'skipped': 0, 'events': {}, 'tags': {}, 'sigs': set(), 'samples': [],
            'known': {}}


def close(a, b, rtol=1e-9, atol=0.0):
    a, b = np.asarray(a, dtype=complex if np.iscomplexobj(a) or np.iscomplexobj(b) else float), \
        np.asarray(b, dtype=complex if np.iscomplexobj(a) or np.iscomplexobj(b) else float)
    if a.shape != b.shape:
        return False
    return bool(np.all((np.abs(a - b) <= atol + rtol * np.maximum(np.abs(a), np.abs(b))) | (a == b) |
                       (np.isnan(a) & np.isnan(b))))
