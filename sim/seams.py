"""Seams: every source of nondeterminism and failure that gpgradpy can meet is
owned here.  The library boundaries are patched *before* gpgradpy is imported;
with no World installed every shim calls straight through.

 time            time.time / perf_counter / monotonic / process_time (+ _ns)
 linear algebra  scipy.linalg.cho_factor, cholesky, cho_solve, np.linalg.*
 optimizer       scipy.optimize.minimize, the LHS sampler of smt
 disk            open / os.* below a scratch directory (see disk.py)
 interrupts      an exception at the k-th executed line of gpgradpy
 threads         real threads parked at executed lines (see threads.py)
"""
import os
import sys
import threading
import time as _time

os.environ.setdefault('NUMBA_DISABLE_JIT', '1')
for _v in ('OPENBLAS_NUM_THREADS', 'OMP_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[_v] = '1'

import numpy as np
import scipy.linalg
import scipy.optimize

real_time = {n: getattr(_time, n) for n in
             ('time', 'perf_counter', 'monotonic', 'process_time',
              'time_ns', 'perf_counter_ns', 'monotonic_ns', 'process_time_ns', 'sleep')}

REPO = os.environ.get('SIM_REPO', '/repo')


class World:
    """What the simulator controls during one run.  Everything is plain data
    derived from the plan; nothing reads a real clock or a global RNG."""

    def __init__(self):
        self.counts = {}            # calls per seam
        self.fired = {}             # faults that were really injected
        self.clock = None
        self.active = False         # True while an operation of the GP runs
        self.la_hook = None         # f(name, ordinal, args) -> exception or None
        self.la_ord = 0
        self.min_hook = None        # f(ordinal, fun, x0, kwargs, call)
        self.min_ord = 0
        self.lhs_hook = None
        self.la_budget = None       # liveness: bound on factorisations per call
        self.mats = None            # list: matrices that are factorised
        self.stall = None           # f(name, ordinal) -> seconds that the call takes
        self.stalls = []            # (name, seconds) of the present operation
        self.marks = []             # for every optimisation, stalls before and after

    def fire(self, kind):
        self.fired[kind] = self.fired.get(kind, 0) + 1

    def count(self, kind):
        self.counts[kind] = self.counts.get(kind, 0) + 1


class NoProgress(BaseException):
    """The step budget of an operation is exhausted."""


_tl = threading.local()     # every simulated thread has its own world
SCHED = None                # the scheduler of simulated threads, if any


def set_world(w):
    _tl.w = w


def cur():
    return getattr(_tl, 'w', None)


class Clock:
    """Simulated time.  spec: list of per-read increments for the monotonic
    clock (>= 0, cycled) and for the wall clock (may be negative)."""

    def __init__(self, mono, wall, t0=1000.0, w0=1.7e9):
        self.mono, self.wall = mono, wall
        self.t, self.w, self.i = t0, w0, 0

    def step(self):
        self.t += self.mono[self.i % len(self.mono)]
        self.w += self.wall[self.i % len(self.wall)]
        self.i += 1

    def read(self, name):
        """Clocks have unrelated origins, and CPU time runs slower."""
        self.step()
        base = name[:-3] if name.endswith('_ns') else name
        v = {'time': self.w, 'perf_counter': self.t, 'monotonic': self.t + 5e5,
             'process_time': 0.5 * self.t - 400}[base]
        return int(v * 1e9) if name.endswith('_ns') else v


def _time_shim(name):
    real = real_time[name]

    def shim(*a):
        w = cur()
        if w is None or w.clock is None:
            return real(*a)
        w.count('clock')
        if name == 'sleep':
            w.clock.t += float(a[0])
            w.clock.w += float(a[0])
            return None
        return w.clock.read(name)
    shim.__name__ = name
    return shim


def _la_shim(name, real):
    def shim(*a, **k):
        w = cur()
        if w is None or not w.active:
            return real(*a, **k)
        w.count('la.' + name)
        w.la_ord += 1
        if w.la_budget is not None and w.la_ord > w.la_budget:
            raise NoProgress(f'more than {w.la_budget} calls of linear algebra in one operation')
        if w.mats is not None and name in ('cho_factor', 'cholesky', 'np.cholesky') and a:
            w.mats.append(np.array(a[0], dtype=float))
        if w.la_hook is not None:
            exc = w.la_hook(name, w.la_ord, a)
            if exc is not None:
                w.stalls.append(('failed', 0.0))
                raise exc
        if w.stall is not None:
            dt = w.stall(name, w.la_ord)
            w.stalls.append((name, dt))
            w.clock.t += dt
            w.clock.w += dt
            try:
                return real(*a, **k)
            except np.linalg.LinAlgError:
                w.stalls.append(('failed', 0.0))
                raise
        return real(*a, **k)
    shim.__name__ = name
    shim.__wrapped__ = real
    return shim


real_minimize = scipy.optimize.minimize


def _minimize_shim(fun, x0, *a, **k):
    w = cur()
    if w is None or not w.active:
        return real_minimize(fun, x0, *a, **k)
    w.count('minimize')
    w.min_ord += 1
    n = len(w.stalls)
    try:
        if w.min_hook is not None:
            return w.min_hook(w.min_ord, fun, x0, k, lambda: real_minimize(fun, x0, *a, **k))
        return real_minimize(fun, x0, *a, **k)
    finally:
        w.marks.append((n, len(w.stalls)))


_installed = False


def install():
    """Patch the boundaries, then import gpgradpy from the working tree."""
    global _installed
    if _installed:
        return
    _installed = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import smt.sampling_methods as smt_s
    for n in real_time:
        setattr(_time, n, _time_shim(n))
    for n in ('cho_factor', 'cho_solve', 'cholesky', 'solve_triangular'):
        setattr(scipy.linalg, n, _la_shim(n, getattr(scipy.linalg, n)))
    for n in ('cholesky', 'cond', 'eig', 'eigh', 'eigvals', 'eigvalsh', 'inv', 'solve', 'slogdet', 'svd'):
        setattr(np.linalg, n, _la_shim('np.' + n, getattr(np.linalg, n)))
    scipy.optimize.minimize = _minimize_shim

    real_lhs = smt_s.LHS

    class LHS(real_lhs):
        def __call__(self, n):
            out = super().__call__(n)
            w = cur()
            if w is not None and w.active and w.lhs_hook is not None:
                w.lhs_hook(np.array(out))
            return out
    smt_s.LHS = LHS

    import gpgradpy.src                                     # noqa: F401
    import gpgradpy.src.base.Rescaling                      # noqa: F401
    assert os.path.realpath(gpgradpy.src.__file__).startswith(os.path.realpath(REPO) + os.sep), \
        f'gpgradpy was imported from {gpgradpy.src.__file__}'


# --------------------------------------------------------------------------
# Executed lines of gpgradpy, through sys.monitoring
# --------------------------------------------------------------------------
MON = sys.monitoring
TOOL = 4
_codes = None


def gp_codes():
    """Every code object that belongs to gpgradpy."""
    global _codes
    if _codes is not None:
        return _codes
    import types
    root = os.path.realpath(REPO) + os.sep + 'gpgradpy'
    seen, out = set(), []

    def add(co):
        if co in seen or not os.path.realpath(co.co_filename).startswith(root):
            return
        seen.add(co)
        out.append(co)
        for c in co.co_consts:
            if isinstance(c, types.CodeType):
                add(c)

    def visit(obj, depth=0):
        f = obj
        if isinstance(f, (staticmethod, classmethod)):
            f = f.__func__
        if isinstance(f, property):
            for g in (f.fget, f.fset, f.fdel):
                if g is not None:
                    visit(g, depth)
            return
        f = getattr(f, 'py_func', f)
        while hasattr(f, '__wrapped__'):
            if hasattr(f, '__code__'):
                add(f.__code__)
            f = f.__wrapped__
        if hasattr(f, '__code__'):
            add(f.__code__)
        elif isinstance(f, type) and depth < 4:
            for v in vars(f).values():
                visit(v, depth + 1)
    for name, mod in list(sys.modules.items()):
        if name == 'gpgradpy' or name.startswith('gpgradpy.'):
            for v in list(vars(mod).values()):
                try:
                    visit(v)
                except Exception:
                    pass
    _codes = out
    return out


_code_set = None
GENERATOR = 0x20


def set_codes():
    global _code_set
    if _code_set is None:
        _code_set = frozenset(gp_codes())
    return _code_set


def spot(spots, frac):
    """The line (1-based) at this fraction of the lines in spots."""
    if not spots:
        return 1
    m = sum(b - a + 1 for a, b in spots)
    k = min(int(frac * m), max(m - 1, 0))
    for a, b in spots:
        if k < b - a + 1:
            return a + k
        k -= b - a + 1
    return 1


_mon_on = False


def _mon_start():
    global _mon_on
    if not _mon_on:
        MON.use_tool_id(TOOL, 'sim')
        _mon_on = True


class LineHook:
    """Calls fn(code, line) before every line of gpgradpy that is executed.
    In a simulated thread fn is called by the scheduler."""

    def __init__(self, fn):
        self.fn = fn

    @staticmethod
    def enter_raw(fn):
        _mon_start()
        E = MON.events
        MON.register_callback(TOOL, E.LINE, fn)
        for co in gp_codes():
            MON.set_local_events(TOOL, co, E.LINE)

    @staticmethod
    def exit_raw():
        for co in gp_codes():
            MON.set_local_events(TOOL, co, 0)
        MON.register_callback(TOOL, MON.events.LINE, None)

    def __enter__(self):
        self.sched = SCHED
        if SCHED is not None:
            SCHED.attach(self.fn)
        else:
            self.enter_raw(self.fn)
        return self

    def __exit__(self, *a):
        if self.sched is not None:
            self.sched.attach(None)
        else:
            self.exit_raw()
        return False


class LineCounter:
    """Counts executed lines; raises exc at line number `at` (1-based).

    With scan, it also finds the lines where an interrupt is meaningful.  The
    lines that the entered method (or the exit of a context manager) executes
    after the last line of anything it calls are left out: an interrupt there
    cannot be told from one that arrives in the caller just after the call was
    completed, so nothing may be concluded from the state it leaves."""

    def __init__(self, at=None, exc=None, budget=None, scan=False):
        self.n, self.at, self.exc, self.budget = 0, at, exc, budget
        self.where = None
        self.scan = scan
        self.entry, self.start, self.deep, self.spots = None, 1, 0, []

    def close(self):
        """Ends a call from outside; keeps the range of its lines."""
        last = self.deep or self.n
        if last >= self.start:
            self.spots.append((self.start, last))
        self.start, self.deep = self.n + 1, 0

    def look(self, code):
        f = sys._getframe(2)
        while f is not None and f.f_code is not code:
            f = f.f_back
        own = set_codes()
        top, g = f, f.f_back if f is not None else None
        while g is not None:
            if g.f_code in own:
                top = g
            g = g.f_back
        if top is not self.entry:
            if self.entry is not None:
                self.n -= 1
                self.close()
                self.n += 1
            self.entry = top
        if f is not top and not (code.co_flags & GENERATOR or code.co_name in ('__enter__', '__exit__')):
            self.deep = self.n

    def __call__(self, code, line):
        self.n += 1
        if self.scan:
            self.look(code)
        if self.n == self.at:
            self.where = f'{os.path.basename(code.co_filename)}:{code.co_name}:{line}'
            raise self.exc
        if self.budget is not None and self.n > self.budget:
            raise NoProgress(f'more than {self.budget} executed lines in one operation')
