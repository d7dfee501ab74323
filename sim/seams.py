"""Seams other than processes: numerical libraries, stdout, clocks, randomness.

Installed once, before CADMium is imported, so that it does not matter how the
code under test imports or spells the call.  Outside a simulated run every seam
is transparent.
"""
import builtins
import functools
import random
import sys
import time

import numpy as np

from . import core
from .mp import common_fault


# ------------------------------------------------------------------ numerics
def _num(name, fn):
    site = "num." + name

    @functools.wraps(fn)
    def call(*a, **kw):
        s = core.active()
        if s is None:
            return fn(*a, **kw)
        t = s.task()
        if getattr(t, "in_num", 0):       # a library calling itself: not a seam
            return fn(*a, **kw)
        f = s.cross(site)
        if name == "eigs" and kw.get("v0") is None and len(a) < 6:
            # ARPACK would start from its own hidden random state: own it here
            kw["v0"] = s.arpack().standard_normal(a[0].shape[0])
            s.probe("arpack_random_start")
        if f is not None:
            if f.kind == "noconv":
                s.fire(f)
                from scipy.sparse.linalg import ArpackNoConvergence
                raise ArpackNoConvergence("No convergence (simulated)", np.zeros(0), np.zeros((0, 0)))
            if f.kind == "singular":
                s.fire(f)
                if name in ("solve", "lstsq", "inv", "eigla"):
                    raise np.linalg.LinAlgError("Singular matrix (simulated)")
                raise RuntimeError("Factor is exactly singular (simulated)")
            if f.kind == "nan":
                s.fire(f)
                return _nan_like(fn(*a, **kw))
            if f.kind == "unconv":            # an iterative solver that gives up part of the way
                s.fire(f)
                x = fn(*a, **kw)
                return (x[0] * f.arg, 1) if isinstance(x, tuple) else x
            if f.kind == "off":               # a linear solver that returns something else
                s.fire(f)
                x = np.asarray(fn(*a, **kw))
                return x + f.arg * np.roll(x, 1, axis=0)
            if f.kind == "damp":              # one that goes only part of the way
                s.fire(f)
                return np.asarray(fn(*a, **kw)) * (1 - f.arg)
            common_fault(s, f, child=t.kind == "worker")
        if name == "least_squares":       # calls back into the program: keep seams open
            return _least_squares(s, fn, a, kw)
        t.in_num = 1
        try:
            return fn(*a, **kw)
        finally:
            t.in_num = 0
    call.__wrapped__ = fn
    return call


def _least_squares(s, fn, a, kw):
    """Run it, keeping count of the evaluations it asks for and what it answered."""
    fun = a[0] if a else kw["fun"]
    rec = {"evals": 0, "answer": None}
    s.lsq.append(rec)

    def counted(*x, **k):
        rec["evals"] += 1
        return fun(*x, **k)
    if a:
        a = (counted,) + tuple(a[1:])
    else:
        kw = dict(kw, fun=counted)
    if s.lsq_limit and kw.get("max_nfev") is None:
        kw = dict(kw, max_nfev=s.lsq_limit)
    rec["answer"] = r = fn(*a, **kw)
    return r


def _fast_spsolve(fn):
    """spsolve of a diagonal matrix with a sparse right-hand side.

    scipy does this one column at a time in Python (most of a run's time); dividing
    the rows gives the same bits.  Anything else goes to scipy."""
    import scipy.sparse as sp

    @functools.wraps(fn)
    def spsolve(A, b, *a, **kw):
        if not a and not kw and sp.issparse(A) and sp.issparse(b) and A.shape[0] == A.shape[1] == A.nnz \
                and b.ndim == 2 and b.shape[1] > 1 and A.format in ("csc", "csr") \
                and A.dtype == b.dtype == np.float64:
            d = A.diagonal()
            if np.all(d != 0) and np.all(np.isfinite(d)):
                x = b.tocsc(copy=True)
                x.sum_duplicates()
                x.eliminate_zeros()
                x.data = x.data / d[x.indices]
                x.eliminate_zeros()
                return A.__class__(x)
        return fn(A, b, *a, **kw)
    return spsolve


def _nan_like(v):
    if isinstance(v, tuple):
        return tuple(_nan_like(x) for x in v)
    return np.full_like(np.asarray(v), np.nan)


def install_numerics():
    import numpy.linalg
    import scipy.linalg
    import scipy.optimize
    import scipy.sparse.linalg as SL
    import scipy.special          # noqa: F401
    import scipy.interpolate      # noqa: F401
    SL.spsolve = _fast_spsolve(SL.spsolve)
    for n in ("eigs", "eigsh", "spsolve", "spilu", "splu", "bicgstab", "qmr", "gmres", "lgmres",
              "cg", "inv", "factorized"):
        if hasattr(SL, n):
            setattr(SL, n, _num(n, getattr(SL, n)))
    for n in ("solve", "lstsq"):
        setattr(numpy.linalg, n, _num(n, getattr(numpy.linalg, n)))
    scipy.linalg.solve = _num("solve", scipy.linalg.solve)
    scipy.linalg.eig = _num("eigla", scipy.linalg.eig)
    scipy.linalg.eigh = _num("eigla", scipy.linalg.eigh)
    scipy.optimize.least_squares = _num("least_squares", scipy.optimize.least_squares)


# -------------------------------------------------------------------- stdout
class SimStdout:
    """sys.stdout: inside a run, output is swallowed and may fail."""

    def __init__(self, real):
        self.real = real

    def write(self, text):
        s = core.active()
        if s is None:
            return self.real.write(text)
        if text.strip():
            f = s.cross("io.print")
            if f is not None:
                if f.kind == "epipe":
                    s.fire(f)
                    raise BrokenPipeError(32, "Broken pipe")
                if f.kind == "enospc":
                    s.fire(f)
                    raise OSError(28, "No space left on device")
                common_fault(s, f)
            out = getattr(s, "stdout", None)
            if out is not None:
                out.append(text)
        return len(text)

    def flush(self):
        if core.active() is None:
            self.real.flush()

    def __getattr__(self, k):
        return getattr(self.real, k)


# --------------------------------------------------------------------- clock
def install_clock():
    for name in ("time", "monotonic", "perf_counter", "process_time"):
        real = getattr(time, name)

        def fake(real=real):
            s = core.active()
            return real() if s is None else 1.6e9 + s.now
        setattr(time, name, fake)
    for name in ("time_ns", "monotonic_ns", "perf_counter_ns"):
        real = getattr(time, name)

        def fake_ns(real=real):
            s = core.active()
            return real() if s is None else int((1.6e9 + s.now) * 1e9)
        setattr(time, name, fake_ns)
    rsleep = time.sleep

    def sleep(dt):
        s = core.active()
        if s is None:
            return rsleep(dt)
        f = s.cross("time.sleep", sched=False)
        if f is not None:
            common_fault(s, f)
        s.sleep(dt)
    time.sleep = sleep


def seed_ambient(seed):
    """Everything a program could read as randomness."""
    random.seed(seed)
    np.random.seed(seed % (2 ** 32))


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    install_numerics()
    install_clock()
    sys.stdout = SimStdout(sys.stdout)
    builtins._sim_installed = True
