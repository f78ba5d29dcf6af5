"""Seams for the ways a request can be executed: free memory's contents,
pyFFTW's internals, joblib's task order, the garbage collector."""
import contextlib
import ctypes
import gc

import numpy as np

POISON = [np.nan, 1e300, -3.0, 0.0, 17.5]


@contextlib.contextmanager
def memory(poison, byte):
    """Freshly allocated memory holds what the plan says it holds."""
    libc = ctypes.CDLL(None)
    libc.mallopt(ctypes.c_int(-6), ctypes.c_int(byte))     # M_PERTURB
    val = POISON[poison]
    real, real_like = np.empty, np.empty_like

    def fill(a):
        b = a.view(np.ndarray)
        if b.dtype.kind in "fc":
            b[...] = val
        elif b.dtype.kind in "iu":
            b[...] = 113 if byte else 0
        elif b.dtype.kind == "b":
            b[...] = bool(byte)
        return a

    def empty(*a, **k):
        return fill(real(*a, **k))

    def empty_like(*a, **k):
        return fill(real_like(*a, **k))
    np.empty, np.empty_like = empty, empty_like
    try:
        yield
    finally:
        np.empty, np.empty_like = real, real_like
        libc.mallopt(ctypes.c_int(-6), ctypes.c_int(0))


class FFTW(object):
    """Owns pyFFTW: plan cache, default threads, and its k-th call failing."""

    def __init__(self, cache=False, at=None, exc=None, num_threads=None):
        self.cache, self.at, self.exc = cache, at, exc
        self.num_threads = num_threads
        self.count = 0
        self.fired = False

    def __enter__(self):
        import pyfftw
        from pyfftw.interfaces import numpy_fft as nf
        self.nf, self.pf = nf, pyfftw
        self.real = nf._Xfftn
        self.had = pyfftw.interfaces.cache.is_enabled()
        self.nt = pyfftw.config.NUM_THREADS
        if self.num_threads:
            pyfftw.config.NUM_THREADS = self.num_threads
        if self.cache:
            pyfftw.interfaces.cache.enable()
            pyfftw.interfaces.cache.set_keepalive_time(30)

        def x(*a, **k):
            n = self.count
            self.count += 1
            if self.at is not None and n == self.at:
                self.fired = True
                raise self.exc
            return self.real(*a, **k)
        nf._Xfftn = x
        return self

    def __exit__(self, *a):
        self.nf._Xfftn = self.real
        self.pf.config.NUM_THREADS = self.nt
        if self.cache and not self.had:
            self.pf.interfaces.cache.disable()


class Jobs(object):
    """joblib.Parallel as sklearn uses it: tasks run in the plan's order, the
    k-th may fail."""

    def __init__(self, order, at=None, exc=None):
        self.order, self.at, self.exc = order, at, exc
        self.count = 0
        self.fired = False

    def __enter__(self):
        import random
        import sklearn.metrics.pairwise as P
        self.P, self.real = P, P.Parallel
        outer = self

        class Parallel(object):
            def __init__(self, *a, **k):
                pass

            def __call__(self, tasks):
                tasks = list(tasks)
                idx = list(range(len(tasks)))
                random.Random(outer.order).shuffle(idx)
                out = [None] * len(tasks)
                for i in idx:
                    n = outer.count
                    outer.count += 1
                    if outer.at is not None and n == outer.at:
                        outer.fired = True
                        raise outer.exc
                    f, a, k = tasks[i][:3] if isinstance(tasks[i], tuple) \
                        else (tasks[i], (), {})
                    out[i] = f(*a, **k)
                return out
        P.Parallel = Parallel
        return self

    def __exit__(self, *a):
        self.P.Parallel = self.real


@contextlib.contextmanager
def collector(mode):
    was, thr = gc.isenabled(), gc.get_threshold()
    try:
        if mode == "off":
            gc.disable()
        elif mode:
            gc.set_threshold(*mode)
        yield
    finally:
        gc.set_threshold(*thr)
        if was:
            gc.enable()
