"""Seams between TurbuStat and the world, owned by the simulator.

* CallFaults    the k-th call TurbuStat makes into a numerical library fails
                (MemoryError / KeyboardInterrupt / LinAlgError ...).
* LineClock     every executed TurbuStat source line is one logical tick;
                ticks drive thread preemption, mid-run probes and crashes.
* Threads       real caller threads, released one at a time at ticks chosen
                by the plan.
No hook in the repository is needed: CPython's sys.monitoring supplies them.
"""
import ast
import dis
import gc
import os
import sys
import threading
import types

import numpy as np

MON = sys.monitoring
TOOL = 4
REPO = os.environ.get("SIM_REPO", "/repo")
PKG = os.path.join(REPO, "turbustat") + os.sep

_codes = None


def _walk(code, seen):
    if code in seen:
        return
    seen.add(code)
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            _walk(c, seen)


def package_codes():
    """Code objects of the package under test (tests excluded)."""
    global _codes
    if _codes is None:
        seen = set()
        for o in gc.get_objects():
            if isinstance(o, types.FunctionType):
                c = o.__code__
                if c.co_filename.startswith(PKG) and \
                        os.sep + "tests" + os.sep not in c.co_filename:
                    _walk(c, seen)
        _codes = sorted(seen, key=lambda c: (c.co_filename, c.co_firstlineno,
                                             c.co_name))
    return _codes


_claimed = False


def _claim():
    global _claimed
    if not _claimed:
        MON.use_tool_id(TOOL, "turbusim")
        _claimed = True


def _enable(event, cb):
    _claim()
    MON.register_callback(TOOL, event, cb)
    for c in package_codes():
        MON.set_local_events(TOOL, c, MON.get_local_events(TOOL, c) | event)


def _disable(event):
    MON.register_callback(TOOL, event, None)
    for c in package_codes():
        MON.set_local_events(TOOL, c, MON.get_local_events(TOOL, c) & ~event)


# --------------------------------------------------------------- call faults
FAIL_MODS = ("numpy", "scipy", "statsmodels", "pyfftw", "sklearn", "skimage",
             "spectral_cube", "astrodendro", "astropy.convolution",
             "astropy.modeling", "astropy.stats", "astropy.wcs", "pandas",
             "radio_beam")
NEVER_MODS = ("numpy.random", "numpy.ma.core", "numpy._core._ufunc_config",
              "numpy.core._ufunc_config")
NEVER_NAMES = {"seterr", "geterr", "errstate", "set_state", "get_state",
               "seed", "RandomState", "default_rng", "close", "dtype",
               "shape", "ndim", "isinstance", "copyto", "flush",
               "NumpyRNGContext", "__exit__", "__enter__"}


def eligible(fn):
    """May this call fail in a real deployment (allocation, computation)?"""
    name = getattr(fn, "__name__", "")
    if name in NEVER_NAMES or name.startswith("_restore"):
        return False
    if isinstance(fn, np.ufunc):
        return True
    oc = getattr(fn, "__objclass__", None)
    if oc is np.ndarray:
        return True
    slf = getattr(fn, "__self__", None)
    if isinstance(slf, np.ndarray):
        return True
    if isinstance(fn, type) and issubclass(fn, BaseException):
        return False
    mod = getattr(fn, "__module__", None) or ""
    if not isinstance(mod, str):
        return False
    if any(mod == m or mod.startswith(m + ".") for m in NEVER_MODS):
        return False
    return any(mod == m or mod.startswith(m + ".") for m in FAIL_MODS)


def displaying(fn):
    """Calls that draw, print, show progress or save figures."""
    if fn is print:
        return True
    name = getattr(fn, "__name__", "")
    if name in ("close", "rcParams", "rc_context"):
        return False
    slf = getattr(fn, "__self__", None)
    mod = getattr(fn, "__module__", None) or \
        getattr(type(slf), "__module__", None) or ""
    if not isinstance(mod, str):
        return False
    if isinstance(fn, type) and issubclass(fn, BaseException):
        return False
    return mod.startswith("matplotlib") or mod == "astropy.utils.console"


def storing(fn):
    """Calls that put something on disk (or prepare to)."""
    name = getattr(fn, "__name__", "")
    if name in ("remove", "unlink", "close", "rmdir", "exists", "getcwd",
                "split", "join", "splitext", "dirname", "basename", "chdir",
                "getpid", "abspath", "isfile", "isdir", "fspath"):
        return False
    mod = getattr(fn, "__module__", None) or ""
    return fn is open or isinstance(mod, str) and (
        mod in ("io", "_io", "os", "posix", "pickle", "_pickle", "shutil",
                "tempfile", "dill", "dill._dill", "copy"))


EXC = {
    "store": lambda: OSError(28, "injected: no space left on device"),
    "pipe": lambda: BrokenPipeError(32, "injected: broken pipe"),
    "space": lambda: OSError(28, "injected: no space left on device"),
    "runtime": lambda: RuntimeError("injected display failure"),
    "memory": lambda: MemoryError("injected allocation failure"),
    "interrupt": lambda: KeyboardInterrupt("injected interrupt"),
    "linalg": lambda: np.linalg.LinAlgError("injected non-convergence"),
    "value": lambda: ValueError("injected failure"),
    "oserror": lambda: OSError(12, "injected failure"),
}


_guard = {}
NAMES = {"ValueError": "value", "LinAlgError": "linalg", "OSError": "oserror",
         "IOError": "oserror", "MemoryError": "memory", "Exception": "value",
         "RuntimeError": "runtime", "KeyboardInterrupt": "interrupt",
         "BaseException": "interrupt", "ArithmeticError": "value"}


def guards(code, offset):
    """Which failures the code around this call is prepared for."""
    fname = code.co_filename
    if fname not in _guard:
        out = {}
        try:
            with open(fname) as f:
                tree = ast.parse(f.read())
        except (OSError, SyntaxError):
            tree = ast.Module([], [])
        for nd in ast.walk(tree):
            if isinstance(nd, ast.Try) and nd.handlers:
                kinds = set()
                for h in nd.handlers:
                    if h.type is None:
                        kinds.update(["value", "memory", "interrupt"])
                    else:
                        for t in ast.walk(h.type):
                            n = getattr(t, "id", getattr(t, "attr", None))
                            if n in NAMES:
                                kinds.add(NAMES[n])
                for ln in range(nd.body[0].lineno, nd.body[-1].end_lineno + 1):
                    out.setdefault(ln, set()).update(kinds)
        _guard[fname] = out
    if not _guard[fname]:
        return ()
    line = None
    for lo, hi, ln in code.co_lines():
        if lo <= offset < hi:
            line = ln
            break
    return sorted(_guard[fname].get(line, ()))


_stores = {}
CHANGERS = {"append", "extend", "insert", "clear", "update", "pop", "sort",
            "setdefault", "fill", "add", "remove", "popitem"}


def changes_state(code, line):
    """Does this line change an attribute, an element or a container?"""
    if code not in _stores:
        out = set()
        for ins in dis.get_instructions(code):
            if ins.opname in ("STORE_ATTR", "STORE_SUBSCR", "DELETE_ATTR",
                              "DELETE_SUBSCR", "STORE_GLOBAL",
                              "STORE_SLICE") or \
                    (ins.opname in ("LOAD_ATTR", "LOAD_METHOD") and
                     ins.argval in CHANGERS):
                p = ins.positions
                out.update(range(p.lineno or 0, (p.end_lineno or 0) + 1))
        _stores[code] = out
    return line in _stores[code]


class Sites(object):
    """Which ticks belong to which place in the source (first few, last)."""

    def __init__(self):
        self.d = {}
        self.hot = {}

    def add(self, key, k, hot=None):
        if hot and key not in self.hot:
            self.hot[key] = hot
        self._add(key, k)

    def _add(self, key, k):
        v = self.d.get(key)
        if v is None:
            self.d[key] = [k]
        elif len(v) < 4:
            v.append(k)
        else:
            v[3] = k

    def list(self):
        return sorted((v, self.hot.get(k)) for k, v in self.d.items())


def aim(fl, n, sites):
    """The tick at which a planned fault strikes: uniform over ticks, or
    over the places in the source."""
    if not fl:
        return None
    if fl.get("by") in ("site", "hot") and sites:
        v = _pick(fl, sites)[0]
        return v[fl.get("occ", 0) % len(v)]
    return int(fl["frac"] * n)


def _pick(fl, sites):
    if fl["by"] == "hot":
        # half-way through an update, or where failures are expected
        sites = [x for x in sites if x[1]] or sites
    return sites[min(len(sites) - 1, int(fl["frac"] * len(sites)))]


def kind_at(fl, sites):
    """A failure the code is prepared for, where it says so."""
    if fl.get("by") == "hot" and sites:
        hot = _pick(fl, sites)[1]
        if hot and hot is not True:
            return hot[fl.get("occ", 0) % len(hot)]
    return fl["kind"]


class CallFaults(object):
    """Count eligible calls; raise at the `at`-th one (once)."""

    def __init__(self, at=None, kind="memory", probe=None, which=None,
                 record=False):
        self.at = at
        self.which = which or eligible
        self.kind = kind
        self.count = 0
        self.fired = None
        self.probe = probe
        self.sites = Sites() if record else None

    def _cb(self, code, offset, fn, arg0):
        if not self.which(fn):
            return
        k = self.count
        self.count += 1
        if self.sites is not None:
            self.sites.add((code, offset), k, guards(code, offset)
                           if (code, offset) not in self.sites.d else None)
        if self.probe is not None:
            self.probe(k)
        if self.at is not None and k == self.at:
            self.fired = "%s -> %s" % (code.co_name,
                                       getattr(fn, "__name__", "?"))
            raise (EXC[self.kind] if isinstance(self.kind, str)
                   else self.kind)()

    def __enter__(self):
        _enable(MON.events.CALL, self._cb)
        return self

    def __exit__(self, *a):
        _disable(MON.events.CALL)


# ---------------------------------------------------------------- line clock
class LineClock(object):
    """tick(n) is called before each package source line is executed."""

    def __init__(self, tick):
        self.n = 0
        self.tick = tick

    def _cb(self, code, line):
        self.n += 1
        self.tick(self.n, code, line)

    def __enter__(self):
        _enable(MON.events.LINE, self._cb)
        return self

    def __exit__(self, *a):
        _disable(MON.events.LINE)


_cleanup = {}


def _cleanup_lines(fname):
    """Lines an interrupt cannot strike without defeating correct cleanup:
    handlers, finally blocks, the headers of try and with."""
    if fname not in _cleanup:
        out = set()
        try:
            with open(fname) as f:
                tree = ast.parse(f.read())
        except (OSError, SyntaxError):
            tree = ast.Module([], [])
        for nd in ast.walk(tree):
            if isinstance(nd, ast.Try):
                out.add(nd.lineno)
                for b in nd.handlers + nd.finalbody:
                    out.update(range(b.lineno, b.end_lineno + 1))
            elif isinstance(nd, ast.With):
                out.update(range(nd.lineno, nd.body[0].lineno))
        _cleanup[fname] = out
    return _cleanup[fname]


def _cleaning(frame):
    while frame is not None:
        c = frame.f_code
        if "/scipy/odr/" in c.co_filename:
            return True         # odrpack's C code crashes on exceptions
        if c.co_filename.startswith(PKG) and (
                c.co_name in ("__enter__", "__exit__", "__del__", "close") or
                frame.f_lineno in _cleanup_lines(c.co_filename)):
            return True
        frame = frame.f_back
    return False


class LineFaults(object):
    """An interrupt arrives before the `at`-th executed package line (or the
    first one after it that is not cleanup)."""

    def __init__(self, at=None, record=False):
        self.at = at
        self.count = 0
        self.fired = None
        self.sites = Sites() if record else None
        self.last = None

    def _cb(self, code, line):
        k = self.count
        self.count += 1
        if self.sites is not None:
            st = changes_state(code, line)
            self.sites.add((code, line), k, st and self.last == code)
            self.last = code if st else None
        if self.at is not None and k >= self.at and self.fired is None and \
                not _cleaning(sys._getframe(1)):
            self.fired = "%s: %s" % (code.co_name, _text(code.co_filename,
                                                         line))
            raise KeyboardInterrupt()

    def __enter__(self):
        _enable(MON.events.LINE, self._cb)
        return self

    def __exit__(self, *a):
        _disable(MON.events.LINE)


def _text(fname, line):
    import linecache
    return linecache.getline(fname, line).strip()[:60]


# ------------------------------------------------------------------- threads
class Deadlock(Exception):
    pass


class Visits(object):
    """While one caller runs, others come in at seeded places: each runs one
    complete request in a thread of its own before the first goes on."""

    def __init__(self, ticks, visitor):
        self.ticks = sorted(ticks)
        self.visitor = visitor
        self.me = threading.get_ident()
        self.n = 0
        self.atomic = 0
        self.results = []
        self.trace = []

    def _cb(self, code, line):
        if threading.get_ident() != self.me or self.atomic:
            return
        self.n += 1
        while self.ticks and self.n > self.ticks[0]:
            self.ticks.pop(0)
            self.trace.append((self.n, 0, 1, code.co_name, line))

            def body():
                try:
                    self.results.append(("ok", self.visitor()))
                except BaseException as e:       # noqa
                    self.results.append(("raise", type(e).__name__,
                                         str(e)[:200]))
            t = threading.Thread(target=body, daemon=True)
            t.start()
            t.join()

    def __enter__(self):
        import scipy.odr
        self.odr = odr_run = scipy.odr.ODR.run

        def run_atomic(odr):
            mine = threading.get_ident() == self.me
            self.atomic += mine
            try:
                return odr_run(odr)
            finally:
                self.atomic -= mine
        scipy.odr.ODR.run = run_atomic
        _enable(MON.events.LINE, self._cb)
        return self

    def __exit__(self, *a):
        import scipy.odr
        scipy.odr.ODR.run = self.odr
        _disable(MON.events.LINE)


class Threads(object):
    """Run callables in real threads, exactly one released at a time.

    schedule: list of [tick, target]: when the global tick reaches `tick`,
    the baton moves to `target` (modulo runnable threads).  A finished thread
    hands the baton to the lowest-numbered runnable one, or to the next target
    in `exits`.
    """

    def __init__(self, funcs, schedule, exits=(), on_switch=None,
                 max_ticks=None, local=None):
        self.funcs = funcs
        self.local = local          # per thread: sorted [own tick, target]
        self.own = [0] * len(funcs)
        self.schedule = sorted(schedule)
        self.exits = list(exits)
        self.pos = 0
        self.ticks = 0
        self.sems = [threading.Semaphore(0) for _ in funcs]
        self.done = [False] * len(funcs)
        self.results = [None] * len(funcs)
        self.current = 0
        self.trace = []
        self.idmap = {}
        self.atomic = [0] * len(funcs)
        self.on_switch = on_switch
        self.next_at = self.schedule[0][0] if self.schedule else None
        self.all_done = threading.Event()

    def _runnable(self):
        return [i for i, d in enumerate(self.done) if not d]

    def _cb(self, code, line):
        me = self.idmap.get(threading.get_ident())
        if me is None:
            return
        if self.atomic[me]:
            return
        self.ticks += 1
        if self.local is not None:
            self.own[me] += 1
            todo = self.local[me]
            if not todo or self.own[me] < todo[0][0]:
                return
            self._switch(me, todo.pop(0)[1], code, line)
            return
        if self.next_at is None or self.ticks < self.next_at:
            return
        target = self.schedule[self.pos][1]
        self.pos += 1
        self.next_at = (self.schedule[self.pos][0]
                        if self.pos < len(self.schedule) else None)
        self._switch(me, target, code, line)

    def _switch(self, me, target, code, line):
        run = self._runnable()
        nxt = run[target % len(run)]
        if nxt == me:
            return
        self.trace.append((self.ticks, me, nxt, code.co_name, line))
        if self.on_switch:
            self.on_switch(self)
        self.current = nxt
        self.sems[nxt].release()
        self.sems[me].acquire()

    def _body(self, i):
        self.idmap[threading.get_ident()] = i
        self.sems[i].acquire()
        try:
            self.results[i] = ("ok", self.funcs[i]())
        except BaseException as e:        # noqa
            self.results[i] = ("raise", type(e).__name__, str(e)[:200])
        self.done[i] = True
        run = self._runnable()
        if not run:
            self.all_done.set()
            return
        t = self.exits.pop(0) if self.exits else 0
        nxt = run[t % len(run)]
        self.current = nxt
        self.sems[nxt].release()

    def run(self):
        ths = [threading.Thread(target=self._body, args=(i,), daemon=True)
               for i in range(len(self.funcs))]
        import scipy.odr
        odr_run = scipy.odr.ODR.run

        def run_atomic(odr):
            # scipy.odr keeps the running fit's callback in C globals
            me = self.idmap.get(threading.get_ident(), 0)
            self.atomic[me] += 1
            try:
                return odr_run(odr)
            finally:
                self.atomic[me] -= 1
        scipy.odr.ODR.run = run_atomic
        _enable(MON.events.LINE, self._cb)
        try:
            for t in ths:
                t.start()
            self.sems[0].release()
            self.all_done.wait()
            for t in ths:
                t.join()
        finally:
            scipy.odr.ODR.run = odr_run
            _disable(MON.events.LINE)
        return self.results


# ------------------------------------------------------ process-global state
def global_state(rng=True):
    """What a library call should leave as it found it."""
    import warnings
    import logging
    import locale
    import signal
    st = {}
    if rng:
        s = np.random.get_state()
        st["numpy random state"] = (s[0], s[1].tobytes(), s[2], s[3],
                                    float(s[4]))
        import random
        st["python random state"] = hash(random.getstate())
    st["numpy error settings"] = tuple(sorted(np.geterr().items()))
    st["numpy errcall"] = repr(np.geterrcall())
    po = np.get_printoptions()
    st["numpy print options"] = repr(sorted((k, repr(v)) for k, v in
                                            po.items()))
    st["warning filters"] = tuple(repr(f) for f in warnings.filters)
    st["showwarning"] = id(warnings.showwarning)
    st["cwd"] = os.getcwd()
    st["environment"] = tuple(sorted(os.environ.items()))
    st["sys.path"] = tuple(sys.path)
    st["recursion limit"] = sys.getrecursionlimit()
    st["stdout"] = id(sys.stdout)
    st["stderr"] = id(sys.stderr)
    st["signal handlers"] = tuple(
        repr(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM,
                                            signal.SIGCHLD, signal.SIGPIPE))
    st["logging level"] = (logging.getLogger().level,
                           len(logging.getLogger().handlers),
                           logging.root.manager.disable)
    st["locale"] = locale.setlocale(locale.LC_ALL)
    um = os.umask(0)
    os.umask(um)
    st["umask"] = um
    st["gc"] = gc.isenabled()
    st["threads"] = len([t for t in threading.enumerate()
                         if type(t).__name__ != "TMonitor"])
    st["open files"] = tuple(_fds())
    st["child processes"] = tuple(_children())
    mpl = sys.modules.get("matplotlib")
    if mpl is not None:
        st["matplotlib settings"] = tuple(sorted(
            (k, repr(v)) for k, v in dict.items(mpl.rcParams)
            if k != "backend"))
    plt = sys.modules.get("matplotlib.pyplot")
    if plt is not None:
        st["interactive plotting"] = plt.isinteractive()
    import decimal
    import resource
    import tempfile
    st["decimal context"] = repr(decimal.getcontext())
    st["resource limits"] = tuple(resource.getrlimit(r) for r in (
        resource.RLIMIT_FSIZE, resource.RLIMIT_NOFILE, resource.RLIMIT_STACK,
        resource.RLIMIT_CORE))
    st["niceness"] = os.getpriority(os.PRIO_PROCESS, 0)
    st["temporary directory"] = tempfile.tempdir
    st["hooks"] = (id(sys.excepthook), id(sys.displayhook),
                   id(threading.excepthook), repr(sys.gettrace())[:20]
                   if sys.gettrace() is None else "traced")
    st["switch interval"] = sys.getswitchinterval()
    import multiprocessing as mp
    st["start method"] = mp.get_start_method(allow_none=True) or \
        mp.get_all_start_methods()[0]
    import astropy
    import astropy.units as u
    reg = u.get_current_unit_registry()
    st["astropy units"] = (len(reg.all_units), len(reg.equivalencies),
                           len(reg.aliases))
    st["astropy log"] = astropy.log.level
    st["astropy settings"] = tuple(
        (m, k, repr(getattr(c, k))) for m, c in _astropy_conf()
        for k in c.keys())
    pyfftw = sys.modules.get("pyfftw")
    if pyfftw is not None:
        st["pyfftw settings"] = (pyfftw.config.NUM_THREADS,
                                 pyfftw.config.PLANNER_EFFORT,
                                 pyfftw.interfaces.cache.is_enabled())
    st["patched functions"] = tuple(id(f) for f in (
        np.random.seed, np.random.rand, np.random.randint, np.fft.fft2,
        np.fft.fftn, np.nanmean, np.nansum, np.errstate, open, print, input,
        os.getcwd, warnings.warn, warnings.simplefilter))
    return st


def _astropy_conf():
    out = []
    for m in ("astropy.io.fits", "astropy.table", "astropy.utils.data",
              "astropy.convolution", "astropy.stats", "astropy"):
        c = getattr(sys.modules.get(m), "conf", None)
        if c is not None and hasattr(c, "keys"):
            out.append((m, c))
    return out


def _fds():
    out = []
    for f in os.listdir("/proc/self/fd"):
        try:
            t = os.readlink("/proc/self/fd/" + f)
        except OSError:
            continue
        if t.startswith("/proc/") or "/site-packages/" in t:
            continue                     # e.g. matplotlib's font cache
        out.append((int(f), t))
    return sorted(out)


def _children():
    try:
        with open("/proc/self/task/%d/children" % threading.get_native_id()) \
                as f:
            return f.read().split()
    except OSError:
        return []


def state_diff(a, b, ignore=()):
    bad = []
    for k in a:
        if k in ignore:
            continue
        if a[k] != b.get(k):
            if isinstance(a[k], tuple) and isinstance(b.get(k), tuple):
                x = [v for v in a[k] if v not in b[k]][:2]
                y = [v for v in b[k] if v not in a[k]][:2]
                bad.append((k, "%.80r -> %.80r" % (x, y)))
            else:
                bad.append((k, "%.60r -> %.60r" % (a[k], b.get(k))))
    return bad
