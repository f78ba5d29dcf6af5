"""Storage faults, confined to one scratch directory.

    full     the disk has room for `n` bytes of each file: short write, then
             an error (RLIMIT_FSIZE)
    cut      the process is killed when a file reaches `n` bytes
    event    the `n`-th open-for-writing / rename / remove / mkdir in the
             scratch directory fails with `errno`, or (crash) the process
             dies just before it
    read     the `n`-th open-for-reading in the scratch directory fails
    write    the `n`-th write() call fails with EIO after writing a part
    close    closing the file fails and its last `tail` bytes never arrive
    line     the process dies, or is interrupted, before the `n`-th executed
             TurbuStat source line
"""
import builtins
import errno
import io
import os
import resource
import signal
import sys

from .seams import LineClock

EVENTS = ("open", "os.rename", "os.remove", "os.mkdir", "os.truncate",
          "os.link", "os.symlink", "shutil.move", "shutil.copyfile")


class Faulty(object):
    """A file object opened for writing."""

    def __init__(self, disk, f, path):
        self.__dict__.update(_d=disk, _f=f, _p=path)

    def write(self, data):
        d = self._d
        k = d.writes
        d.writes += 1
        flt = d.fault
        if d.armed and flt["kind"] == "write" and k == flt["n"]:
            d.fired = "write %d" % k
            mv = memoryview(data).cast("B") if not isinstance(data, str) \
                else data
            part = mv[:int(len(mv) * flt.get("part", .5))]
            self._f.write(part)
            self._f.flush()
            raise OSError(errno.EIO, "injected I/O error")
        return self._f.write(data)

    def close(self):
        if self._f.closed:
            return
        d = self._d
        self._f.close()
        flt = d.fault
        if d.armed and flt["kind"] == "close" and not d.fired:
            d.fired = "close"
            n = os.path.getsize(self._p)
            os.truncate(self._p, max(0, n - flt.get("tail", 1)))
            raise OSError(errno.ENOSPC, "injected: no space left on device")

    def __enter__(self):
        self._f.__enter__()
        return self

    def __exit__(self, *a):
        self.close()

    def __iter__(self):
        return iter(self._f)

    def __getattr__(self, k):
        return getattr(self._f, k)


class Disk(object):
    def __init__(self, root, fault):
        self.root = os.path.realpath(root)
        self.fault = fault or {"kind": "none"}
        self.armed = False
        self.fired = None
        self.events = 0
        self.writes = 0
        self.lines = 0
        self.log = []
        sys.addaudithook(self._audit)

    def inside(self, p):
        try:
            p = os.fsdecode(p)
        except TypeError:
            return False
        return os.path.realpath(p).startswith(self.root + os.sep)

    def _audit(self, name, args):
        f = self.fault
        if not self.armed or name not in EVENTS or \
                (f["kind"] == "read" and name != "open"):
            return
        if name == "open":
            if not isinstance(args[0], (str, bytes)):
                return
            mode, flags = args[1], args[2]
            wr = (isinstance(mode, str) and any(c in mode for c in "wax+")) \
                or (isinstance(flags, int) and flags & (os.O_WRONLY |
                                                        os.O_RDWR))
            if (f["kind"] == "read") == bool(wr):
                return
        if not any(self.inside(a) for a in args[:2]
                   if isinstance(a, (str, bytes, os.PathLike))):
            return
        k = self.events
        self.events += 1
        self.log.append(name)
        if f["kind"] in ("event", "read") and k == f["n"]:
            self.fired = "%s %d" % (name, k)
            if f.get("crash"):
                os._exit(77)
            raise OSError(f.get("errno", errno.ENOSPC), "injected: " + name)

    def _open(self, file, mode="r", *a, **k):
        f = self.real_open(file, mode, *a, **k)
        if self.armed and isinstance(file, (str, bytes, os.PathLike)) and \
                any(c in mode for c in "wax+") and self.inside(file):
            return Faulty(self, f, file)
        return f

    def _tick(self, n, code, line):
        f = self.fault
        if f["kind"] == "line" and n == f["n"]:
            self.fired = "line %d (%s)" % (n, code.co_name)
            if f["how"] == "crash":
                os._exit(77)
            if f["how"] == "interrupt":
                raise KeyboardInterrupt("injected interrupt")
            raise MemoryError("injected allocation failure")

    def call(self, fn, *a, **k):
        """Call fn with the fault armed."""
        f = self.fault
        self.real_open = builtins.open
        wrap = f["kind"] in ("write", "close", "none")
        if wrap:
            builtins.open = self._open
        old = resource.getrlimit(resource.RLIMIT_FSIZE)
        self.armed = True
        lc = LineClock(self._tick)
        try:
            if f["kind"] in ("full", "cut"):
                if f["kind"] == "cut":
                    signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
                resource.setrlimit(resource.RLIMIT_FSIZE, (f["n"], old[1]))
            with lc:
                return fn(*a, **k)
        finally:
            resource.setrlimit(resource.RLIMIT_FSIZE, old)
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            self.armed = False
            self.lines = lc.n
            if wrap:
                builtins.open = self.real_open
