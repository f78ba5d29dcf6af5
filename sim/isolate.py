"""Run a function in a forked child so that every simulated execution starts
from the same pristine process image (only durable state survives a run)."""
import os
import pickle
import select
import signal
import struct
import sys
import time
import traceback


class Hang(Exception):
    pass


class ChildDied(Exception):
    def __init__(self, status):
        Exception.__init__(self, "child status %r" % (status,))
        self.status = status


class HarnessError(Exception):
    pass


HANG_S = float(os.environ.get("SIM_HANG_S", "90"))


def quiet():
    """Send the child's chatter to /dev/null."""
    fd = os.open(os.devnull, os.O_WRONLY)
    os.dup2(fd, 1)
    if not os.environ.get("SIM_DEBUG"):
        os.dup2(fd, 2)
    os.close(fd)


def _cover():
    """Which TurbuStat lines the simulated runs reach (SIM_COV=dir)."""
    from .seams import package_codes
    mon, seen = sys.monitoring, set()

    def cb(code, line):
        seen.add((code.co_filename, line))
        return mon.DISABLE
    mon.use_tool_id(3, "cov")
    mon.register_callback(3, mon.events.LINE, cb)
    for c in package_codes():
        mon.set_local_events(3, c, mon.events.LINE)
    return seen


def _dump(seen):
    fn = os.path.join(os.environ["SIM_COV"], "%d.%d" % (os.getpid(),
                                                        time.time_ns()))
    with open(fn, "wb") as f:
        pickle.dump(seen, f)


def isolate(fn, *args, **kw):
    """Call fn(*args) in a forked child and return its (pickled) result.
    `died_ok=True`: return ("died", status) if the child exits without
    answering (used for injected crashes)."""
    died_ok = kw.pop("died_ok", False)
    timeout = kw.pop("timeout", HANG_S)
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            quiet()
            try:
                os.setpgid(0, 0)
            except OSError:
                pass
            try:
                cov = _cover() if os.environ.get("SIM_COV") else None
                out = ("ok", fn(*args))
                if cov is not None:
                    _dump(cov)
            except BaseException:
                out = ("err", traceback.format_exc())
            data = pickle.dumps(out, protocol=4)
            data = struct.pack("<Q", len(data)) + data
            # write may be limited by an injected RLIMIT only for files
            mv = memoryview(data)
            while mv:
                n = os.write(w, mv[:65536])
                mv = mv[n:]
        except BaseException:
            code = 97
        finally:
            os._exit(code)
    os.close(w)
    buf = bytearray()
    deadline = time.monotonic() + timeout
    hung = False
    try:
        while True:
            left = deadline - time.monotonic()
            if left <= 0:
                hung = True
                break
            rl, _, _ = select.select([r], [], [], min(left, 1.0))
            if rl:
                chunk = os.read(r, 1 << 16)
                if not chunk:
                    break
                buf += chunk
                if len(buf) >= 8 and len(buf) >= 8 + struct.unpack(
                        "<Q", bytes(buf[:8]))[0]:
                    break
    finally:
        os.close(r)
        try:
            os.killpg(pid, signal.SIGKILL)     # the child and strays
        except OSError:
            pass
        if hung:
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
    _, status = os.waitpid(pid, 0)
    if hung:
        raise Hang("no answer in %ss" % timeout)
    if len(buf) < 8 or len(buf) < 8 + struct.unpack("<Q", bytes(buf[:8]))[0]:
        if died_ok:
            return ("died", status)
        raise ChildDied(status)
    out = pickle.loads(bytes(buf[8:]))
    if out[0] == "err":
        raise HarnessError(out[1])
    if died_ok:
        return ("ok", out[1])
    return out[1]
