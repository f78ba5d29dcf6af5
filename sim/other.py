"""Other interpreters: real processes with another hash seed, optimisation
level, locale or set of installed packages, serving requests by forking.

    Interp("nofftw").call("sim.props.s14:work", plan) -> ("ok", v) | (kind, ..)
"""
import importlib
import os
import pickle
import struct
import subprocess
import sys
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

VARIANTS = {
    "hash1": {"env": {"PYTHONHASHSEED": "1"}},
    "hash2": {"env": {"PYTHONHASHSEED": "4242", "LANG": "C", "LC_ALL": "C",
                      "TZ": "Asia/Tokyo"}, "args": ["-O"]},
    "nofftw": {"env": {"PYTHONHASHSEED": "77"},
               "block": ["pyfftw", "pyfftw.interfaces",
                         "pyfftw.interfaces.numpy_fft"]},
    "bare": {"env": {"PYTHONHASHSEED": "5", "OPENBLAS_NUM_THREADS": "3",
                     "OMP_NUM_THREADS": "3"},
             "block": ["pyfftw", "pyfftw.interfaces",
                       "pyfftw.interfaces.numpy_fft", "emcee", "corner"]},
}


class Interp(object):
    def __init__(self, variant):
        v = VARIANTS[variant]
        env = dict(os.environ)
        env.update(v.get("env", {}))
        env["SIM_BLOCK"] = ",".join(v.get("block", []))
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.p = subprocess.Popen(
            [sys.executable] + v.get("args", []) +
            ["-m", "sim.other", str(r1), str(w2)], cwd=HERE, env=env,
            pass_fds=(r1, w2), stdin=subprocess.DEVNULL)
        os.close(r1)
        os.close(w2)
        self.w, self.r = w1, r2

    def call(self, target, *args):
        _send(self.w, (target, args))
        out = _recv(self.r)
        if out is None:
            raise RuntimeError("the other interpreter ended")
        if out[0] == "harness":
            raise RuntimeError(out[1])
        return out


_running = {}


def interp(variant):
    k = (os.getpid(), variant)
    if k not in _running:
        _running[k] = Interp(variant)
    return _running[k]


def _send(fd, obj):
    d = pickle.dumps(obj, protocol=4)
    d = struct.pack("<Q", len(d)) + d
    mv = memoryview(d)
    while mv:
        n = os.write(fd, mv[:65536])
        mv = mv[n:]


def _read(fd, n):
    buf = b""
    while len(buf) < n:
        c = os.read(fd, n - len(buf))
        if not c:
            return None
        buf += c
    return buf


def _recv(fd):
    h = _read(fd, 8)
    if h is None:
        return None
    d = _read(fd, struct.unpack("<Q", h)[0])
    return None if d is None else pickle.loads(d)


def serve(rfd, wfd):
    os.set_inheritable(rfd, False)
    os.set_inheritable(wfd, False)
    sys.path.insert(0, os.environ.get("SIM_REPO", "/repo"))
    from . import warm
    from .isolate import Hang, ChildDied, isolate
    warm.import_all([b for b in os.environ["SIM_BLOCK"].split(",") if b])
    while True:
        req = _recv(rfd)
        if req is None:
            os._exit(0)
        target, args = req
        try:
            m, f = target.split(":")
            fn = getattr(importlib.import_module(m), f)
            out = ("ok", isolate(fn, *args))
        except Hang as e:
            out = ("hang", str(e))
        except ChildDied as e:
            out = ("died", e.status)
        except BaseException:
            out = ("harness", traceback.format_exc())
        _send(wfd, out)


if __name__ == "__main__":
    from sim import other
    other.serve(int(sys.argv[1]), int(sys.argv[2]))
