"""Shared building blocks of the simulated runs."""
import contextlib
import hashlib
import json
import os
import shutil
import tempfile

import numpy as np

from . import catalog as C
from . import util as U
from .data import decode
from .isolate import isolate, Hang, ChildDied
from .seams import CallFaults, LineFaults


class Outcome(object):
    """ok(value) | raise(type)"""


def attempt(fn, *a, **k):
    try:
        return ("ok", fn(*a, **k))
    except Exception as e:
        return ("raise", type(e).__name__, str(e)[:160])
    except KeyboardInterrupt as e:
        return ("raise", "KeyboardInterrupt", str(e)[:160])


def ret_canon(obj, out):
    """Canonical outcome of a call; `return self` carries no information."""
    if out[0] == "raise":
        return out[:2]
    v = out[1]
    if v is obj or (type(v).__module__ or "").startswith("turbustat"):
        return ("ok", None)
    return ("ok", U.canon(v))


def run_prog(obj, prog):
    """Run a program; stop at the first exception.  -> outcomes"""
    outs = []
    for m, kw in prog:
        o = ret_canon(obj, attempt(C.call, obj, m, decode(kw)))
        outs.append(o)
        if o[0] == "raise":
            break
    return outs


def outcomes_differ(ref, got):
    """Compare two outcome lists (same program)."""
    bad = []
    for i, (r, g) in enumerate(zip(ref, got)):
        if r[0] != g[0]:
            bad.append("call %d: %s, expected %s" % (i, _o(g), _o(r)))
        elif r[0] == "ok" and not U.same(r[1], g[1]):
            bad.append("call %d returned %s, expected %s"
                       % (i, U.short(g[1]), U.short(r[1])))
    if len(ref) != len(got):
        bad.append("%d calls completed, expected %d" % (len(got), len(ref)))
    return bad


def _o(o):
    return "raised " + str(o[1]) if o[0] == "raise" else "returned"


def apply_sets(obj, sets):
    for k, v in sets:
        if k.endswith("()"):
            getattr(obj, k[:-2])(**decode(v))
        else:
            setattr(obj, k, decode(v))


def fresh(spec, prog, npseed, sets=()):
    """Reference: a fresh object, only the final program (own process)."""
    np.random.seed(npseed)
    inp = C.make_inputs(spec)
    b = attempt(C.build, spec, inp)
    if b[0] == "raise":
        return {"build": b, "outs": [], "obs": {}, "calls": 0}
    obj = b[1]
    unset = unset_names(spec)
    st = attempt(apply_sets, obj, sets)
    if st[0] == "raise":
        return {"build": st, "outs": [], "obs": {}, "calls": 0}
    np.random.seed(npseed)
    outs = run_prog(obj, prog)
    ok = all(o[0] == "ok" for o in outs)
    return {"build": ("ok",), "outs": outs, "obs": U.observe(obj) if ok
            else {}, "ok": ok, "unset": unset}


def unset_names(spec):
    """Public names that are None before anything has been computed."""
    obj = C.build(spec, C.make_inputs(spec))
    return [k for k, v in U.public_state(obj) if v is None]


def count_calls(spec, prog, npseed, kind="memory"):
    """How many fallible library calls the program makes."""
    np.random.seed(npseed)
    inp = C.make_inputs(spec)
    b = attempt(C.build, spec, inp)
    if b[0] == "raise":
        return 0, []
    with (LineFaults if kind == "between" else CallFaults)(record=True) as cf:
        run_prog(b[1], prog)
    return cf.count, cf.sites.list()


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="turbusim-")
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def safe(fn, *a, **k):
    """isolate() with hangs and interpreter deaths as results."""
    try:
        return ("ok", isolate(fn, *a, **k))
    except Hang as e:
        return ("hang", str(e))
    except ChildDied as e:
        return ("died", e.status)


def sig(*parts):
    return hashlib.sha1(json.dumps(parts, sort_keys=True, default=str)
                        .encode()).hexdigest()[:16]


def result(viol, stats, sig_, digest_of, sample=None, trace=None):
    return {"violations": viol, "stats": stats, "sig": sig_,
            "digest": U.digest([digest_of, [k for k, _ in viol]]),
            "sample": sample, "trace": trace}


def data_brief(spec):
    return dict((r, "%s %s %s %s" % (d.get("container", "array"),
                                     tuple(d["shape"]),
                                     d.get("dtype", "f8"),
                                     d.get("nans", "")))
                for r, d in spec["data"].items())


def brief(spec, progs):
    return {"stat": spec["stat"], "data": data_brief(spec),
            "init": spec["init"], "programs": progs}
