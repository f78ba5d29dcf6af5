"""S10: saving is all-or-nothing: whatever goes wrong while results are being
saved, the name still holds complete results, old or new."""
import errno
import os
import pickle

import numpy as np

from .. import catalog as C
from .. import util as U
from ..disk import Disk
from ..isolate import isolate
from ..work import attempt, brief, result, run_prog, safe, scratch, sig

LEVEL = "fault_enumeration"
RUNS = {"quick": 1500, "thorough": 60000}
RULE = ("one run = compute, save, compute something else, save again under "
        "the same name with one storage fault (full disk at byte n, death at "
        "byte n, failing or fatal open/rename/remove, failing write or "
        "close, death or interrupt at a source line), then load in a "
        "pristine process, retry without the fault, load again, and try to "
        "load truncated copies; non-trivial when the fault fired")
MEASURE = "distinct (statistic, fault, place where it fired) runs"
REAL = ["all TurbuStat statistics, pickle, the filesystem, RLIMIT_FSIZE"]
STUB = ["the failing storage operation", "process death (_exit, SIGXFSZ)"]
ASSUMPTIONS = ["what a dead process has written survives (no power loss)"]
SHRINK_KEEP = ("spec", "stat", "data", "shape", "seed", "ndim", "container",
               "dtype", "npseed", "init", "prog", "name", "keep", "first",
               "second", "fault", "kind", "n", "frac", "centroid", "moment0",
               "linewidth", "how", "cuts")


def gen_fault(rng):
    k = rng.choice(["full", "full", "cut", "cut", "event", "event", "event",
                    "write", "write", "close", "line", "line", "line"])
    f = {"kind": k}
    if k in ("full", "cut"):
        f["frac"] = rng.choice([0.0, 1.0, 1.0, None])
        if f["frac"] is None or rng.random() < .6:
            f["frac"] = round(rng.random(), 4)
        f["off"] = rng.choice([0, -1, 1])
    elif k == "event":
        f["n"] = rng.choice([0, 0, 0, 1, 1, 2])
        f["crash"] = rng.random() < .4
        f["errno"] = rng.choice([errno.ENOSPC, errno.EIO, errno.EACCES,
                                 errno.EDQUOT])
    elif k == "write":
        f["frac"] = round(rng.random(), 4)
        f["part"] = rng.choice([0.0, 0.5, 1.0])
    elif k == "close":
        f["tail"] = rng.choice([1, 7, 300, 10 ** 7])
    else:
        f["frac"] = round(rng.random(), 4)
        f["how"] = rng.choice(["crash", "interrupt", "memory"])
    return f


def gen(rng, tier, idx):
    stat = C.SAVABLE[idx % len(C.SAVABLE)]
    f = {"nofftw": True}
    spec = C.gen_spec(rng, stat, f)
    return {"spec": spec, "first": C.gen_program(rng, spec, f),
            "second": C.gen_program(rng, spec, f),
            "keep": [rng.random() < .4, rng.random() < .4],
            "exists": rng.random() < .8,
            "name": rng.choice(["res", "res.pkl"]),
            "fault": gen_fault(rng),
            "cuts": [round(rng.random(), 4) for _ in range(2)] + [0.0, 1.0],
            "npseed": rng.randrange(2 ** 31)}


def place(fault, size, writes, lines):
    """Absolute position of a fault given the measured size of a save."""
    f = dict(fault)
    if f["kind"] in ("full", "cut"):
        f["n"] = max(0, min(size - 1, int(f["frac"] * size) +
                            f.get("off", 0)))
    elif f["kind"] == "write":
        f["n"] = min(max(writes - 1, 0), int(f["frac"] * writes))
    elif f["kind"] == "line":
        f["n"] = 1 + min(max(lines - 1, 0), int(f["frac"] * lines))
    return f


def prepare(plan, d, where="."):
    """-> object after the second computation; old model"""
    np.random.seed(plan["npseed"])
    obj = C.build(plan["spec"], C.make_inputs(plan["spec"]))
    run_prog(obj, plan["first"])
    old = None
    if plan["exists"]:
        obj.save_results(os.path.join(d, plan["name"]),
                         keep_data=plan["keep"][0])
        old = C.STATS[plan["spec"]["stat"]].cls().load_results(
            os.path.join(d, "res.pkl"))
        old = U.observe(old)
    run_prog(obj, plan["second"])
    return obj, old


def probe(plan, d):
    """Without a fault: what a save looks like, and what it stores."""
    obj, old = prepare(plan, d)
    dk = Disk(d, None)
    dk.call(obj.save_results, os.path.join(d, plan["name"]),
            keep_data=plan["keep"][1])
    fn = os.path.join(d, "res.pkl")
    new = U.observe(type(obj).load_results(fn))
    return {"size": os.path.getsize(fn), "writes": dk.writes,
            "lines": dk.lines, "events": dk.log, "old": old, "new": new,
            "live": U.observe(obj)}


def stored(obj, plan):
    """What a save of this very object holds (own process: the object is
    left alone)."""
    with scratch() as d:
        obj.save_results(os.path.join(d, plan["name"]),
                         keep_data=plan["keep"][1])
        return U.observe(type(obj).load_results(os.path.join(d, "res.pkl")))


def play(plan, d, fault, note):
    obj, old = prepare(plan, d)
    with open(note, "wb") as f:
        pickle.dump({"old": old, "new": isolate(stored, obj, plan),
                     "live": U.observe(obj)}, f)
    dk = Disk(d, fault)
    o = attempt(dk.call, obj.save_results, os.path.join(d, plan["name"]),
                keep_data=plan["keep"][1])
    files = sorted(os.listdir(d))
    return {"out": o if o[0] == "raise" else ("ok",), "fired": dk.fired,
            "live": U.observe(obj), "files": files}


def retry(plan, d):
    """Another process (or the next run) saves again: no fault this time."""
    with scratch() as d2:
        obj, _ = prepare(plan, d2)
    new = isolate(stored, obj, plan)
    obj.save_results(os.path.join(d, plan["name"]),
                     keep_data=plan["keep"][1])
    return new


def load(plan, fn):
    cls = C.STATS[plan["spec"]["stat"]].cls()
    if not os.path.exists(fn):
        return ("absent",)
    o = attempt(cls.load_results, fn)
    if o[0] == "raise":
        return o
    if type(o[1]) is not cls:
        return ("ok", {"<type>": type(o[1]).__name__})
    return ("ok", U.observe(o[1]))


def equal(a, b):
    return not U.diff(a, b) and set(a) == set(b)


def execute(plan):
    stat = plan["spec"]["stat"]
    stats = {"stat:" + stat: 1}
    with scratch() as d:
        pr = safe(_probe_safe, plan, d)
        if pr[0] != "ok" or pr[1][0] != "ok":
            stats["probe failed"] = 1
            return result([], stats, None, [str(pr)[:200]])
        pr = pr[1][1]
        good = os.path.join(d, "res.pkl")
        torn = []
        with open(good, "rb") as f:
            whole = f.read()
        for c in plan["cuts"]:
            n = min(int(c * len(whole)), len(whole) - 1)
            fn = os.path.join(d, "torn.pkl")
            with open(fn, "wb") as f:
                f.write(whole[:n])
            torn.append((n, isolate(load, plan, fn)))
    fault = place(plan["fault"], pr["size"], pr["writes"], pr["lines"])
    viol = []
    for n, o in torn:
        if o[0] == "ok":
            viol.append(("%s:torn file loads" % stat, "the first %d of %d "
                         "bytes load without an error" % (n, pr["size"])))
    with scratch() as d, scratch() as side:
        note = os.path.join(side, "note")
        try:
            r = isolate(play, plan, d, fault, note, died_ok=True)
        except Exception as e:                              # Hang
            return result([("%s:hang" % stat, str(e))], stats, None, ["hang"])
        with open(note, "rb") as f:
            pr.update(pickle.load(f))
        died = r[0] == "died"
        got = None if died else r[1]
        fired = died or bool(got["fired"]) or (
            fault["kind"] == "full" and got["out"][0] == "raise")
        what = fault["kind"]
        if fault["kind"] == "event":
            what += " crash" if fault.get("crash") else " error"
        if fault["kind"] == "line":
            what += " " + fault["how"]
        if fired:
            stats["fault:" + what] = 1
        fn = os.path.join(d, "res.pkl")
        on_disk = isolate(load, plan, fn)
        state = _state(on_disk, pr)
        where = "%s at %s" % (what, fault.get("n", fault.get("tail")))
        if died:
            allowed = ["old", "new"] if plan["exists"] else ["absent", "new"]
        elif got["out"][0] == "ok":
            allowed = ["new"]
        else:
            allowed = ["old", "new"] if plan["exists"] else ["absent", "new"]
        if state == "same":
            state = allowed[0]
        if state not in allowed:
            viol.append(("%s:%s" % (stat, "save reported success"
                                    if not died and got["out"][0] == "ok"
                                    else "results lost"),
                         "after %s the file is %s, expected %s"
                         % (where, state, " or ".join(allowed))))
        if not died:
            if got["out"][0] == "ok" and fired and \
                    fault["kind"] != "line" and state != "new":
                viol.append(("%s:silent" % stat, "%s was not reported"
                             % where))
            if not equal(pr["live"], got["live"]):
                viol.append(("%s:live object" % stat, "the failed save "
                             "changed the object: %s"
                             % (U.diff(pr["live"], got["live"])[:2],)))
            extra = [f for f in got["files"] if f != "res.pkl"]
            if extra:
                viol.append(("%s:left over" % stat, "%s left %s behind"
                             % (where, extra)))
        rr = safe(_retry_safe, plan, d)
        after = isolate(load, plan, fn)
        if rr[0] != "ok" or rr[1][0] != "ok":
            viol.append(("%s:retry" % stat, "saving again after %s: %s"
                         % (where, rr)))
        elif after[0] != "ok" or not equal(after[1], rr[1][1]):
            viol.append(("%s:retry" % stat, "saving again after %s: file %s"
                         % (where, _state(after, {"old": pr["old"],
                                                  "new": rr[1][1]}))))
    stats["ticks"] = pr["lines"]
    stats["died"] = int(died)
    return result(viol, stats, sig(stat, what, fault.get("n"),
                                   plan["exists"]) if fired else None,
                  [state, died, None if died else got["out"][:2]],
                  sample=dict(brief(plan["spec"], [plan["first"],
                                                   plan["second"]]),
                              fault=fault, outcome=state),
                  trace={"fault": fault, "fired": None if died else
                         got["fired"], "events": pr["events"]})


def _probe_safe(plan, d):
    return attempt(probe, plan, d)


def _retry_safe(plan, d):
    return attempt(retry, plan, d)


def _state(o, pr):
    if o[0] == "absent":
        return "absent"
    if o[0] == "raise":
        return "unreadable (%s)" % o[1]
    n = equal(o[1], pr["new"])
    if pr["old"] is not None and equal(o[1], pr["old"]):
        return "same" if n else "old"
    return "new" if n else "something else"
