"""S09: saved results load back as they were, in any process, and saving
leaves the live object as it was."""
import copy
import os

import numpy as np

from .. import catalog as C
from .. import util as U
from ..isolate import isolate
from ..work import (attempt, brief, fresh, outcomes_differ, result, run_prog,
                    safe, scratch, sig)

LEVEL = "exploration"
RUNS = {"quick": 1500, "thorough": 60000}
RULE = ("one run = a history of computations, saves (with and without data, "
        "over existing names, from loaded copies, by another object of the "
        "same kind), loads and reads on one statistic object; each file is read back by the saving process and "
        "by a pristine process and compared with the model (the observables "
        "of the object when it was saved); objects saved with their data are "
        "re-run after loading and compared with a fresh object, partly "
        "computed ones are completed and compared with the live object; "
        "non-trivial when at least one file was loaded")
MEASURE = "distinct (statistic, sequence of operations) histories"
REAL = ["all TurbuStat statistics, pickle, the filesystem"]
STUB = ["nothing"]
ASSUMPTIONS = ["the loading process has the same library versions"]
SHRINK_KEEP = ("spec", "stat", "data", "shape", "seed", "ndim", "container",
               "dtype", "npseed", "init", "op", "prog", "name", "keep",
               "after", "cut", "centroid", "moment0", "linewidth", "as")

DATA = {"MVC": ("data", "centroid", "moment0", "linewidth")}


def raw_names(stat):
    return DATA.get(stat, ("data",))


def gen(rng, tier, idx):
    stat = C.SAVABLE[idx % len(C.SAVABLE)]
    f = {}
    spec = C.gen_spec(rng, stat, f)
    prog = C.gen_program(rng, spec, f)
    ops = []
    names = ["a", "b.pkl", "sub/c"]
    n = rng.randrange(2, 6)
    if rng.random() < 0.8:
        ops.append({"op": "prog", "prog": prog if rng.random() < 0.75 else
                    prog[:rng.randrange(1, len(prog) + 1)]})
    saved = []
    for _ in range(n):
        r = rng.random()
        if r < 0.45 or not saved:
            nm = rng.choice(names)
            ops.append({"op": "save", "name": nm, "keep": rng.random() < .5})
            saved.append(nm)
        elif r < 0.6:
            ops.append({"op": "prog", "prog": C.gen_program(rng, spec, f)})
        elif r < 0.75:
            ops.append({"op": "load", "name": rng.choice(saved)})
        elif r < 0.83:
            ops.append({"op": "resave", "name": rng.choice(saved),
                        "as": rng.choice(["r1", "r2"])})
        elif r < 0.94:
            # another object of the same kind saved under a name in use,
            # which a script writing "latest.pkl" does all day
            nm = rng.choice(saved)
            ops.append({"op": "load", "name": nm})
            ops.append({"op": "swap", "step": rng.choice([1, 7])})
            ops.append({"op": "save", "name": nm, "keep": rng.random() < .5})
            ops.append({"op": "load", "name": nm})
        else:
            ops.append({"op": "read"})
    plan = {"spec": spec, "ops": ops, "after": C.gen_program(rng, spec, f),
            "npseed": rng.randrange(2 ** 31)}
    for _ in range(4):
        p = C.gen_program(rng, spec, f)
        if len(p) > 1:
            plan["half"] = {"prog": p, "cut": rng.randrange(1, len(p)),
                            "keep": rng.random() < .4}
            break
    return plan


def path(d, name):
    return os.path.join(d, name)


def disk(name):
    return name if name.endswith(".pkl") else name + ".pkl"


def play(plan, d):
    spec = plan["spec"]
    np.random.seed(plan["npseed"])
    inp = C.make_inputs(spec)
    b = attempt(C.build, spec, inp)
    if b[0] == "raise":
        return {"build": b}
    obj = b[1]
    cls = type(obj)
    model = {}
    bad = []
    trace = []
    last, swapped = None, False
    first = obj
    for op in plan["ops"]:
        trace.append(op["op"])
        if op["op"] == "prog":
            np.random.seed(plan["npseed"])
            o = run_prog(obj, op["prog"])
            last = None
            if all(x[0] == "ok" for x in o):
                last = op["prog"]
        elif op["op"] == "swap":
            # another field, the same computation
            sp = copy.deepcopy(spec)
            for dd in sp["data"].values():
                dd["seed"] += op["step"]
            b = attempt(lambda: C.build(sp, C.make_inputs(sp)))
            np.random.seed(plan["npseed"])
            if b[0] == "ok" and (last is None or all(
                    x[0] == "ok" for x in run_prog(b[1], last))):
                obj, swapped = b[1], True
        elif op["op"] == "read":
            U.observe(obj)
        elif op["op"] == "save":
            before = U.observe(obj)
            o = attempt(obj.save_results, path(d, op["name"]),
                        keep_data=op["keep"])
            after = U.observe(obj)
            for k, m in U.diff(before, after):
                bad.append(("live " + k, "saving changed %s: %s" % (k, m)))
            for k in after:
                if k not in before:
                    bad.append(("live " + k, "saving added %s" % k))
            if o[0] == "raise":
                bad.append(("save " + o[1], "save_results raised %s" % (o[1:],)))
                continue
            model[disk(op["name"])] = (before, op["keep"], swapped)
        elif op["op"] in ("load", "resave"):
            o = attempt(cls.load_results, path(d, disk(op["name"])))
            if o[0] == "raise":
                bad.append(("load", "load_results raised %s" % (o[1:],)))
                continue
            got = U.observe(o[1])
            ref, keep, sw = model[disk(op["name"])]
            bad.extend(compare(spec["stat"], ref, keep, got, o[1], cls))
            if op["op"] == "resave":
                o2 = attempt(o[1].save_results, path(d, op["as"]),
                             keep_data=True)
                if o2[0] == "raise":
                    bad.append(("resave", "saving a loaded object raised %s"
                                % (o2[1:],)))
                else:
                    model[disk(op["as"])] = (ref, keep, sw)
    # the live object still works as if nothing had been saved
    obj = first
    np.random.seed(plan["npseed"])
    outs = run_prog(obj, plan["after"])
    ok = all(o[0] == "ok" for o in outs)
    files = sorted(os.path.relpath(os.path.join(r, f), d)
                   for r, _, fs in os.walk(d) for f in fs)
    return {"build": ("ok",), "model": model, "bad": bad, "trace": trace,
            "outs": outs, "obs": U.observe(obj) if ok else {},
            "files": files}


def half_live(plan, d):
    """Save a partly computed object, go on computing."""
    h = plan["half"]
    spec = plan["spec"]
    np.random.seed(plan["npseed"])
    obj = C.build(spec, C.make_inputs(spec))
    o1 = run_prog(obj, h["prog"][:h["cut"]])
    if any(o[0] != "ok" for o in o1):
        return None
    obj.save_results(path(d, "half"), keep_data=h["keep"])
    np.random.seed(plan["npseed"])
    o2 = run_prog(obj, h["prog"][h["cut"]:])
    if any(o[0] != "ok" for o in o2):
        return None
    return {"outs": o2, "obs": U.observe(obj)}


def half_loaded(plan, d):
    h = plan["half"]
    cls = C.STATS[plan["spec"]["stat"]].cls()
    obj = cls.load_results(path(d, "half.pkl"))
    np.random.seed(plan["npseed"])
    o2 = run_prog(obj, h["prog"][h["cut"]:])
    return {"outs": o2, "obs": U.observe(obj)}


def compare(stat, ref, keep, got, obj, cls):
    bad = []
    raw = raw_names(stat)
    if type(obj) is not cls:
        bad.append(("type", "loaded a %s" % type(obj).__name__))
    for k, m in U.diff(ref, got, ignore=() if keep else raw):
        bad.append((k, "%s after loading: %s (when saved first)" % (k, m)))
    for k, v in got.items():
        if k not in ref or (not is_raised(v) and is_raised(ref[k])):
            if k in raw:
                continue
            bad.append((k, "%s appeared after loading" % k))
    if not keep:
        for k in raw:
            v = got.get(k)
            if k in got and v is not None and not is_raised(v):
                bad.append((k, "the file holds %s although the data were not "
                            "to be kept" % k))
    return bad


def is_raised(v):
    return isinstance(v, tuple) and v and v[0] == "raised"


def load_pristine(plan, d, name, keep, rerun):
    spec = plan["spec"]
    cls = C.STATS[spec["stat"]].cls()
    o = attempt(cls.load_results, path(d, name))
    if o[0] == "raise":
        return {"err": o[1:]}
    obj = o[1]
    out = {"obs": U.observe(obj), "same_type": type(obj) is cls}
    again = attempt(cls.load_results, path(d, name))
    if rerun:
        np.random.seed(plan["npseed"])
        outs = run_prog(obj, plan["after"])
        out["outs"] = outs
        ok = all(x[0] == "ok" for x in outs)
        out["rerun"] = U.observe(obj) if ok else {}
    # a second copy is not affected by what was done to the first
    if again[0] == "ok":
        out["second"] = U.observe(again[1])
    return out


def execute(plan):
    spec = plan["spec"]
    stat = spec["stat"]
    stats = {"stat:" + stat: 1}
    with scratch() as d:
        os.mkdir(os.path.join(d, "sub"))
        r = safe(play, plan, d)
        if r[0] != "ok":
            return result([("%s:%s" % (stat, r[0]), "no answer: %s" % (r,))],
                          stats, None, [r[0]])
        got = r[1]
        if got["build"][0] != "ok":
            stats["constructor rejected the data"] = 1
            return result([], stats, None, [got["build"]])
        viol = [("%s:%s" % (stat, k), m) for k, m in got["bad"]]
        ref = isolate(fresh, spec, plan["after"], plan["npseed"])
        loads = 0
        for name in sorted(got["model"]):
            m, keep, sw = got["model"][name]
            lo = safe(load_pristine, plan, d, name, keep, keep and not sw)
            if lo[0] != "ok":
                viol.append(("%s:%s" % (stat, lo[0]), "%s" % (lo,)))
                continue
            lo = lo[1]
            if "err" in lo:
                viol.append(("%s:load" % stat, "%s does not load in another "
                             "process: %s" % (name, lo["err"])))
                continue
            loads += 1

            class _T(object):
                pass
            t = _T()
            for k, msg in compare(stat, m, keep, lo["obs"], t, _T):
                viol.append(("%s:%s" % (stat, k), "another process: " + msg))
            if "second" in lo:
                for k, msg in compare(stat, m, keep, lo["second"], t, _T):
                    viol.append(("%s:second %s" % (stat, k),
                                 "second load: " + msg))
            if keep and "outs" in lo:
                stats["re-run after load"] = stats.get(
                    "re-run after load", 0) + 1
                # (bytes are native after loading: may accept more, not less)
                bad = outcomes_differ(ref["outs"], lo["outs"]) \
                    if ref["ok"] else []
                for msg in bad:
                    viol.append(("%s:rerun outcome" % stat,
                                 "loaded object: " + msg))
                if ref["ok"] and not bad:
                    for k, msg in U.diff(ref["obs"], lo["rerun"],
                                            unset=ref["unset"]):
                        viol.append(("%s:rerun %s" % (stat, k), "re-run of "
                                     "the loaded object: %s %s" % (k, msg)))
        want = sorted(got["model"])
        if got["files"] != want:
            viol.append(("%s:files" % stat, "files on disk %s, expected %s"
                         % (got["files"], want)))
        bad = outcomes_differ(ref["outs"], got["outs"])
        for msg in bad:
            viol.append(("%s:live outcome" % stat, "live object: " + msg))
        if ref["ok"] and not bad:
            for k, msg in U.diff(ref["obs"], got["obs"], unset=ref["unset"]):
                viol.append(("%s:live %s" % (stat, k), "live object after "
                             "saving: %s %s" % (k, msg)))
        if plan.get("half"):
            h = plan["half"]
            live = isolate(half_live, plan, d)
            if live is not None:
                stats["half-computed objects finished after loading"] = 1
                lo = isolate(half_loaded, plan, d)
                bad = outcomes_differ(live["outs"], lo["outs"])
                if bad and not h["keep"] and lo["outs"][-1][0] == "raise":
                    # refused for want of the data: an honest answer
                    stats["half: data needed"] = 1
                    bad, live["obs"] = [], {}
                for msg in bad:
                    viol.append(("%s:half outcome" % stat, "finishing a "
                                 "loaded object (keep_data=%s): %s"
                                 % (h["keep"], msg)))
                if not bad:
                    for k, msg in U.diff(live["obs"], lo["obs"], ignore=() if
                                         h["keep"] else raw_names(stat)):
                        viol.append(("%s:half %s" % (stat, k), "finishing a "
                                     "loaded object: %s %s" % (k, msg)))
    stats["files loaded"] = loads
    for t in got["trace"]:
        stats["op:" + t] = stats.get("op:" + t, 0) + 1
    ops = [(o["op"], o.get("name"), o.get("keep"),
            [(m, sorted(kw)) for m, kw in o.get("prog", [])])
           for o in plan["ops"]]
    return result(viol, stats, sig(stat, ops) if loads else None,
                  [got["outs"], got["obs"], sorted(got["model"])],
                  sample=brief(spec, [plan["ops"], plan["after"]]),
                  trace=got["trace"])
