"""S07: an analysis object answers its latest request, whatever it was asked
before.  Histories of public calls (different options, stepwise API, reads of
results, rejected calls) against a fresh object in a separate process."""
import numpy as np

from .. import catalog as C
from .. import display as D
from .. import mutate as M
from .. import util as U
from ..data import decode
from ..isolate import isolate
from ..work import (apply_sets, attempt, brief, fresh, outcomes_differ, result, run_prog,
                    safe, sig, scratch)

LEVEL = "exploration"
RUNS = {"quick": 3200, "thorough": 150000}
RULE = ("one run = one statistic object, seeded data and options, a history "
        "of 1-4 earlier programs (runs with other options, stepwise calls, "
        "reads of every public attribute, rejected calls, saves, plots, changed "
        "public settings (lags, scales, radius, distance, weights), runs of other "
        "objects with neighbouring data or options) followed by "
        "a final program compared with a fresh object; non-trivial when the "
        "final program completes on the fresh object")
MEASURE = "distinct (statistic, method/option-name sequence) histories"
REAL = ["all TurbuStat statistics, numpy, scipy, astropy, statsmodels"]
STUB = ["display (Agg canvas)"]
ASSUMPTIONS = ["comparison tolerance 1e-6 relative", "small inputs"]
SHRINK_KEEP = ("stat", "data", "shape", "seed", "ndim", "container", "dtype",
               "spec", "final", "history", "npseed", "op", "prog", "sets")


def gen(rng, tier, idx):
    stat = C.STAT_NAMES[idx % len(C.STAT_NAMES)]
    f = {}
    spec = C.gen_spec(rng, stat, f)
    hist = []
    again = None
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        r = rng.random()
        if r < 0.62:
            p = C.gen_program(rng, spec, f)
            full = p
            if rng.random() < 0.2:
                p = p[:rng.randrange(1, len(p) + 1)]
            hist.append({"op": "prog", "prog": p})
            if rng.random() < 0.25:
                again = full
        elif r < 0.75:
            hist.append({"op": "read"})
        elif r < 0.85:
            p = C.gen_program(rng, spec, f)
            m, kw = p[rng.randrange(len(p))]
            kw = dict(kw)
            if kw and rng.random() < 0.6:
                k = rng.choice(sorted(kw))
                kw[k] = rng.choice(["bogus", -3, {"__q__": [1.0, "kg"]}])
            else:
                kw["no_such_option"] = 1
            hist.append({"op": "prog", "prog": [[m, kw]]})
        elif r < 0.90 and spec["stat"] in C.SAVABLE:
            hist.append({"op": "save", "keep": rng.random() < 0.5})
        elif r < 0.95:
            p = D.plot(rng, spec)
            if p:
                p[1].pop("save_name", None)
                hist.append({"op": "plot", "prog": [p]})
        else:
            hist.append({"op": "draw", "n": rng.randrange(1, 50)})
    final = C.gen_program(rng, spec, f)
    if again is not None:
        final = again if rng.random() < 0.5 else M.sibling(rng, again)
    sets = C.gen_sets(rng, spec) if rng.random() < 0.25 else []
    if sets:
        hist.insert(rng.randrange(len(hist) + 1), {"op": "set", "sets": sets})
    # other objects used earlier in the same process
    for _ in range(rng.choice([0, 0, 1, 2])):
        o = {"op": "other", "spec": near_spec(rng, spec)}
        o["prog"] = rng.choice([final, M.sibling(rng, final),
                                C.gen_program(rng, o["spec"], f)])
        hist.insert(rng.randrange(len(hist) + 1), o)
    return {"spec": spec, "history": hist, "final": final,
            "npseed": rng.randrange(2 ** 31)}


def near_spec(rng, spec):
    r = rng.random()
    if r < 0.5:
        return dict(spec, data=M.other_data(rng, spec["data"]))
    if r < 0.65:
        return dict(spec, data=M.swap_data(rng, spec["data"]))
    if r < 0.85 and spec["init"]:
        return dict(spec, init=M.sibling(rng, spec["init"]))
    return C.gen_spec(rng, spec["stat"], {})


def other(h):
    return run_prog(C.build(h["spec"], C.make_inputs(h["spec"])), h["prog"])


def play(plan):
    spec = plan["spec"]
    np.random.seed(plan["npseed"])
    inp = C.make_inputs(spec)
    b = attempt(C.build, spec, inp)
    if b[0] == "raise":
        return {"build": b, "outs": [], "obs": {}}
    obj = b[1]
    hist = []
    with scratch() as d:
        for i, h in enumerate(plan["history"]):
            if h["op"] == "prog":
                hist.append([o[:2] if o[0] == "raise" else o[:1]
                             for o in run_prog(obj, h["prog"])])
            elif h["op"] == "other":
                hist.append(("other", attempt(other, h)[0]))
            elif h["op"] == "read":
                U.observe(obj)
                hist.append("read")
            elif h["op"] == "save":
                o = attempt(obj.save_results, d + "/s%d" % i,
                            keep_data=h["keep"])
                hist.append(("save", o[0]))
            elif h["op"] == "plot":
                hist.append(("plot", run_prog(obj, h["prog"])[0][0]))
                D.close()
            elif h["op"] == "set":
                hist.append(("set", attempt(apply_sets, obj, h["sets"])[0]))
            elif h["op"] == "draw":
                np.random.random(h["n"])
                hist.append("draw")
        np.random.seed(plan["npseed"])
        outs = run_prog(obj, plan["final"])
    ok = all(o[0] == "ok" for o in outs)
    return {"build": ("ok",), "outs": outs,
            "obs": U.observe(obj) if ok else {}, "hist": hist}


def execute(plan):
    spec = plan["spec"]
    sets = [x for h in plan["history"] if h["op"] == "set"
            for x in h["sets"]]
    ref = isolate(fresh, spec, plan["final"], plan["npseed"], sets)
    stats = {"stat:" + spec["stat"]: 1}
    viol = []
    if ref["build"][0] != "ok":
        stats["constructor rejected the data"] = 1
        return result(viol, stats, None, [ref["build"]])
    r = safe(play, plan)
    if r[0] != "ok":
        viol.append(("%s:%s" % (spec["stat"], r[0]), "no answer: %s" % (r,)))
        return result(viol, stats, None, [r[0]])
    got = r[1]
    stats["final call rejected by a fresh object too"] = int(not ref["ok"])
    for h in plan["history"]:
        stats["history:" + h["op"]] = stats.get("history:" + h["op"], 0) + 1
    for m in outcomes_differ(ref["outs"], got["outs"]):
        viol.append(("%s:outcome" % spec["stat"], m))
    if ref["ok"] and not viol:
        for k, m in U.diff(ref["obs"], got["obs"], unset=ref["unset"]):
            viol.append(("%s:%s" % (spec["stat"], k),
                         "%s.%s after the history: %s (fresh object first)"
                         % (spec["stat"], k, m)))
    names = [(h["op"], [(m, sorted(kw)) for m, kw in h.get("prog", [])])
             for h in plan["history"]]
    names.append([(m, sorted(kw)) for m, kw in plan["final"]])
    return result(viol, stats, sig(spec["stat"], names) if ref["ok"]
                  else None, [got["outs"], got["obs"], got.get("hist")],
                  sample=brief(spec, [plan["history"], plan["final"]]),
                  trace=got.get("hist"))
