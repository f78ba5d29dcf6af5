"""S08: an analysis that fails or is interrupted part-way is never mistaken
for a finished one, and asking again gives the answer a fresh object gives."""
import numpy as np

from .. import catalog as C
from .. import util as U
from ..isolate import isolate
from ..seams import CallFaults, LineFaults, aim, kind_at
from ..work import (attempt, brief, count_calls, fresh, outcomes_differ,
                    result, run_prog, safe, sig)

LEVEL = "exploration"
RUNS = {"quick": 3200, "thorough": 120000}
RULE = ("one run = one statistic object; 1-2 calls whose k-th call into a "
        "numerical library fails (allocation failure, interrupt, "
        "non-convergence, k seeded over the whole call), optionally after a "
        "completed run, then the request is repeated without faults and "
        "compared with a fresh object; non-trivial when a fault fired and the "
        "reference completes")
MEASURE = "distinct (statistic, faulted function -> library call, fault kind)"
REAL = ["all TurbuStat statistics, numpy, scipy, astropy, statsmodels"]
STUB = ["the single failing library call", "display (Agg canvas)"]
ASSUMPTIONS = ["faults land on calls into numerical libraries, the places "
               "where allocation or computation can fail"]
SHRINK_KEEP = ("stat", "data", "shape", "seed", "ndim", "container", "dtype",
               "spec", "final", "faults", "npseed", "frac", "kind", "before")

KINDS = ["memory", "memory", "interrupt", "between", "between", "linalg",
         "value"]


def gen(rng, tier, idx):
    stat = C.STAT_NAMES[idx % len(C.STAT_NAMES)]
    f = {}
    spec = C.gen_spec(rng, stat, f)
    final = C.gen_program(rng, spec, f)
    faults = []
    for _ in range(rng.choice([1, 1, 1, 2])):
        other = rng.random() < 0.3
        faults.append({"frac": round(rng.random(), 6),
                       "kind": rng.choice(KINDS),
                       "by": rng.choice(["tick", "site", "site", "hot"]),
                       "occ": rng.randrange(4),
                       "prog": C.gen_program(rng, spec, f) if other else None})
        if faults[-1]["kind"] == "between":
            faults[-1]["by"] = rng.choice(["site", "hot"])
    return {"spec": spec, "final": final, "faults": faults,
            "before": (C.gen_program(rng, spec, f)
                       if rng.random() < 0.4 else None),
            "npseed": rng.randrange(2 ** 31)}


def play(plan, counts):
    spec = plan["spec"]
    np.random.seed(plan["npseed"])
    obj = C.build(spec, C.make_inputs(spec))
    fired = []
    hidden = []
    if plan.get("before"):
        run_prog(obj, plan["before"])
    for fl, n in zip(plan["faults"], counts):
        prog = fl.get("prog") or plan["final"]
        at = aim(fl, *n)
        np.random.seed(plan["npseed"])
        kind = fl["kind"]
        if kind == "between":
            cf = LineFaults(at)
        else:
            kind = kind_at(fl, n[1])
            cf = CallFaults(at, kind)
        with cf:
            outs = run_prog(obj, prog)
        fired.append((kind, cf.fired, len(outs),
                      outs[-1][:2] if outs and outs[-1][0] == "raise"
                      else None))
        if cf.fired and not fl.get("prog") and \
                all(o[0] == "ok" for o in outs):
            hidden.append((kind, cf.fired, outs, U.observe(obj)))
    np.random.seed(plan["npseed"])
    outs = run_prog(obj, plan["final"])
    ok = all(o[0] == "ok" for o in outs)
    return {"outs": outs, "obs": U.observe(obj) if ok else {},
            "fired": fired, "hidden": hidden}


def execute(plan):
    spec = plan["spec"]
    st = spec["stat"]
    ref = isolate(fresh, spec, plan["final"], plan["npseed"])
    stats = {"stat:" + st: 1}
    viol = []
    if ref["build"][0] != "ok" or not ref["ok"]:
        stats["request rejected by a fresh object"] = 1
        return result(viol, stats, None, [ref["build"]])
    counts = []
    for fl in plan["faults"]:
        counts.append(isolate(count_calls, spec, fl.get("prog") or
                              plan["final"], plan["npseed"], fl["kind"]))
    r = safe(play, plan, counts)
    if r[0] != "ok":
        viol.append(("%s:%s" % (st, r[0]), "no answer: %s" % (r,)))
        return result(viol, stats, None, [r[0]])
    got = r[1]
    n = 0
    for kind, site, _, _ in got["fired"]:
        if site:
            stats["fault:" + kind] = stats.get("fault:" + kind, 0) + 1
            n += 1
    stats["ticks"] = sum(c[0] for c in counts)
    for m in outcomes_differ(ref["outs"], got["outs"]):
        viol.append(("%s:outcome" % st, "retry after %s: %s"
                     % (got["fired"], m)))
    if not viol:
        for k, m in U.diff(ref["obs"], got["obs"], unset=ref["unset"]):
            viol.append(("%s:%s" % (st, k),
                         "%s.%s on retry after %s: %s (fresh object first)"
                         % (st, k, got["fired"], m)))
    for kind, site, outs, obs in got["hidden"]:
        if kind not in ("memory", "interrupt", "between"):
            stats["handled failure"] = stats.get("handled failure", 0) + 1
            continue
        bad = U.diff(ref["obs"], obs, unset=ref["unset"])
        if bad and not plan.get("before"):
            viol.append(("%s:hidden" % st,
                         "%s at %s was swallowed and %s differs: %s"
                         % (kind, site, bad[0][0], bad[0][1])))
    return result(viol, stats, sig(st, got["fired"]) if n else None,
                  [got["outs"], got["obs"], got["fired"]],
                  sample=dict(brief(spec, [plan.get("before"),
                                           plan["final"]]),
                              faults=got["fired"]),
                  trace=got["fired"])
