"""S04: a request leaves the process it runs in as it found it."""
import os

import numpy as np

from .. import items as I
from .. import pool as P
from ..isolate import isolate
from ..seams import global_state, state_diff
from ..work import result, safe, scratch, sig
from .s05 import (SHRINK_KEEP, ask, _opts, count, gen_fault, gen_plots,  # noqa
                  injector, live, SHOW)

LEVEL = "exploration"
RUNS = {"quick": 3000, "thorough": 120000}
RULE = ("one run = one request with seeded inputs (in some runs used on, "
        "plotted and saved) that draws nothing from "
        "the caller's random stream; process-wide state (random streams, "
        "numpy error and print settings, warning filters, environment, "
        "working directory, signal handlers, open files, children, "
        "matplotlib settings, ...) is compared before and after, most "
        "requests failing or interrupted at a seeded library call, or between two "
        "statements; "
        "non-trivial when the request did some work")
MEASURE = "distinct (request, option names, faulted function -> call, kind)"
REAL = ["all TurbuStat code, numpy, scipy, astropy, statsmodels, matplotlib"]
STUB = ["the single failing library call", "display (Agg canvas)"]
ASSUMPTIONS = ["requests documented to draw from the global random stream "
               "(bootstraps of 2-D fits, contour widths) are excluded from "
               "the random-stream comparison by not being generated"]


def gen(rng, tier, idx):
    which = I.KINDS[idx % len(I.KINDS)]
    item = I.more(rng, I.gen(rng, which, {"rngfree": True}),
                  {"rngfree": True})
    kind, nm = which.split(":")
    plots = gen_plots(rng, item)
    if which == "func:make_ppv" and rng.random() < 0.5:
        # several (simulated) worker processes
        item["kw"]["opt"]["threads"] = rng.choice([2, 3])
        return {"item": item, "plots": [], "show": False, "fault": None,
                "pool": [rng.randrange(8) for _ in range(30)],
                "npseed": rng.randrange(2 ** 31), "err": "warn",
                "filt": "ignore"}
    return {"item": item, "plots": plots,
            "show": rng.random() < 0.12 and (kind == "dist" or nm in SHOW),
            "fault": (gen_fault(rng, item, plots) if rng.random() < 0.65
                      else None),
            "npseed": rng.randrange(2 ** 31),
            "err": rng.choice(["ignore", "warn", "ignore"]),
            "filt": rng.choice(["ignore", "default", "always"])}


def play(plan, n, sites):
    import warnings
    np.random.seed(plan["npseed"])
    np.seterr(all=plan.get("err", "warn"))
    warnings.resetwarnings()
    warnings.simplefilter(plan.get("filt", "ignore"))
    with scratch() as d:
        os.chdir(d)
        inp = live(plan, d)
        fl = plan.get("fault")
        W = P.install({"choices": plan["pool"]}) if plan.get("pool") else None
        before = global_state()
        cf = injector(fl, (n, sites))
        o = ask(plan, inp, cf)
        after = global_state()
        left = sorted(f for f in os.listdir(d) if not f.startswith("fig."))
        os.chdir("/")
    bad = state_diff(before, after)
    if W is not None:
        n = sum(w.alive for p in W.pools for w in p.workers)
        if n:
            bad.append(("worker processes", "%d left running" % n))
    if left:
        bad.append(("files in the working directory", str(left[:3])))
    return {"out": o[:2] if o[0] == "raise" else o[:1], "fired": cf.fired,
            "bad": bad, "res": o[1] if o[0] == "ok" else None}


def execute(plan):
    item = plan["item"]
    nm = I.name(item)
    n, sites, ok = isolate(count, plan) if not plan.get("pool") else \
        (1, [], "ok")
    stats = {item["kind"] + ":" + nm: 1, "ticks": n,
             "request completes without faults": int(ok == "ok")}
    r = safe(play, plan, n, sites)
    if r[0] != "ok":
        return result([("%s:%s" % (nm, r[0]), "no answer: %s" % (r,))],
                      stats, None, [r[0]])
    got = r[1]
    if got["fired"]:
        stats["fault:" + plan["fault"]["kind"]] = 1
    how = ("failed with %s at %s" % (plan["fault"]["kind"], got["fired"])
           if got["fired"] else "ended (%s)" % (got["out"],))
    viol = [("%s:%s" % (nm, k), "%s: %s changed by a request that %s: %s"
             % (nm, k, how, m)) for k, m in got["bad"]]
    s = sig(nm, sorted(map(str, _opts(item))), got["fired"],
            plan.get("show"), [m for m, _ in plan.get("plots") or []]) \
        if n else None
    return result(viol, stats, s, [got["out"], got["fired"],
                                   [k for k, _ in got["bad"]]],
                  sample={"request": I.brief(item), "fault": plan["fault"],
                          "fired": got["fired"], "outcome": got["out"]},
                  trace=[got["fired"], got["out"]])
