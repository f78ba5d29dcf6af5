"""S05: what the caller hands in stays exactly as it was, at every moment:
during the call, after it returned, failed or was interrupted."""
import os

import numpy as np

from .. import display as D
from .. import items as I
from .. import util as U
from ..isolate import isolate
from ..seams import CallFaults, LineFaults, aim, kind_at, storing
from ..work import attempt, result, safe, scratch, sig

LEVEL = "exploration"
RUNS = {"quick": 3000, "thorough": 120000}
RULE = ("one run = one request (statistic, distance metric or function) with "
        "seeded inputs and option dictionaries, in some runs used on: settings "
        "changed, run again, plotted, saved; all caller-owned objects are "
        "fingerprinted bit for bit before, at seeded moments inside and "
        "after the request, which in most runs fails at a seeded library "
        "call or is interrupted there or between two statements; non-trivial when the request did some work")
MEASURE = "distinct (request, option names, faulted function -> call, kind)"
REAL = ["all TurbuStat code, numpy, scipy, astropy, statsmodels, matplotlib"]
STUB = ["the single failing library call", "display (Agg canvas)"]
ASSUMPTIONS = ["objects whose documented purpose is to be filled in by the "
               "call (pre-computed statistics) are not inputs here",
               "arrays are compared bit for bit, headers card for card"]
SHRINK_KEEP = ("kind", "spec", "stat", "data", "dist", "func", "shape",
               "seed", "ndim", "container", "dtype", "npseed", "item", "kw",
               "frac", "prog", "init", "metric", "data1", "data2", "opt",
               "n", "cuts")

KINDS = ["memory", "interrupt", "linalg", "value", "between"]
SHOW = ["PowerSpectrum", "MVC", "VCA", "VCS", "Bispectrum", "DeltaVariance",
        "Wavelet", "SCF", "Genus", "StatMoments", "Tsallis", "PDF",
        "Dendrogram_Stats"]


def gen(rng, tier, idx):
    ks = I.KINDS + I.KINDS_RNG
    which = ks[idx % len(ks)]
    if idx % 97 == 50:
        which = "func:dendro_obj"
    item = I.more(rng, I.gen(rng, which, {}), {})
    show = False
    kind, nm = which.split(":")
    if rng.random() < 0.12 and (kind == "dist" or nm in SHOW):
        show = True
    plots = gen_plots(rng, item)
    return {"item": item, "show": show, "plots": plots,
            "fault": (gen_fault(rng, item, plots) if rng.random() < 0.6
                      else None),
            "cuts": [round(rng.random(), 4) for _ in range(3)],
            "npseed": rng.randrange(2 ** 31)}


def gen_fault(rng, item, plots):
    out = {"frac": round(rng.random(), 6), "kind": rng.choice(KINDS),
           "by": rng.choice(["tick", "site", "site", "hot"]), "occ": rng.randrange(4)}
    if item["kind"] == "stat" and len(item["prog"]) + len(plots) > 1 and \
            rng.random() < .5:
        out["last"] = True              # strike within the last call
        if not plots and item["prog"][-1][0] == "save_results":
            out["kind"] = rng.choice(["store", "store", "between"])
    return out


def injector(fl, prof, probe=None, record=False):
    at = aim(fl, *prof) if prof else None
    if fl and fl["kind"] == "between":
        return LineFaults(at, record)
    return CallFaults(at, kind_at(fl, prof and prof[1]) if fl else "memory",
                      probe,
                      storing if fl and fl["kind"] == "store" else None,
                      record)


def ask(plan, inp, cf):
    if (plan.get("fault") or {}).get("last") and inp.get("prog"):
        return attempt(I.run, plan["item"], inp, last=cf)
    with cf:
        return attempt(I.run, plan["item"], inp)


def gen_plots(rng, item):
    """Figures the caller draws afterwards."""
    if item["kind"] != "stat" or item["spec"]["stat"] not in D.RUN or \
            rng.random() < 0.7:
        return []
    return [D.plot(rng, item["spec"]) for _ in range(rng.choice([1, 1, 2]))]


def leaves(inp):
    """caller-owned objects by name."""
    out = {}

    def rec(name, v, d):
        if isinstance(v, dict) and d < 3:
            out[name + "{}"] = U.fingerprint(sorted(map(str, v)))
            for k in v:
                rec("%s[%s]" % (name, k), v[k], d + 1)
        elif isinstance(v, (list, tuple)) and d < 3 and len(v) < 12:
            for i, x in enumerate(v):
                rec("%s[%d]" % (name, i), x, d + 1)
        else:
            out[name] = U.fingerprint(v)
    for k in inp:
        rec(k, inp[k], 0)
    return out


def live(plan, d):
    item = plan["item"]
    inp = I.make(item)
    if plan.get("show"):
        if item["kind"] == "dist":
            if item["dist"] != "Cramer_Distance" or not item.get("format"):
                inp["metric"]["verbose"] = True
                inp["metric"]["save_name"] = d + "/fig.png"
        elif inp["prog"] and inp["prog"][-1][0] == "run":
            inp["prog"][-1][1]["verbose"] = True
            inp["prog"][-1][1]["save_name"] = d + "/fig.png"
    for m, kw in inp.get("prog") or []:
        if m == "save_results":
            os.makedirs(d + "/fig.d", exist_ok=True)
            kw["output_name"] = d + "/fig.d/saved"
    for m, kw in plan.get("plots") or []:
        kw = D.live(kw, d)
        if "save_name" in kw:
            kw["save_name"] = d + "/fig." + kw["save_name"][-3:]
        inp["prog"].append([m, kw])
    return inp


def count(plan):
    np.random.seed(plan["npseed"])
    with scratch() as d:
        inp = live(plan, d)
        cf = injector(plan.get("fault"), None, record=True)
        o = ask(plan, inp, cf)
    return cf.count, cf.sites.list(), o[0]


def play(plan, n, sites):
    np.random.seed(plan["npseed"])
    with scratch() as d:
        inp = live(plan, d)
        before = leaves(inp)
        mid = []
        cuts = set(int(c * n) for c in plan.get("cuts", []))

        def probe(k):
            if k in cuts:
                now = leaves(inp)
                for name in before:
                    if now.get(name) != before[name] and len(mid) < 4:
                        mid.append((name, k))
        fl = plan.get("fault")
        cf = injector(fl, (n, sites), probe)
        o = ask(plan, inp, cf)
        after = leaves(inp)
    bad = [k for k in before if after.get(k) != before[k]]
    bad += [k for k in after if k not in before]
    return {"out": o[:2] if o[0] == "raise" else o[:1], "fired": cf.fired,
            "changed": bad, "mid": mid,
            "res": o[1] if o[0] == "ok" else None, "before": before}


def execute(plan):
    item = plan["item"]
    nm = I.name(item)
    n, sites, ok = isolate(count, plan)
    stats = {item["kind"] + ":" + nm: 1, "ticks": n,
             "request completes without faults": int(ok == "ok")}
    r = safe(play, plan, n, sites)
    if r[0] != "ok":
        return result([("%s:%s" % (nm, r[0]), "no answer: %s" % (r,))],
                      stats, None, [r[0]])
    got = r[1]
    if got["fired"]:
        stats["fault:" + plan["fault"]["kind"]] = 1
    viol = []
    how = ("failed with %s at %s" % (plan["fault"]["kind"], got["fired"])
           if got["fired"] else "ended (%s)" % (got["out"],))
    for k in got["changed"]:
        viol.append(("%s:%s" % (nm, k), "%s: the caller's %s is different "
                     "after the request %s" % (nm, k, how)))
    for k, at in got["mid"]:
        if k not in got["changed"]:
            viol.append(("%s:%s" % (nm, k), "%s: the caller's %s is "
                         "temporarily different at library call %d"
                         % (nm, k, at)))
    s = None
    if n:
        s = sig(nm, sorted(map(str, _opts(item))), got["fired"],
                plan.get("show"), [m for m, _ in plan.get("plots") or []])
    return result(viol, stats, s,
                  [got["out"], got["fired"], sorted(got["before"].items()),
                   got["changed"]],
                  sample={"request": I.brief(item), "fault": plan["fault"],
                          "fired": got["fired"], "outcome": got["out"]},
                  trace=[got["fired"], got["out"]])


def _opts(item):
    if item["kind"] == "stat":
        return [(m, sorted(kw)) for m, kw in item["prog"]]
    if item["kind"] == "dist":
        return [sorted(item["kw"]), sorted(item["metric"])]
    return [sorted(item["kw"])]
