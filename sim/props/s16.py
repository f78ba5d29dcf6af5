"""S16: looking at an analysis never changes it: verbose output, progress
bars, figures and their failures leave the numbers alone."""
import contextlib
import copy
import io
import os

import numpy as np

from .. import catalog as C
from .. import display as D
from .. import items as I
from .. import util as U
from ..data import decode
from ..isolate import isolate
from ..seams import CallFaults, displaying
from ..work import (attempt, brief, fresh, outcomes_differ, result,
                    ret_canon, run_prog, safe, scratch, sig)

LEVEL = "exploration"
RUNS = {"quick": 1000, "thorough": 40000}
RULE = ("one run = one request (statistic or distance) made twice: plainly in "
        "a pristine process, and with verbose output, progress bars, figures "
        "shown or saved and extra plotting calls between its steps, with one "
        "display call failing (broken pipe, full disk, missing directory, "
        "memory, interrupt) or none; after a failure the request is repeated "
        "plainly on the same object; non-trivial when something was "
        "displayed and a number compared")
MEASURE = "distinct (request, display options, plots, failing display call)"
REAL = ["all statistics and distances, matplotlib (Agg), astropy progress "
        "bars, the filesystem"]
STUB = ["the screen (Agg canvas)", "the failing display call", "stdout"]
ASSUMPTIONS = ["comparison tolerance 1e-6 relative",
               "matplotlib refusing to draw undefined numbers (NaN axis "
               "limits) is not a violation"]
SHRINK_KEEP = ("spec", "stat", "data", "shape", "seed", "ndim", "container",
               "dtype", "kw", "metric", "data1", "data2", "item", "dist",
               "kind", "prog", "npseed", "frac", "slope", "base")
KINDS = ["pipe", "space", "runtime", "memory", "interrupt"]


def gen(rng, tier, idx):
    p = {"npseed": rng.randrange(2 ** 31), "subdir": rng.random() < .6}
    if rng.random() < .6:
        p["fault"] = {"frac": round(rng.random(), 6),
                      "kind": rng.choice(KINDS)}
    names = sorted(D.RUN) + sorted(D.RUN) + sorted(I.DISTS)
    nm = names[idx % len(names)]
    if nm in D.RUN:
        spec = C.gen_spec(rng, nm, {})
        prog = C.gen_program(rng, spec, {"nofftw": True})
        steps = []
        for st in D.dress(rng, spec, prog):
            steps.append(["step"] + st)
            if st[0] == "run" or st is not None and rng.random() < .5:
                for _ in range(rng.choice([0, 1, 1, 2])):
                    pl = D.plot(rng, spec)
                    steps.append(["plot"] + pl)
        p.update(kind="stat", spec=spec, prog=prog, steps=steps)
    else:
        it = I.DISTS[nm].gen(rng, {"rngfree": True, "nofftw": True})
        it.pop("format", None)
        for k in ("plot_kwargs1", "plot_kwargs2"):
            it["metric"].pop(k, None)
        show = dict(it["metric"], verbose=True)
        if rng.random() < .6:
            show["save_name"] = rng.choice(["@d.png", "@sub/d.pdf"])
        if nm not in ("Cramer_Distance", "Genus_Distance",
                      "Bispectrum_Distance") and rng.random() < .4:
            show.update({"plot_kwargs1": {"color": "b", "label": "x"},
                         "plot_kwargs2": {"color": "g"}})
        p.update(kind="dist", item=it, show=show,
                 asks=rng.choice([1, 1, 2]))
    return p


class Quiet(io.StringIO):
    pass


def shown_stat(plan, d, at, kind):
    spec = plan["spec"]
    np.random.seed(plan["npseed"])
    obj = C.build(spec, C.make_inputs(spec))
    np.random.seed(plan["npseed"])
    outs, plots = [], []
    with CallFaults(at, kind, which=displaying) as cf, \
            contextlib.redirect_stdout(Quiet()):
        for what, m, kw in plan["steps"]:
            o = attempt(C.call, obj, m, D.live(kw, d))
            if what == "plot":
                plots.append(o[:3] if o[0] == "raise" else ("ok",))
                continue
            o = o if o[0] == "raise" else ret_canon(obj, o)
            outs.append(o)
            if o[0] == "raise":
                break
    obs = U.observe(obj)
    r = {"outs": outs, "plots": plots, "calls": cf.count, "fired": cf.fired,
         "obs": obs, "drawn": drawn(cf)}
    # again, plainly
    np.random.seed(plan["npseed"])
    r["again"] = run_prog(obj, plan["prog"])
    r["obs2"] = U.observe(obj)
    return r


def plain_dist(plan):
    it = plan["item"]
    d = I.DISTS[it["dist"]]
    inp = d.make(it)

    def go():
        np.random.seed(plan["npseed"])
        o = d.construct(it, inp)
        np.random.seed(plan["npseed"])
        d.ask(o, it, inp)
        return dict(d.observe(o), **d.observe_sides(o))
    return attempt(go)


def shown_dist(plan, dr, at, kind):
    it = plan["item"]
    d = I.DISTS[it["dist"]]
    inp = d.make(it)
    np.random.seed(plan["npseed"])
    o = attempt(d.construct, it, inp)
    if o[0] == "raise":
        return {"outs": [o], "calls": 0, "fired": None}
    obj = o[1]
    show = D.live(plan["show"], dr)
    outs = []
    with CallFaults(at, kind, which=displaying) as cf, \
            contextlib.redirect_stdout(Quiet()):
        for _ in range(plan["asks"]):
            np.random.seed(plan["npseed"])
            x = attempt(d.ask, obj, it, inp, **copy.deepcopy(show))
            outs.append(x if x[0] == "raise" else ("ok",))
            if x[0] == "raise":
                break

    def look():
        return dict(d.observe(obj), **d.observe_sides(obj))
    r = {"outs": outs, "calls": cf.count, "fired": cf.fired, "obs": look(),
         "drawn": drawn(cf)}
    np.random.seed(plan["npseed"])
    x = attempt(d.ask, obj, it, inp)
    r["again"] = x if x[0] == "raise" else ("ok",)
    r["obs2"] = look()
    return r


def drawn(cf):
    """Did a figure fail (after the numbers), not a print or a progress bar
    in the middle of the computation?"""
    return not cf.fired or not (cf.fired.endswith("-> print") or
                                cf.fired.endswith("-> ProgressBar") or
                                "update" in cf.fired)


def with_dir(fn, plan, at, kind):
    with scratch() as d:
        if plan["subdir"]:
            os.mkdir(os.path.join(d, "sub"))
        return fn(plan, d, at, kind)


def natural(plan, o):
    """The only failures a display may have without an injected fault."""
    if o[0] != "raise":
        return False
    if o[1] == "FileNotFoundError" and not plan["subdir"]:
        return True
    # matplotlib refuses to draw numbers that are not defined
    return o[1] == "ValueError" and "NaN or Inf" in str(o[-1])


def partial(ref, got, unset):
    """Differences of what is defined; undefined results are no results."""
    return U.diff(ref, got, unset=unset, ignore=[
        k for k in ref if k not in got or U.undefined(got[k])])


def execute(plan):
    stat = plan["spec"]["stat"] if plan["kind"] == "stat" else \
        plan["item"]["dist"]
    stats = {"stat:" + stat: 1}
    viol = []
    fl = plan.get("fault")
    fn = shown_stat if plan["kind"] == "stat" else shown_dist
    if plan["kind"] == "stat":
        ref = isolate(fresh, plan["spec"], plan["prog"], plan["npseed"])
        ok = ref["build"][0] == "ok" and ref["ok"]
        obs, unset = ref["obs"], ref.get("unset", ())
    else:
        ref = isolate(plain_dist, plan)
        ok = ref[0] == "ok"
        obs, unset = (ref[1] if ok else {}), U._All()
    if not ok:
        stats["rejected plainly too"] = 1
        return result([], stats, None, ["rejected"])
    at = None
    if fl:
        pr = safe(with_dir, fn, plan, None, "memory")
        if pr[0] != "ok":
            return result([("%s:%s" % (stat, pr[0]), str(pr))], stats, None,
                          [pr[0]])
        at = int(fl["frac"] * pr[1]["calls"])
    r = safe(with_dir, fn, plan, at, fl["kind"] if fl else "memory")
    if r[0] != "ok":
        return result([("%s:%s" % (stat, r[0]), str(r))], stats, None, [r[0]])
    got = r[1]
    fired = got["fired"]
    if fired:
        stats["fault:" + fl["kind"]] = 1
    last = got["outs"][-1] if got["outs"] else ("ok",)
    broken = last[0] == "raise"
    if broken and not fired and not natural(plan, last):
        viol.append(("%s:outcome" % stat, "displayed, it raised %s: %s; "
                     "plainly it completes" % (last[1], last[-1])))
    if broken and not fired and not viol:
        stats["display refused"] = 1
    for o in got.get("plots", ()):
        if o[0] == "raise" and not fired and not natural(plan, o):
            stats["plot raised"] = stats.get("plot raised", 0) + 1
    if broken:
        stats["display failed"] = 1
        for k, m in partial(obs, got["obs"], unset) if got["drawn"] else ():
            viol.append(("%s:%s after failure" % (stat, k), "%s.%s after the "
                         "display failed: %s (plain first)" % (stat, k, m)))
    else:
        if plan["kind"] == "stat":
            for m in outcomes_differ(ref["outs"], got["outs"]):
                viol.append(("%s:outcome" % stat, "displayed: " + m))
        for k, m in U.diff(obs, got["obs"], unset=unset):
            viol.append(("%s:%s" % (stat, k), "%s.%s when displayed: %s "
                         "(plain first)" % (stat, k, m)))
    if "again" in got:
        if plan["kind"] == "stat":
            for m in outcomes_differ(ref["outs"], got["again"]):
                viol.append(("%s:again" % stat, "repeated plainly: " + m))
        elif got["again"][0] == "raise":
            viol.append(("%s:again" % stat, "repeated plainly: raised %s: %s"
                         % got["again"][1:]))
        for k, m in U.diff(obs, got["obs2"], unset=unset):
            viol.append(("%s:%s again" % (stat, k), "%s.%s repeated plainly "
                         "after it was displayed: %s (plain first)"
                         % (stat, k, m)))
    names = [(w, m, sorted(kw)) for w, m, kw in plan["steps"]] \
        if plan["kind"] == "stat" else sorted(plan["show"])
    stats["display calls"] = got["calls"]
    return result(viol, stats, sig(stat, names, fired, fl and fl["kind"])
                  if got["calls"] else None,
                  [got["outs"], got.get("plots"), fired, got.get("obs2")],
                  sample={"request": stat, "displayed": names,
                          "fault": fl and [fl["kind"], fired]},
                  trace=[names, fired, got.get("plots")])
