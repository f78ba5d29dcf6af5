"""S11: what a process was asked before does not change what a request
answers, and a library failure inside a request is never swallowed into a
different answer."""
import gc

import numpy as np

from .. import items as I
from .. import mutate as M
from .. import util as U
from ..isolate import isolate
from ..seams import CallFaults
from ..work import attempt, result, safe, sig

LEVEL = "exploration"
RUNS = {"quick": 2600, "thorough": 120000}
RULE = ("one run = one process making 1-5 earlier requests (neighbours of "
        "the final one differing in data, shape, dtype or one option; the "
        "same one; other statistics, metrics and functions; or two "
        "neighbours in turn, all memory freed in between), some of them "
        "failing or interrupted at a seeded library call, then the final "
        "request, compared with the same request in a pristine process; a "
        "faulted copy of the final request that completes must give the "
        "same answer; non-trivial when the final request completes")
MEASURE = ("distinct (final request, option names, kinds of earlier request, "
           "faulted function -> call) histories")
REAL = ["all TurbuStat code, numpy, scipy, astropy, statsmodels"]
STUB = ["the single failing library call", "display (Agg canvas)"]
ASSUMPTIONS = ["comparison tolerance 1e-6 relative", "small inputs"]
SHRINK_KEEP = ("kind", "spec", "stat", "data", "dist", "func", "shape",
               "seed", "ndim", "container", "dtype", "npseed", "kw", "prog",
               "init", "metric", "data1", "data2", "opt", "n", "item",
               "frac", "format", "history", "final", "turns")

KINDS = ["memory", "memory", "interrupt", "linalg", "value"]


def near(rng, item, which, f):
    """A request next to `item`."""
    r = rng.random()
    if item["kind"] == "func":
        if r < 0.7:
            return dict(item, kw=M.sibling(rng, item["kw"]))
        return I.gen(rng, which, f)
    root = item["spec"] if item["kind"] == "stat" else item
    if r < 0.35:
        root = dict(root, data=M.other_data(rng, root["data"]))
    elif r < 0.45:
        root = dict(root, data=M.swap_data(rng, root["data"]))
    elif r < 0.9:
        return M.sibling(rng, item, ("prog", "kw", "format", "metric")) \
            if rng.random() < 0.7 or item["kind"] != "stat" or \
            not item["spec"]["init"] else \
            dict(item, spec=dict(item["spec"], init=M.sibling(
                rng, item["spec"]["init"])))
    else:
        return I.gen(rng, which, f)
    return dict(item, spec=root) if item["kind"] == "stat" else root


def again(rng, item, which, f):
    """The same request for data of the same shape: another sky grid, another
    field."""
    root = item.get("spec", item)
    if item["kind"] == "func":
        return near(rng, item, which, f)
    data = {}
    grid = rng.random() < 0.5
    for k, d in root["data"].items():
        if isinstance(d, dict) and "shape" in d:
            d = dict(d)
            if grid and k != "weights":
                d["scale"] = 1.5 if d.get("scale", 1.0) == 1.0 else 1.0
            else:
                d["seed"] += 1
        data[k] = d
    root = dict(root, data=data)
    return dict(item, spec=root) if item["kind"] == "stat" else root


def gen(rng, tier, idx):
    f = {"rngfree": True}
    which = I.KINDS[idx % len(I.KINDS)]
    item = I.gen(rng, which, f)
    hist = []
    if rng.random() < 0.2:
        # two requests in turn, everything freed in between: the allocator
        # hands the same addresses out again
        it = again(rng, item, which, f)
        return {"final": item, "history": [],
                "turns": [it, rng.choice([3, 6, 6, 12])],
                "npseed": rng.randrange(2 ** 31)}
    for _ in range(rng.choice([1, 1, 2, 2, 3, 5])):
        r = rng.random()
        it = item
        if r < 0.55:
            it = near(rng, item, which, f)
        elif r < 0.7:
            pass
        elif r < 0.85:
            it = I.gen(rng, which, f)
        else:
            it = I.gen(rng, rng.choice(I.KINDS), f)
        h = {"item": it}
        if rng.random() < (0.5 if it is item else 0.2):
            h["fault"] = {"frac": round(rng.random(), 6),
                          "kind": rng.choice(KINDS)}
        hist.append(h)
    return {"final": item, "history": hist, "npseed": rng.randrange(2 ** 31)}


def one(item):
    return I.run(item, I.make(item), sides=True)


def pristine(item, npseed):
    np.random.seed(npseed)
    return attempt(one, item)


def play(plan):
    np.random.seed((plan["npseed"] + 1) % 2 ** 32)
    fired, hidden, outs = [], [], []
    for h in plan["history"]:
        fl = h.get("fault")
        if not fl:
            outs.append(attempt(one, h["item"])[0])
            continue
        inp = attempt(I.make, h["item"])
        if inp[0] == "raise":
            outs.append("raise")
            continue
        np.random.seed(plan["npseed"])
        with CallFaults(fl.get("at", 0), fl["kind"]) as cf:
            o = attempt(I.run, h["item"], inp[1], sides=True)
        outs.append(o[0])
        fired.append((fl["kind"], cf.fired))
        if cf.fired and o[0] == "ok" and h["item"] == plan["final"]:
            hidden.append((fl["kind"], cf.fired, o[1]))
    np.random.seed(plan["npseed"])
    return {"out": attempt(one, plan["final"]), "fired": fired,
            "hidden": hidden, "hist": outs}


def take_turns(plan):
    it, k = plan["turns"]
    outs = []
    for i in range(2 * k):
        np.random.seed(plan["npseed"])
        o = attempt(one, (it, plan["final"])[i % 2])
        outs.append(o)
        gc.collect()
    return outs


def turns(plan):
    it, k = plan["turns"]
    item = plan["final"]
    nm = I.name(item)
    refs = [isolate(pristine, x, plan["npseed"]) for x in (it, item)]
    stats = {item["kind"] + ":" + nm: 1, "history:turns": 2 * k}
    r = safe(take_turns, plan)
    if r[0] != "ok":
        return result([("%s:%s" % (nm, r[0]), "no answer: %s" % (r,))],
                      stats, None, [r[0]])
    viol = []
    for i, o in enumerate(r[1]):
        ref = refs[i % 2]
        if o[0] != ref[0]:
            viol.append(("%s:outcome" % nm, "%s %s as request %d of the "
                         "process, %s in a pristine process"
                         % (nm, _o(o), i, _o(ref))))
        elif o[0] == "ok":
            viol += [("%s:%s" % (nm, a), "%s.%s as request %d of the process:"
                      " %s (pristine process first)" % (nm, a, i, m))
                     for a, m in U.diff(ref[1], o[1])]
        if viol:
            break
    from .s05 import _opts
    return result(viol, stats, sig(nm, sorted(map(str, _opts(item))),
                                   "turns", k)
                  if refs[1][0] == "ok" else None,
                  [o[:2] if o[0] == "raise" else o for o in r[1]],
                  sample={"request": I.brief(item), "turns": 2 * k},
                  trace=[o[0] for o in r[1]])


def calls(item, npseed):
    np.random.seed(npseed)
    inp = I.make(item)
    with CallFaults() as cf:
        attempt(I.run, item, inp, sides=True)
    return cf.count


def execute(plan):
    if plan.get("turns"):
        return turns(plan)
    item = plan["final"]
    nm = I.name(item)
    ref = isolate(pristine, item, plan["npseed"])
    stats = {item["kind"] + ":" + nm: 1}
    if ref[0] != "ok":
        stats["request rejected"] = 1
    for h in plan["history"]:
        k = "history:" + ("same" if h["item"] == item else
                          "near" if I.name(h["item"]) == nm else "other")
        stats[k] = stats.get(k, 0) + 1
        if h.get("fault"):
            c = safe(calls, h["item"], plan["npseed"])
            h["fault"]["at"] = int(h["fault"]["frac"] *
                                   (c[1] if c[0] == "ok" else 0))
    r = safe(play, plan)
    if r[0] != "ok":
        return result([("%s:%s" % (nm, r[0]), "no answer: %s" % (r,))],
                      stats, None, [r[0]])
    got = r[1]
    viol = []
    for kind, site in got["fired"]:
        if site:
            stats["fault:" + kind] = stats.get("fault:" + kind, 0) + 1
    o = got["out"]
    if o[0] != ref[0]:
        viol.append(("%s:outcome" % nm, "%s %s after other requests, %s in a "
                     "pristine process" % (nm, _o(o), _o(ref))))
    elif o[0] == "ok":
        for k, m in U.diff(ref[1], o[1]):
            viol.append(("%s:%s" % (nm, k), "%s.%s after other requests: %s "
                         "(pristine process first)" % (nm, k, m)))
    for kind, site, obs in got["hidden"]:
        if kind not in ("memory", "interrupt"):
            stats["handled failure"] = stats.get("handled failure", 0) + 1
            continue
        bad = U.diff(ref[1], obs) if ref[0] == "ok" else []
        if bad:
            viol.append(("%s:hidden" % nm, "%s at %s was swallowed and %s "
                         "differs: %s" % (kind, site, bad[0][0], bad[0][1])))
    from .s05 import _opts
    return result(viol, stats, sig(nm, sorted(map(str, _opts(item))),
                                   [I.name(h["item"]) for h in
                                    plan["history"]], got["fired"])
                  if ref[0] == "ok" else None,
                  [o[:2] if o[0] == "raise" else o, got["fired"],
                   got["hist"]],
                  sample={"request": I.brief(item), "earlier":
                          [I.name(h["item"]) for h in plan["history"]],
                          "fired": got["fired"]},
                  trace=[got["hist"], got["fired"]])


def _o(o):
    return "raised %s: %s" % (o[1], o[2][:80]) if o[0] == "raise" \
        else "completed"
