"""S12: a comparison gives the same distance however its two sides were
prepared and whatever they were compared with before."""
import copy

import numpy as np

from .. import items as I
from .. import mutate as M
from .. import util as U
from ..data import Q
from ..isolate import isolate
from ..seams import CallFaults, LineFaults, aim, kind_at
from ..work import attempt, result, safe, sig

LEVEL = "exploration"
RUNS = {"quick": 1500, "thorough": 100000}
RULE = ("one run = a fiducial statistic object (never run, run stepwise by an "
        "earlier comparison, or run by the first comparison of the series) "
        "compared with 1-4 data sets one after another, some on another "
        "pixel grid or with other lags, radius or number of components, "
        "some comparisons failing or interrupted at a seeded library call, "
        "each distance asked for 1-3 times; every distance is compared with "
        "a comparison made from the two data sets alone in a pristine "
        "process; non-trivial when a reference completes")
MEASURE = "distinct (metric, preparation, series of comparisons) histories"
REAL = ["all distance classes and their statistics, numpy, scipy, astropy, "
        "statsmodels"]
STUB = ["the single failing library call"]
ASSUMPTIONS = ["the fiducial was prepared with the settings the comparison "
               "uses", "comparison tolerance 1e-6 relative"]
SHRINK_KEEP = ("dist", "data", "shape", "seed", "ndim", "container", "dtype",
               "kw", "metric", "data1", "data2", "base", "pos", "mode",
               "steps", "other", "npseed", "kind", "frac", "format", "asks")

KINDS = ["memory", "interrupt", "linalg"]


def vary_kw(rng, name, kw):
    """Settings the class documents it adapts a given object to."""
    kw = copy.deepcopy(kw)
    if name == "DeltaVariance_Distance":
        kw["lags"] = rng.choice([Q([3., 4., 6., 8.], "pix"),
                                 Q([3., 5., 7.], "pix"),
                                 Q([3., 4.5, 6.5, 8.5], "pix")])
    elif name == "PCA_Distance":
        kw["n_eigs"] = rng.choice([3, 4, 6, 9])
    elif name == "StatMoments_Distance":
        kw["radius"] = Q(rng.choice([2, 3, 4]), "pix")
    elif name == "Dendrogram_Distance":
        kw["min_deltas"] = {"__arr__": [float(x) for x in np.linspace(
            0.02, rng.choice([0.6, 0.9]), rng.choice([6, 8, 9]))]}
    return kw


def gen(rng, tier, idx):
    names = sorted(I.DISTS)
    name = names[idx % len(names)]
    base = I.DISTS[name].gen(rng, {"rngfree": True, "nofftw": True,
                                    "narrow": True})
    for k in ("weights1", "weights2"):
        base["data"].pop(k, None)
    for k in ("data1", "data2"):
        base["data"][k].pop("scale", None)
    pos = rng.choice([1, 1, 2])
    mode = rng.choice(["unrun", "first", "first"]) \
        if I.DISTS[name].stat else "data"
    steps = []
    for i in range(rng.choice([1, 2, 2, 3, 4])):
        o = copy.deepcopy(base["data"]["data%d" % (3 - pos)])
        o["seed"] += rng.choice([0, 100, 200])
        if rng.random() < 0.2 and name != "Cramer_Distance":
            o["scale"] = rng.choice([1.5, 0.8])
        s = {"other": o, "asks": rng.choice([1, 1, 2, 3]),
             "kw": vary_kw(rng, name, base["kw"]) if rng.random() < 0.35
             else base["kw"],
             "metric": I.DISTS[name].metric(rng)}
        if mode == "data":
            s["kw"] = base["kw"]
        if rng.random() < 0.2:
            s["fault"] = {"frac": round(rng.random(), 6),
                          "by": rng.choice(["tick", "site", "site", "hot"]),
                          "occ": rng.randrange(4),
                          "kind": rng.choice(KINDS)}
            s["asks"] = 1
        steps.append(s)
    return {"dist": name, "base": base, "pos": pos, "mode": mode,
            "both": mode == "unrun" and rng.random() < 0.3,
            "steps": steps, "npseed": rng.randrange(2 ** 31)}


def item_of(plan, st):
    it = copy.deepcopy(plan["base"])
    it["data"]["data%d" % (3 - plan["pos"])] = st["other"]
    it["kw"] = st["kw"]
    it["metric"] = st["metric"]
    return it


def reference(plan, st):
    np.random.seed(plan["npseed"])
    it = item_of(plan, st)
    d = I.DISTS[plan["dist"]]
    inp = d.make(it)

    def go():
        o = d.construct(it, inp)
        d.ask(o, it, inp)
        return d.observe(o)
    kind = (st.get("fault") or {}).get("kind")
    with (LineFaults if kind == "between" else CallFaults)(record=True) as cf:
        o = attempt(go)
    return {"out": o, "calls": (cf.count, cf.sites.list())}


def side_of(obj, pos):
    for k, v in U.public_state(obj):
        if k.endswith(str(pos)) and \
                (type(v).__module__ or "").startswith("turbustat"):
            return v
    raise AssertionError("no statistic on side %d" % pos)


def play(plan, counts):
    np.random.seed(plan["npseed"])
    d = I.DISTS[plan["dist"]]
    fid = None
    outs, fired, keep = [], [], []
    for st, n in zip(plan["steps"], counts):
        it = item_of(plan, st)
        inp = d.make(it)
        p = "data%d" % plan["pos"]
        if fid is not None:
            inp[p] = fid
        elif plan["mode"] == "unrun":
            inp[p] = fid = d.side(inp[p], it, inp)
            if plan.get("both"):
                q = "data%d" % (3 - plan["pos"])
                inp[q] = d.side(inp[q], it, inp)
        np.random.seed(plan["npseed"])
        fl = st.get("fault")
        seen = []

        def go():
            o = d.construct(it, inp)
            for _ in range(st["asks"]):
                d.ask(o, it, inp)
                seen.append(d.observe(o))
            return o
        kind = fl and fl["kind"]
        if kind == "between":
            cf = LineFaults(aim(fl, *n))
        else:
            kind = fl and kind_at(fl, n[1])
            cf = CallFaults(aim(fl, *n), kind or "memory")
        with cf:
            o = attempt(go)
        fired.append((kind, cf.fired) if fl else None)
        outs.append((o[0], seen) if o[0] == "ok" else o)
        if o[0] == "ok" and fid is None and plan["mode"] == "first":
            fid = side_of(o[1], plan["pos"])
        if o[0] == "ok":
            keep.append(o[1])
    return {"outs": outs, "fired": fired}


def execute(plan):
    nm = plan["dist"]
    refs = [isolate(reference, plan, st) for st in plan["steps"]]
    stats = {"dist:" + nm: 1, "mode:" + plan["mode"]: 1}
    r = safe(play, plan, [x["calls"] for x in refs])
    if r[0] != "ok":
        return result([("%s:%s" % (nm, r[0]), "no answer: %s" % (r,))],
                      stats, None, [r[0]])
    got = r[1]
    viol = []
    done = 0
    for i, (st, ref, o, fr) in enumerate(zip(plan["steps"], refs,
                                             got["outs"], got["fired"])):
        if fr and fr[1]:
            stats["fault:" + fr[0]] = stats.get("fault:" + fr[0], 0) + 1
            if o[0] == "raise" or fr[0] not in ("memory", "interrupt",
                                               "between"):
                continue
        ro = ref["out"]
        how = "comparison %d (%s side %d)" % (i, plan["mode"], plan["pos"])
        if nm == "SCF_Distance" and o[:2] == ("raise", "ValueError") and \
                any("scale" in s["other"] for s in plan["steps"]):
            # refused: an earlier comparison on another grid left other lags
            stats["refused"] = stats.get("refused", 0) + 1
            continue
        if ro[0] != o[0]:
            viol.append(("%s:outcome" % nm, "%s: %s, from the data sets %s"
                         % (how, _o(o), _o(ro))))
            continue
        if ro[0] == "raise":
            continue
        done += 1
        stats["distances compared"] = stats.get("distances compared", 0) + \
            len(o[1])
        for j, obs in enumerate(o[1]):
            for k, m in U.diff(ro[1], obs):
                viol.append(("%s:%s" % (nm, k), "%s, asked %d times: %s.%s %s"
                             " (from the data sets first)"
                             % (how, j + 1, nm, k, m)))
    hist = [(st["asks"], "scale" in st["other"], st["kw"] != plan["base"]["kw"],
             bool(st.get("fault"))) for st in plan["steps"]]
    return result(viol, stats, sig(nm, plan["mode"], plan["pos"],
                                   plan["both"], hist, got["fired"])
                  if done else None,
                  [[o[:2] for o in got["outs"]], got["fired"]],
                  sample={"dist": nm, "mode": plan["mode"], "fiducial side":
                          plan["pos"], "steps": hist, "fired": got["fired"]},
                  trace=[hist, got["fired"]])


def _o(o):
    return "raised %s: %s" % (o[1], o[2][:90]) if o[0] == "raise" \
        else "completed"
