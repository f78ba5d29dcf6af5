"""S03: a seeded request gives the same numbers whatever the random streams
of the process have been through, and whoever draws from them meanwhile."""
import random

import numpy as np

from .. import catalog as C
from .. import items as I
from .. import mutate as M
from .. import util as U
from ..isolate import isolate
from ..seams import CallFaults, LineClock, Threads
from ..work import attempt, result, safe, sig

LEVEL = "exploration"
RUNS = {"quick": 2600, "thorough": 120000}
RULE = ("one run = one seeded request made after a seeded history (draws, "
        "reseeding, other seeded requests, requests interrupted half-way) "
        "while a second caller draws from and reseeds the process-wide "
        "streams and makes seeded requests of its own at scheduled moments; "
        "compared bit for bit with the same "
        "request in a pristine process, with the second caller's own draws "
        "compared with drawing alone, and with the same request under "
        "another seed; non-trivial when the request completes")
MEASURE = "distinct (request, history, functions preempted) runs"
REAL = ["TurbuStat simulators, bispectrum, bootstrap fits, Cramer sampling"]
STUB = ["the thread scheduler", "the single failing library call"]
ASSUMPTIONS = ["bit-for-bit comparison on one machine and library build"]
SHRINK_KEEP = ("kind", "spec", "stat", "data", "dist", "func", "shape",
               "seed", "ndim", "container", "dtype", "npseed", "kw", "prog",
               "init", "metric", "data1", "data2", "opt", "n", "item",
               "randomseed", "format", "stat_kwargs", "bootstrap_kwargs",
               "bootstrap", "fit_kwargs", "nboot", "nsamples")

BOOT = ["PowerSpectrum", "MVC", "VCA", "DeltaVariance", "Wavelet", "VCS",
        "SCF"]


def gen_item(rng, c):
    f = {"rngfree": True, "nofftw": True}
    if c == 0:
        return I.gen(rng, "func:make_3dfield", f)
    if c == 1:
        return I.gen(rng, "func:make_extended", f)
    if c == 2:
        it = I.gen(rng, "stat:Bispectrum", f)
        it["prog"][0][1]["seed"] = rng.choice([0, 3, 1000, 991, 2 ** 31])
        return it
    if c == 3:
        return I.gen(rng, "func:residual_bootstrap", f)
    if c == 4:
        it = I.gen(rng, "dist:Cramer_Distance", f)
        it["data"]["data1"]["shape"] = [8, 12, 12]
        it["data"]["data2"]["shape"] = [8, 13, 14]
        it["format"] = {"data_format": "intensity", "p": 0.3,
                        "seed": rng.choice([5, 13024, 77, 0]),
                        "normalize": rng.choice([True, False])}
        return it
    if c == 5:
        return I.gen(rng, "dist:Bispectrum_Distance", f)
    stat = rng.choice(BOOT)
    spec = C.gen_spec(rng, stat, f)
    bk = {"nboot": 8, "seed": rng.choice([4, 38574895, 10, 0])}
    fk = {"bootstrap": True, "bootstrap_kwargs": bk}
    run = {"fit_kwargs": fk}
    if stat in ("DeltaVariance", "Wavelet"):
        run["show_progress"] = False
    else:
        run["fit_2D"] = False
    if stat == "VCS":
        return {"kind": "stat", "spec": spec, "prog": [
            ["compute_pspec", {}], ["fit_pspec", fk]]}
    if stat == "SCF":
        return {"kind": "stat", "spec": spec, "prog": [
            ["compute_surface", {"show_progress": False}],
            ["compute_spectrum", {}], ["fit_plaw", fk]]}
    return {"kind": "stat", "spec": spec, "prog": [["run", run]]}


def gen(rng, tier, idx):
    item = gen_item(rng, idx % 8)
    hist = []
    for _ in range(rng.randrange(0, 4)):
        hist.append(rng.choice([
            {"op": "draw", "n": rng.randrange(1, 700)},
            {"op": "seed", "s": rng.randrange(2 ** 31)},
            {"op": "gauss"},
            {"op": "pyseed", "s": rng.randrange(1000)},
            {"op": "other", "c": rng.randrange(8),
             "s": rng.randrange(1000)},
            {"op": "same"},
            {"op": "sibling", "s": rng.randrange(10 ** 6)},
            {"op": "sibling", "s": rng.randrange(10 ** 6)},
            {"op": "cut", "frac": round(rng.random(), 4),
             "kind": rng.choice(["memory", "interrupt"])}]))
    noise = []
    if rng.random() < 0.7:
        for _ in range(rng.randrange(1, 7)):
            noise.append({"at": round(rng.random(), 5),
                          "op": rng.choice(["draw", "draw", "seed",
                                            "normal", "setstate",
                                            "request"]),
                          "n": rng.randrange(1, 40)})
    return {"item": item, "history": hist, "noise": noise,
            "npseed": rng.randrange(2 ** 31)}


def seeded_variant(item):
    """The same request with another seed (None: no seed to change)."""
    import json
    it = json.loads(json.dumps(item))
    if it["kind"] == "func" and "randomseed" in it["kw"].get("opt", {}):
        it["kw"]["opt"]["randomseed"] += 1
        return it
    if it["kind"] == "stat" and it["spec"]["stat"] == "Bispectrum":
        it["prog"][0][1]["seed"] = 17
        return it
    if it["kind"] == "func" and it["func"] == "residual_bootstrap":
        it["kw"]["opt"]["seed"] = 9
        return it
    if it["kind"] == "dist" and it["dist"] == "Cramer_Distance":
        it["format"]["seed"] = 123
        return it
    return None


def sibling_request(rng, item):
    """The same request on other data, with another seed or option."""
    it = dict(item)
    r = rng.random()
    if r < 0.5:
        v = seeded_variant(it)
        it = v if v is not None else it
    if r > 0.3:
        if it["kind"] == "func":
            it["kw"] = M.sibling(rng, it["kw"])
        elif rng.random() < 0.5:
            root = it["spec"] if it["kind"] == "stat" else it
            root = dict(root, data=M.other_data(rng, root["data"]))
            it = dict(it, spec=root) if it["kind"] == "stat" else root
        else:
            it = M.sibling(rng, it, ("prog", "kw", "format", "metric"))
            for _, kw in it.get("prog", []):
                if "fit_2D" in kw:      # draws from the caller's stream
                    kw["fit_2D"] = False
    return it


def pristine(item, npseed):
    np.random.seed(npseed)
    random.seed(npseed)
    inp = I.make(item)
    with LineClock(lambda n, c, l: None) as lc:
        o = attempt(I.run, item, inp)
    return o, lc.n


def drawer(noise, item=None):
    """The second caller. With an item it also makes whole seeded requests
    of its own, which must not show in anybody's numbers."""
    out = []
    for nz in noise:
        yield_point(nz)
        if nz["op"] == "draw":
            out.append(np.random.random(nz["n"]).sum())
        elif nz["op"] == "normal":
            out.append(np.random.normal(size=nz["n"]).sum())
        elif nz["op"] == "seed":
            np.random.seed(nz["n"])
        elif nz["op"] == "request" and item is not None:
            it = item if nz["n"] < 10 else \
                sibling_request(random.Random(nz["n"]), item)
            attempt(lambda: I.run(it, I.make(it)))
        elif nz["op"] == "setstate":
            st = np.random.get_state()
            out.append(np.random.random())
            np.random.set_state(st)
    return [float(x) for x in out]


def yield_point(nz):
    pass


def calm(noise, npseed):
    """The second caller alone."""
    np.random.seed(npseed)
    return drawer(noise)


def play(plan, total):
    item = plan["item"]
    np.random.seed((plan["npseed"] + 12345) % 2 ** 32)
    for h in plan["history"]:
        if h["op"] == "draw":
            np.random.random(h["n"])
        elif h["op"] == "gauss":
            np.random.normal()
        elif h["op"] == "seed":
            np.random.seed(h["s"])
        elif h["op"] == "pyseed":
            random.seed(h["s"])
        elif h["op"] == "other":
            it = gen_item(random.Random(h["s"]), h["c"])
            attempt(I.run, it, I.make(it))
        elif h["op"] == "same":
            attempt(I.run, item, I.make(item))
        elif h["op"] == "sibling":
            it = sibling_request(random.Random(h["s"]), item)
            attempt(lambda: I.run(it, I.make(it)))
        elif h["op"] == "cut":
            with CallFaults() as cf:
                attempt(I.run, item, I.make(item))
            with CallFaults(int(h["frac"] * cf.count), h["kind"]):
                attempt(I.run, item, I.make(item))
    inp = I.make(item)
    noise = plan["noise"]
    if not noise:
        return {"out": attempt(I.run, item, inp), "draws": [], "trace": []}
    np.random.seed(plan["npseed"])
    state = {"i": 0}
    # the second caller acts at its scheduled ticks; each action is one baton
    acts = sorted(noise, key=lambda z: z["at"])
    out = []
    gen_ = _stepper(acts, out, item)
    trace = []

    def tick(n, code, line):
        while state["i"] < len(acts) and \
                n >= acts[state["i"]]["at"] * total:
            state["i"] += 1
            trace.append((n, acts[state["i"] - 1]["op"], code.co_name))
            next(gen_, None)
    with LineClock(tick):
        o = attempt(I.run, item, inp)
    for _ in gen_:
        pass
    return {"out": o, "draws": out, "trace": trace}


def _stepper(acts, out, item):
    for nz in acts:
        out.extend(drawer([nz], item))
        yield


def execute(plan):
    item = plan["item"]
    nm = I.name(item)
    ref, total = isolate(pristine, item, plan["npseed"])
    stats = {item["kind"] + ":" + nm: 1, "ticks": total}
    if ref[0] != "ok":
        stats["request rejected"] = 1
        return result([], stats, None, [ref[:2]])
    r = safe(play, plan, total)
    if r[0] != "ok":
        return result([("%s:%s" % (nm, r[0]), "no answer: %s" % (r,))],
                      stats, None, [r[0]])
    got = r[1]
    viol = []
    o = got["out"]
    for h in plan["history"]:
        stats["history:" + h["op"]] = stats.get("history:" + h["op"], 0) + 1
        if h["op"] == "cut":
            stats["fault:" + h["kind"]] = stats.get("fault:" + h["kind"],
                                                    0) + 1
    for t in got["trace"]:
        k = "fault:concurrent %s" % t[1]
        stats[k] = stats.get(k, 0) + 1
    if o[0] != "ok":
        viol.append(("%s:outcome" % nm, "%s raised %s in this history"
                     % (nm, o[1:])))
    else:
        for k, m in U.diff(ref[1], o[1], rtol=1e-13):
            viol.append(("%s:%s" % (nm, k), "same seed, different %s.%s: %s "
                         "(pristine process first)" % (nm, k, m)))
    if plan["noise"]:
        alone = isolate(calm, sorted(plan["noise"], key=lambda z: z["at"]),
                        plan["npseed"])
        if alone != got["draws"]:
            viol.append(("%s:other caller's stream" % nm,
                         "another caller's draws were %s, alone %s"
                         % (got["draws"][:4], alone[:4])))
    var = seeded_variant(item)
    if var is not None:
        vref = isolate(pristine, var, plan["npseed"])[0]
        stats["other seed compared"] = 1
        if vref[0] == "ok" and not U.diff(ref[1], vref[1], rtol=1e-13):
            viol.append(("%s:seed ignored" % nm, "another seed gave the "
                         "same numbers"))
    ops = [h["op"] for h in plan["history"]]
    return result(viol, stats, sig(nm, ops, [t[1:] for t in got["trace"]]),
                  [o[:2] if o[0] == "raise" else o, got["draws"],
                   got["trace"]],
                  sample={"request": I.brief(item), "history":
                          plan["history"], "second caller": got["trace"]},
                  trace=got["trace"])
