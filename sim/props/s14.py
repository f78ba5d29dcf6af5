"""S14: how a request is executed never changes its numbers."""
import contextlib
import copy

import numpy as np

from .. import exec_env as X
from .. import items as I
from .. import util as U
from ..data import LAYOUTS
from ..isolate import isolate
from ..other import interp
from ..seams import EXC
from ..work import attempt, result, safe, sig

LEVEL = "exploration"
RUNS = {"quick": 2200, "thorough": 90000}
RULE = ("one run = one request executed plainly (numpy FFT, one job) in a "
        "pristine process and again with seeded execution choices: pyFFTW "
        "with thread counts, planner options, plan cache and an earlier "
        "request warming it, or asked for but not installed; number of jobs "
        "and order in which they run; contents of freshly allocated memory; "
        "placement of the input arrays in memory; garbage-collector "
        "settings; another interpreter (hash seed, -O, locale, BLAS "
        "threads); one failing pyFFTW call or job; non-trivial when both "
        "executions complete and are compared")
MEASURE = "distinct (request, option names, execution choices)"
REAL = ["all TurbuStat code, numpy, scipy, pyFFTW with its threads, other "
        "interpreters as real processes"]
STUB = ["joblib's scheduling (seeded order, in one thread)",
        "the failing pyFFTW call or job", "contents of np.empty",
        "FFTW's timing-based planning (FFTW_ESTIMATE)"]
ASSUMPTIONS = ["comparison tolerance 1e-6 relative; double precision data "
               "where the FFT library is exchanged"]
SHRINK_KEEP = ("kind", "spec", "stat", "data", "dist", "func", "shape",
               "seed", "ndim", "container", "dtype", "npseed", "kw", "prog",
               "init", "metric", "data1", "data2", "opt", "n", "item",
               "frac", "format", "plain", "varied")

DICTS = ("run", "compute_deltavar", "compute_transform")


def _opts(rng):
    o = {"use_pyfftw": True}
    if rng.random() < .8:
        o["threads"] = rng.choice([1, 2, 3, 4])
    pk = {}
    if rng.random() < .5:
        pk["planner_effort"] = "FFTW_ESTIMATE"
    if rng.random() < .3:
        pk["threads"] = rng.choice([1, 2])
    if rng.random() < .2:
        pk["auto_align_input"] = rng.choice([True, False])
    if rng.random() < .2:
        pk["auto_contiguous"] = rng.choice([True, False])
    return o, pk


FFT_STATS = ("PowerSpectrum", "MVC", "VCA", "VCS", "Bispectrum",
             "DeltaVariance", "Wavelet")
FFT_DISTS = {"PSpec_Distance": "pspec_kwargs",
             "Bispectrum_Distance": "stat_kwargs",
             "DeltaVariance_Distance": "delvar_kwargs",
             "Wavelet_Distance": "fit_kwargs"}


def fftw(rng, item):
    """The same request using pyFFTW, or None if it has no such option."""
    it = copy.deepcopy(item)
    o, pk = _opts(rng)
    if it["kind"] == "stat":
        nm = it["spec"]["stat"]
        if nm not in FFT_STATS:
            return None
        for m, kw in it["prog"]:
            flat = nm == "Bispectrum" or m == "compute_pspec"
            if m in DICTS or m in ("compute_pspec", "compute_bispectrum"):
                kw.update(o)
                if flat:
                    kw.update((k, v) for k, v in pk.items()
                              if k != "threads")
                elif pk:
                    kw["pyfftw_kwargs"] = pk
        return it
    if it["kind"] == "dist" and it["dist"] in FFT_DISTS:
        kw = it["kw"].setdefault(FFT_DISTS[it["dist"]], {})
        kw.update(o)
        if it["dist"] == "Bispectrum_Distance":
            kw.update((k, v) for k, v in pk.items() if k != "threads")
        elif pk:
            kw["pyfftw_kwargs"] = pk
        return it
    if it["kind"] == "func" and it["func"] == "rfft_to_fft":
        it["kw"]["opt"].update(o)
        it["kw"]["opt"].pop("threads", None)
        return it
    return None


def plain_fft(item):
    """Strip noise-only outputs and FFT options from the base request."""
    def rec(n):
        if isinstance(n, dict):
            for k in ("use_pyfftw", "threads", "pyfftw_kwargs"):
                n.pop(k, None)
            if n.get("mean_subtract"):
                n.pop("mean_subtract")
            if "dtype" in n and isinstance(n["dtype"], str):
                n["dtype"] = ">f8" if ">" in n["dtype"] else "<f8"
            for v in n.values():
                rec(v)
        elif isinstance(n, list):
            for v in n:
                rec(v)
    rec(item)
    return item


def layouts(rng, item):
    it = copy.deepcopy(item)
    n = 0
    if it["kind"] == "func":
        it["kw"]["layout"] = rng.choice(LAYOUTS)
        return it
    data = it["spec"]["data"] if it["kind"] == "stat" else it["data"]
    for r in data.values():
        if rng.random() < .8 or not n:
            r["layout"] = rng.choice(LAYOUTS)
            n += 1
    return it


MODES = ["fftw", "fftw", "fftw", "fftwcache", "fftwfault", "memory",
         "memory", "layout", "layout", "gc", "interp", "interp", "nofftw",
         "nofftw"]
FFTKINDS = ["stat:" + s for s in FFT_STATS] + ["dist:" + d for d in FFT_DISTS
                                               ] + ["func:rfft_to_fft"]


def gen(rng, tier, idx):
    f = {"rngfree": True, "nofftw": True}
    mode = rng.choice(MODES)
    if idx % 13 == 5:
        mode = "jobs"
    which = I.KINDS[idx % len(I.KINDS)]
    if mode in ("fftw", "fftwcache", "fftwfault", "nofftw"):
        which = FFTKINDS[idx % len(FFTKINDS)]
    if mode == "jobs":
        which = "dist:Cramer_Distance"
    item = I.gen(rng, which, f)
    p = {"mode": mode, "npseed": rng.randrange(2 ** 31)}
    varied = item
    if mode in ("fftw", "fftwcache", "fftwfault", "nofftw"):
        item = plain_fft(item)
        varied = fftw(rng, item)
        if mode != "nofftw":
            p["num_threads"] = rng.choice([None, None, 2])
        if mode == "fftwcache":
            p["cache"] = True
            p["before"] = [fftw(rng, item) for _ in
                           range(rng.choice([0, 1, 2]))]
            from .. import mutate as M
            for b in p["before"]:
                if rng.random() < .6 and b["kind"] != "func":
                    root = b["spec"] if b["kind"] == "stat" else b
                    root["data"] = M.other_data(rng, root["data"])
                    plain_fft(root["data"])
        if mode == "fftwfault":
            p["fault"] = {"frac": round(rng.random(), 6),
                          "kind": rng.choice(["memory", "runtime",
                                              "interrupt"])}
    elif mode == "layout":
        varied = layouts(rng, item)
    elif mode == "memory":
        p["poison"] = [rng.randrange(len(X.POISON)), rng.randrange(256)]
    elif mode == "gc":
        p["gc"] = rng.choice(["off", [1, 1, 1], [7, 2, 2], [60, 1, 1]])
    elif mode == "interp":
        p["interp"] = rng.choice(["hash1", "hash2", "bare"])
    elif mode == "jobs":
        varied = copy.deepcopy(item)
        varied["metric"]["n_jobs"] = rng.choice([2, 3, 4, 7, -1])
        p["order"] = rng.randrange(10 ** 6)
        if rng.random() < .3:
            p["fault"] = {"frac": round(rng.random(), 6),
                          "kind": rng.choice(["memory", "value",
                                              "interrupt"])}
    if mode == "nofftw":
        p["interp"] = "nofftw"
    # a second, independent choice now and then
    if mode in ("fftw", "layout", "nofftw", "interp") and rng.random() < .2:
        p["poison"] = [rng.randrange(len(X.POISON)), rng.randrange(256)]
    p["plain"] = item
    p["varied"] = varied
    return p


def one(item, npseed):
    np.random.seed(npseed)
    return I.run(item, I.make(item), sides=True)


BLANK = [3, 0]          # new memory holds zeros unless the plan says else


def plain(item, npseed):
    with X.memory(*BLANK):
        return attempt(one, item, npseed)


@contextlib.contextmanager
def nothing():
    yield None


def work(plan, count=False):
    """The request under its execution choices (any interpreter)."""
    fl = plan.get("fault")
    at = None if count or not fl else fl.get("at", 0)
    exc = EXC[fl["kind"]]() if fl else None
    seam = nothing()
    if plan["mode"] in ("fftw", "fftwcache", "fftwfault"):
        seam = X.FFTW(plan.get("cache"), at, exc, plan.get("num_threads"))
    elif plan["mode"] == "jobs":
        seam = X.Jobs(plan.get("order", 0), at, exc)
    with contextlib.ExitStack() as st:
        st.enter_context(X.memory(*(plan.get("poison") or BLANK)))
        if plan.get("gc"):
            st.enter_context(X.collector(plan["gc"]))
        s = st.enter_context(seam)
        for b in plan.get("before", []):
            attempt(one, b, plan["npseed"])
        o = attempt(one, plan["varied"], plan["npseed"])
        n = s.count if s is not None else 0
        fired = s.fired if s is not None else False
    return {"out": o, "count": n, "fired": fired}


def jiggle(item, seed):
    it = copy.deepcopy(item)
    if it["kind"] == "func":
        it["kw"]["jiggle"] = seed
        return it
    data = it["spec"]["data"] if it["kind"] == "stat" else it["data"]
    for i, r in enumerate(data.values()):
        r["jiggle"] = seed + 100 * i
    return it


def conditioned(plan, ref, names):
    """Names whose value rounding errors in the input do not change."""
    keep = set(names)
    for seed in range(1, 9):
        o = isolate(plain, jiggle(plan["plain"], seed), plan["npseed"])
        if o[0] != ref[0]:
            return set()
        if o[0] == "ok":
            keep -= set(k for k, _ in U.diff(ref[1], o[1]))
    return keep


def execute(plan):
    item = plan["varied"]
    nm = I.name(item)
    mode = plan["mode"]
    stats = {"mode:" + mode: 1, item["kind"] + ":" + nm: 1}
    ref = isolate(plain, plan["plain"], plan["npseed"])
    fl = plan.get("fault")
    if fl:
        c = safe(work, plan, True)
        fl["at"] = int(fl["frac"] * (c[1]["count"] if c[0] == "ok" else 0))
    if plan.get("interp"):
        r = interp(plan["interp"]).call("sim.props.s14:work", plan)
        stats["interpreter:" + plan["interp"]] = 1
    else:
        r = safe(work, plan)
    if r[0] != "ok":
        return result([("%s:%s:%s" % (nm, mode, r[0]), "no answer: %s"
                        % (r,))], stats, None, [r[0]])
    got = r[1]
    o = got["out"]
    viol = []
    if got["fired"]:
        stats["fault:" + fl["kind"]] = 1
    if fl and got["fired"] and o[0] == "raise":
        stats["failure reported"] = 1
    elif o[0] != ref[0]:
        viol.append(("%s:%s:outcome" % (nm, mode), "%s %s with %s, but %s "
                     "plainly" % (nm, _o(o), _how(plan), _o(ref))))
    elif o[0] == "ok":
        for k, m in U.diff(ref[1], o[1]):
            viol.append(("%s:%s:%s" % (nm, mode, k), "%s.%s with %s: %s "
                         "(plain execution first)" % (nm, k, _how(plan), m)))
    if viol:
        keep = conditioned(plan, ref, [k.split(":")[-1] for k, _ in viol])
        if len(keep) < len(viol):
            stats["left to rounding"] = len(viol) - len(keep)
            viol = [v for v in viol if v[0].split(":")[-1] in keep]
    if got["count"]:
        stats["seam calls"] = got["count"]
    from .s05 import _opts as names
    return result(viol, stats,
                  sig(nm, mode, _how(plan), sorted(map(str, names(item))))
                  if ref[0] == "ok" else None,
                  [ref[0], o[0], got["fired"], got["count"]],
                  sample={"request": I.brief(item), "how": _how(plan)},
                  trace=[_how(plan), got["count"], got["fired"]])


def _how(plan):
    h = [plan["mode"]]
    for k in ("interp", "cache", "num_threads", "poison", "gc", "order",
              "fault"):
        if plan.get(k):
            h.append("%s=%s" % (k, plan[k]))
    if plan["mode"] == "layout":
        import json
        import re
        h.append("/".join(re.findall(r'"layout": "(\w+)"',
                                     json.dumps(plan["varied"]))))
    if plan["mode"] == "jobs":
        h.append("n_jobs=%s" % plan["varied"]["metric"].get("n_jobs"))
    return " ".join(h)


def _o(o):
    return "raised %s: %s" % (o[1], o[2][:80]) if o[0] == "raise" \
        else "completed"
