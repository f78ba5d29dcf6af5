"""S15: an analysis can be handed between processes at any point and gives
the answer it gives in one process."""
import copy
import pickle

import numpy as np
from astropy.io import fits

from .. import catalog as C
from .. import items as I
from .. import util as U
from ..data import decode
from ..isolate import isolate
from ..other import interp
from ..seams import CallFaults
from ..work import attempt, brief, result, ret_canon, safe, sig

LEVEL = "exploration"
RUNS = {"quick": 1100, "thorough": 60000}
RULE = ("one run = one analysis (statistic or distance, all its steps) made "
        "in one process and again handed over 1-3 times between its steps: "
        "pickled (protocols 0-5) to a forked worker or to another "
        "interpreter with another hash seed, or deep-copied, with a worker "
        "dying or interrupted at a seeded library call and the step "
        "resubmitted, and the original used on while its copy is away and "
        "edited in place; "
        "non-trivial when at least one hand-over happened and the analysis "
        "completed")
MEASURE = "distinct (analysis, option names, hand-over points and ways, fault)"
REAL = ["all TurbuStat code, pickle, copy, other interpreters as real "
        "processes"]
STUB = ["the transport between the processes (a pipe)",
        "death or interruption of the worker"]
ASSUMPTIONS = ["comparison tolerance 1e-6 relative", "small inputs"]
SHRINK_KEEP = ("kind", "spec", "stat", "data", "dist", "shape", "seed",
               "ndim", "container", "dtype", "npseed", "kw", "prog", "init",
               "metric", "data1", "data2", "opt", "item", "frac", "format",
               "way", "proto", "at")

WAYS = ["fork", "fork", "hash1", "hash2", "deepcopy"]
# (Moments holds a SpectralCube, which spectral-cube cannot pickle once used)
KINDS = ["stat:" + s for s in C.STAT_NAMES if s != "Moments"] * 2 + \
    ["dist:" + d for d in I.DISTS]


def gen(rng, tier, idx):
    f = {"rngfree": True}
    which = KINDS[idx % len(KINDS)]
    it = I.gen(rng, which, f)
    if it["kind"] == "stat" and rng.random() < .5:
        it["prog"] = it["prog"] + C.gen_program(rng, it["spec"], f)
    n = len(it["prog"]) + 1 if it["kind"] == "stat" else 3
    hops = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        h = {"at": rng.randrange(n), "way": rng.choice(WAYS),
             "proto": rng.choice([0, 1, 2, 3, 4, 4, 5])}
        if h["way"] == "fork" and rng.random() < .4:
            h["fault"] = {"frac": round(rng.random(), 6), "kind": rng.choice(
                ["memory", "interrupt", "die"])}
        if rng.random() < .3:
            h["stay"] = True          # the original works on meanwhile
        hops.append(h)
    hops.sort(key=lambda h: h["at"])
    return {"item": it, "hops": hops, "npseed": rng.randrange(2 ** 31)}


# --------------------------------------------------------------- the steps
def steps(item):
    if item["kind"] == "stat":
        return [["build"]] + [["call", m, kw] for m, kw in item["prog"]]
    return [["build"], ["ask"], ["ask"]]


def step(item, obj, st, npseed):
    np.random.seed(npseed)
    if st[0] == "build":
        if item["kind"] == "stat":
            return C.build(item["spec"], C.make_inputs(item["spec"])), None
        d = I.DISTS[item["dist"]]
        return d.construct(item, d.make(item)), None
    if st[0] == "call":
        return obj, C.call(obj, st[1], decode(st[2]))
    d = I.DISTS[item["dist"]]
    return obj, d.ask(obj, item, d.make(item))


def seen(item, obj):
    if item["kind"] == "stat":
        return U.observe(obj)
    d = I.DISTS[item["dist"]]
    return dict(d.observe(obj), **d.observe_sides(obj))


def do(item, obj, st, npseed):
    """-> (obj, canonical outcome)"""
    o = attempt(step, item, obj, st, npseed)
    if o[0] == "raise":
        return obj, o
    obj, v = o[1]
    return obj, ret_canon(obj, ("ok", v))


def alone(item, npseed):
    obj, outs, obs = None, [], []
    for i, st in enumerate(steps(item)):
        obj, o = do(item, obj, st, npseed + i)
        outs.append(o)
        if o[0] == "raise":
            break
        obs.append(seen(item, obj))
    return {"outs": outs, "obs": obs}


def remote(blob, item, st, npseed, proto, fault=None):
    """One step in a worker; the object goes home again."""
    obj = pickle.loads(blob)
    if fault:
        kind = fault["kind"]
        with CallFaults(fault["at"], _die if kind == "die" else kind) as cf:
            obj, o = do(item, obj, st, npseed)
        return {"out": o, "blob": None, "fired": cf.fired}
    obj, o = do(item, obj, st, npseed)
    return pack({"out": o}, obj, proto)


def pack(r, obj, proto):
    p = attempt(pickle.dumps, obj, protocol=proto)
    if p[0] == "raise":
        return {"lost": ("cannot be handed over", p)}
    return dict(r, blob=p[1])


def _die():
    import os
    os._exit(9)


def calls(blob, item, st, npseed):
    obj = pickle.loads(blob)
    with CallFaults() as cf:
        do(item, obj, st, npseed)
    return cf.count


# The travelling execution runs in the search worker's own child, which may
# fork further; other interpreters are asked by the search worker itself, so
# the analysis is carried as a pickle between the steps.
def first(item, npseed, proto):
    obj, o = do(item, None, ["build"], npseed)
    return pack({"out": o}, obj, proto)


def home(blob, item, sts, npseed, i0, proto, deep=False):
    """Steps i0.. in one process -> outcomes, state, pickle."""
    obj = pickle.loads(blob)
    if deep:
        obj, left = copy.deepcopy(obj), obj
        scribble(left)
    outs = []
    for i, st in enumerate(sts):
        obj, o = do(item, obj, st, npseed + i0 + i)
        outs.append(o)
        if o[0] == "raise":
            return {"outs": outs}
    return pack({"outs": outs, "obs": seen(item, obj)}, obj, proto)


def stay(blob, item, sts, npseed, i0):
    """A copy is taken (and thrown away after use); the original goes on."""
    obj = pickle.loads(blob)
    other = copy.deepcopy(obj)
    outs = []
    for i, st in enumerate(sts):
        do(item, other, st, npseed + i0 + i)
        scribble(other)
        obj, o = do(item, obj, st, npseed + i0 + i)
        outs.append(o)
        if o[0] == "raise":
            return {"outs": outs}
    return {"outs": outs, "obs": seen(item, obj)}


def scribble(obj, depth=0):
    """Whoever has the other copy edits its arrays in place."""
    if isinstance(obj, np.ndarray):
        if obj.dtype.kind in "fiuc" and obj.flags.writeable:
            try:
                obj.view(np.ndarray)[...] = 7
            except (TypeError, ValueError):
                pass
    elif isinstance(obj, fits.Header):
        for k in ("CDELT1", "CDELT2", "CDELT3", "CRVAL1", "BMAJ"):
            if k in obj:
                obj[k] = 7.
    elif depth < 4:
        kids = ()
        if isinstance(obj, dict):
            kids = list(obj.values())
        elif isinstance(obj, (list, tuple)):
            kids = obj
        elif (type(obj).__module__ or "").startswith("turbustat"):
            kids = list(vars(obj).values())
        for v in kids:
            scribble(v, depth + 1)


def look(blob, item):
    return seen(item, pickle.loads(blob))


def execute(plan):
    item, sts, seed = plan["item"], steps(plan["item"]), plan["npseed"]
    nm = I.name(item)
    ref = isolate(alone, item, seed)
    stats = {item["kind"] + ":" + nm: 1}
    viol, trail = [], []

    def bad(what, msg):
        viol.append(("%s:%s" % (nm, what), "%s: %s" % (nm, msg)))

    def check(i, out, obs, where):
        r = ref["outs"][i]
        if r[0] != out[0]:
            bad("outcome", "step %d (%s) %s %s, in one process %s"
                % (i, _st(sts[i]), where, _o(out), _o(r)))
        elif r[0] == "ok":
            if not U.same(r[1], out[1]):
                bad("returned", "step %d (%s) %s returned %s, in one process "
                    "%s" % (i, _st(sts[i]), where, U.short(out[1]),
                            U.short(r[1])))
            if obs is not None:
                for k, m in U.diff(ref["obs"][i], obs):
                    bad(k, "%s after step %d (%s) %s: %s (one process first)"
                        % (k, i, _st(sts[i]), where, m))

    n = len(ref["outs"])
    ok = all(o[0] == "ok" for o in ref["outs"])
    if ref["outs"][0][0] != "ok":
        stats["request rejected"] = 1
        return result([], stats, None, ["rejected"])
    r = safe(first, item, seed, 4)
    if r[0] != "ok" or "lost" in r[1]:
        bad("no answer", "no answer: %s" % (r,))
        return result(viol, stats, None, trail)
    blob = r[1]["blob"]
    hops = list(plan["hops"])
    done = 1                       # steps completed
    while hops and done < n and not viol:
        h = hops.pop(0)
        at = max(done, min(h["at"], n - 1))
        # at home up to the hand-over
        if at > done:
            r = _ask(safe(home, blob, item, sts[done:at], seed, done,
                          h["proto"]))
            if "outs" not in r:
                bad("no answer", str(r))
                break
            for j, o in enumerate(r["outs"]):
                check(done + j, o, r.get("obs") if done + j == at - 1
                      else None, "at home after %s" % (trail or "pickling"))
            if viol or "blob" not in r:
                break
            blob, done = r["blob"], at
        if h.get("stay"):
            r = _ask(safe(stay, blob, item, sts[done:done + 1], seed, done))
            stats["original used on"] = stats.get("original used on", 0) + 1
            if "outs" not in r:
                bad("no answer", str(r))
                break
            check(done, r["outs"][0], r.get("obs"),
                  "on the original while a copy works")
        fl = h.get("fault")
        st = sts[done]
        if fl:
            c = safe(calls, blob, item, st, seed + done)
            fl["at"] = int(fl["frac"] * (c[1] if c[0] == "ok" else 0))
            r = safe(remote, blob, item, st, seed + done, h["proto"], fl)
            if r[0] == "died" or r[0] == "ok" and r[1]["fired"]:
                stats["fault:worker " + fl["kind"]] = stats.get(
                    "fault:worker " + fl["kind"], 0) + 1
            elif r[0] == "hang":
                bad("hang", "step %d in a worker: no answer" % done)
                break
        stats["hand-over:" + h["way"]] = stats.get("hand-over:" + h["way"],
                                                   0) + 1
        if h["way"] == "deepcopy":
            r = _ask(safe(home, blob, item, [st], seed, done, h["proto"],
                          True))
            r = dict(r, out=r["outs"][0]) if "outs" in r else r
        elif h["way"] == "fork":
            r = _ask(safe(remote, blob, item, st, seed + done, h["proto"]))
        else:
            r = _ask(interp(h["way"]).call("sim.props.s15:remote", blob, item,
                                           st, seed + done, h["proto"]))
        trail.append("%s@%d%s" % (h["way"], done, ":" + fl["kind"]
                                  if fl else ""))
        if "out" not in r:
            bad("no answer", "step %d (%s) %s: %s" % (done, _st(st), trail,
                                                      r))
            break
        obs = None
        if r["out"][0] == "ok":
            blob = r["blob"]
            o = safe(look, blob, item)
            obs = o[1] if o[0] == "ok" else {}
        check(done, r["out"], obs, "via " + trail[-1])
        if r["out"][0] == "raise":
            break
        done += 1
    else:
        if done < n and not viol:
            r = _ask(safe(home, blob, item, sts[done:n], seed, done, 4))
            for j, o in enumerate(r.get("outs", [])):
                check(done + j, o, r.get("obs") if done + j == n - 1
                      else None, "at home after %s" % trail)
            if "outs" not in r:
                bad("no answer", str(r))
    from .s05 import _opts
    return result(viol, stats, sig(nm, sorted(map(str, _opts(item))), trail)
                  if ok and trail else None,
                  [[o[0] for o in ref["outs"]], trail],
                  sample={"analysis": I.brief(item), "hand-overs": trail},
                  trace=trail)


def _ask(r):
    return r[1] if r[0] == "ok" else {"lost": r}


def _st(st):
    return st[1] if st[0] == "call" else st[0]


def _o(o):
    return "raised %s: %s" % (o[1], o[2][:90]) if o[0] == "raise" \
        else "completed"
