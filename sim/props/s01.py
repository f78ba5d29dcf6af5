"""S01: parallel cube synthesis equals serial synthesis for every schedule."""
import numpy as np

from .. import items as I
from .. import pool as P
from .. import util as U
from ..isolate import isolate
from ..work import attempt, result, safe, sig
from .s05 import leaves

LEVEL = "exploration"
RUNS = {"quick": 1500, "thorough": 60000}
RULE = ("one run = 1-3 cube syntheses with 1-16 workers in one process, often neighbours differing in one option; the "
        "plan decides which worker takes which chunk, the order in which "
        "results come back and which chunk stalls; every cube is compared "
        "with the one-worker cube made in a pristine process, and sight-"
        "lines are re-synthesised from a cropped field; non-trivial when at "
        "least two chunks were in flight")
MEASURE = "distinct (request, take/finish event sequence) schedules"
REAL = ["make_ppv, the compiled spectrum kernel, pickling, forked workers"]
STUB = ["the pool's scheduler (task hand-out, result arrival)"]
ASSUMPTIONS = ["workers communicate through the pool only"]
SHRINK_KEEP = ("shape", "seed", "opt", "calls", "kw", "threads", "sched")

UNITS = ["km/s", "m/s", "cm/s"]


def gen_call(rng):
    kw = I.gen_ppv(rng, threads=rng.choice([2, 2, 3, 3, 4, 5, 8, 16]))
    if rng.random() < 0.4:
        kw["shape"] = [rng.randrange(2, 8), rng.randrange(1, 7),
                       rng.randrange(1, 7)]
        n = kw["shape"].pop(0)
        kw["shape"].insert(kw["opt"]["los_axis"], n)
        kw["shape"] = [max(2, s) if i == kw["opt"]["los_axis"] else s
                       for i, s in enumerate(kw["shape"])]
    if rng.random() < 0.04:
        kw["dtype"] = "<f4"
    if rng.random() < 0.2:
        kw["opt"]["pixel_ang_scale"] = I.Q(2.0, "arcmin")
    return kw


def gen_choices(rng):
    mode = rng.choice(["uniform", "uniform", "fifo", "lifo", "starve"])
    n = rng.randrange(10, 120)
    if mode == "uniform":
        return [rng.randrange(60) for _ in range(n)]
    if mode == "fifo":
        return []
    if mode == "lifo":
        return [59] * n
    return [rng.choice([0, 0, 0, rng.randrange(60)]) for _ in range(n)]


def gen_sched(rng):
    s = {"choices": gen_choices(rng), "faults": []}
    if rng.random() < 0.3:
        s["faults"].append({"kind": "slow", "at": rng.randrange(0, 12)})
    return s


def neighbour(rng, kw):
    """A request that differs from `kw` in one respect."""
    kw = dict(kw, opt=dict(kw["opt"]), shape=list(kw["shape"]))
    o = kw["opt"]
    c = rng.randrange(10)
    if c <= 2:                      # another window of the same width
        v0, v1 = (o[k]["__q__"][0] if k in o else d
                  for k, d in (("v_min", -8.), ("v_max", 7.)))
        s = rng.choice([0.5, -1.0, 2.0])
        o["v_min"], o["v_max"] = I.Q(v0 + s, "km/s"), I.Q(v1 + s, "km/s")
    elif c == 3:
        o["T"] = I.Q(rng.choice([50., 800.]), "K")
    elif c == 4:
        o["los_length"] = I.Q(rng.choice([0.5, 8.]), "pc")
    elif c == 5:
        kw["seed"] += 1
    elif c == 6:
        o["chan_width"] = I.Q(rng.choice([0.4, 1.0]), "km/s")
    elif c == 7:
        los = o["los_axis"]
        sp = [i for i in range(3) if i != los]
        a, b = kw["shape"][sp[0]], kw["shape"][sp[1]]
        kw["shape"][sp[0]], kw["shape"][sp[1]] = b, a
    elif c == 8:
        o["vel_disp"] = I.Q(rng.choice([700., 2600.]), "m/s")
    else:
        o["threads"] = 1 if o["threads"] > 1 else 3
    if rng.random() < 0.25:
        o["threads"] = 1
    return kw


def gen(rng, tier, idx):
    calls = [gen_call(rng) for _ in range(rng.choice([1, 1, 1, 2]))]
    if rng.random() < 0.4:
        # the same fields again, other options
        calls.append(dict(gen_call(rng), seed=calls[0]["seed"],
                          shape=calls[0]["shape"]))
        calls[-1]["opt"] = dict(calls[-1]["opt"],
                                los_axis=calls[0]["opt"]["los_axis"])
    if rng.random() < 0.6:
        if rng.random() < 0.5 and "v_min" not in calls[0]["opt"]:
            calls[0]["opt"].update(v_min=I.Q(-8., "km/s"),
                                   v_max=I.Q(7., "km/s"))
        near = neighbour(rng, calls[0])
        if rng.random() < 0.3:
            near = neighbour(rng, near)
        calls.insert(rng.choice([0, len(calls)]), near)
    plan = {"calls": calls, "sched": gen_sched(rng), "npseed":
            rng.randrange(2 ** 31)}
    if rng.random() < 0.4:
        plan["crop"] = [round(rng.random(), 3) for _ in range(4)]
    return plan


def serial(kw):
    k = dict(kw, opt=dict(kw["opt"], threads=1))
    o = attempt(I.call_ppv, I.make_ppv_inputs(k))
    return o[:2] if o[0] == "raise" else ("ok", U.canon(o[1]))


def crop_of(kw, fr):
    """A window of sight-lines, with the velocity grid pinned."""
    los = kw["opt"].get("los_axis", 0)
    sp = [n for i, n in enumerate(kw["shape"]) if i != los]
    a = min(int(fr[0] * sp[0]), sp[0] - 1)
    b = a + 1 + int(fr[1] * (sp[0] - a - 1))
    c = min(int(fr[2] * sp[1]), sp[1] - 1)
    d = c + 1 + int(fr[3] * (sp[1] - c - 1))
    return los, (a, b), (c, d)


def pinned(kw, threads):
    opt = dict(kw["opt"], threads=threads, return_hdu=False)
    opt.setdefault("v_min", I.Q(-9., "km/s"))
    opt.setdefault("v_max", I.Q(9., "km/s"))
    opt.setdefault("chan_width", I.Q(0.7, "km/s"))
    opt.setdefault("vel_disp", I.Q(1.4, "km/s"))
    opt["los_length"] = I.Q(1., "pc")
    return dict(kw, opt=opt)


def play(plan):
    W = P.install(plan["sched"])
    np.random.seed(plan["npseed"])
    outs = []
    for kw in plan["calls"]:
        inp = I.make_ppv_inputs(kw)
        b = leaves(inp)
        o = attempt(I.call_ppv, inp)
        a = leaves(inp)
        outs.append({"out": o[:2] if o[0] == "raise" else
                     ("ok", U.canon(o[1])),
                     "changed": sorted(k for k in b if a.get(k) != b[k])})
    crop = None
    if plan.get("crop"):
        kw = plan["calls"][0]
        los, (a, b), (c, d) = crop_of(kw, plan["crop"])
        pk = pinned(kw, 1)
        inp = I.make_ppv_inputs(pk)
        full = attempt(I.call_ppv, inp)
        pk2 = pinned(kw, kw["opt"]["threads"])
        inp = I.make_ppv_inputs(pk2)
        sl = [slice(a, b), slice(c, d)]
        sl.insert(los, slice(None))
        inp["vel_field"] = inp["vel_field"][tuple(sl)]
        inp["dens_field"] = inp["dens_field"][tuple(sl)]
        part = attempt(I.call_ppv, inp)
        if full[0] == "ok" and part[0] == "ok":
            crop = (U.canon(full[1][0][:, a:b, c:d]), U.canon(part[1][0]),
                    [a, b, c, d])
        else:
            crop = (full[0], part[0], [a, b, c, d])
    left = sum(w.alive for p in W.pools for w in p.workers)
    return {"outs": outs, "crop": crop, "log": W.log, "fired": W.fired,
            "left": left, "pools": len(W.pools)}


def execute(plan):
    refs = [isolate(serial, kw) for kw in plan["calls"]]
    stats = {"calls": len(refs)}
    r = safe(play, plan)
    if r[0] != "ok":
        return result([("make_ppv:%s" % r[0], "no answer: %s" % (r,))],
                      stats, None, [r[0]])
    got = r[1]
    viol = []
    for i, (ref, g) in enumerate(zip(refs, got["outs"])):
        o = g["out"]
        kw = plan["calls"][i]
        if ref[0] != o[0]:
            viol.append(("make_ppv:outcome", "call %d with %s workers %s, "
                         "with one worker %s" % (i, kw["opt"]["threads"], o[:2]
                                                 if o[0] == "raise" else
                                                 "completed", ref[:2] if
                                                 ref[0] == "raise" else
                                                 "completed")))
        elif ref[0] == "ok" and not U.same(ref[1], o[1], 1e-12):
            viol.append(("make_ppv:cube", "call %d: the cube made by %s "
                         "workers differs from the serial one: %s != %s"
                         % (i, kw["opt"]["threads"], U.short(o[1]),
                            U.short(ref[1]))))
        if g["changed"]:
            viol.append(("make_ppv:inputs", "call %d changed %s"
                         % (i, g["changed"])))
        if ref[0] == "ok":
            stats["ok"] = stats.get("ok", 0) + 1
    c = got["crop"]
    if c is not None:
        stats["crop"] = 1
        if isinstance(c[0], str):
            if c[0] != c[1]:
                viol.append(("make_ppv:crop outcome", "whole field %s, "
                             "window %s" % (c[0], c[1])))
        elif not U.same(c[0], c[1], 1e-9):
            viol.append(("make_ppv:crop", "sight-lines %s made from the "
                         "window differ from the same ones made from the "
                         "whole field" % (c[2],)))
    for f in got["fired"]:
        k = "fault:" + f.split("@")[0]
        stats[k] = stats.get(k, 0) + 1
    log = got["log"]
    stats["ticks"] = len(log)
    stats["schedule events"] = len(log)
    if got["pools"] == 0 and any(r[0] == "ok" for r in refs):
        stats["calls without a pool"] = 1
    infl = best = 0
    for e in log:
        infl += {"take": 1, "finish": -1}.get(e[0], 0)
        best = max(best, infl)
    return result(viol, stats,
                  sig([(k["shape"], k["opt"]) for k in plan["calls"]], log)
                  if best > 1 else None,
                  [[g["out"] for g in got["outs"]], log],
                  sample={"calls": plan["calls"], "schedule": log[:20]},
                  trace=log[:400])
