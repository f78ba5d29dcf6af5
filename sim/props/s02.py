"""S02: a failing worker or pool surfaces as an error, never as a wrong or
partial cube, and never breaks the next synthesis."""
import numpy as np

from .. import items as I
from .. import pool as P
from .. import util as U
from ..isolate import isolate
from ..work import result, safe, sig
from .s01 import gen_call, gen_choices, serial

LEVEL = "fault_enumeration"
RUNS = {"quick": 1500, "thorough": 60000}
RULE = ("one run = a parallel cube synthesis in which the plan makes a task "
        "raise in its worker (between or inside its library calls), kills a worker, refuses to fork one, breaks "
        "the reply of a chunk or interrupts the caller, under a seeded "
        "schedule, followed by a fault-free synthesis; an answer must be "
        "the serial cube, otherwise the call must raise; the follow-up must "
        "be the serial cube and no worker may be left behind; non-trivial "
        "when a fault fired")
MEASURE = "distinct (request, faults fired, schedule) runs"
REAL = ["make_ppv, the compiled spectrum kernel, pickling, forked workers"]
STUB = ["the pool's scheduler", "worker death, fork failure, reply failure"]
ASSUMPTIONS = ["a killed worker of multiprocessing.Pool loses its task for "
               "good; a killed worker of a ProcessPoolExecutor breaks the "
               "executor (CPython's documented behaviour)"]
SHRINK_KEEP = ("shape", "seed", "opt", "calls", "kw", "threads", "sched",
               "call", "after")


def gen(rng, tier, idx):
    call = gen_call(rng)
    los = call["opt"]["los_axis"]
    nt = 1
    for i, n in enumerate(call["shape"]):
        if i != los:
            nt *= n
    faults = []
    for _ in range(rng.choice([1, 1, 1, 2])):
        kind = rng.choice(["raise", "raise", "inner", "inner", "inner",
                           "kill", "spawn",
                           "reply", "interrupt"])
        f = {"kind": kind}
        if kind in ("raise", "inner"):
            f["at"] = rng.choice([0, nt - 1, rng.randrange(nt),
                                  rng.randrange(nt)])
            f["exc"] = rng.choice(sorted(P.EXC))
            if kind == "inner":
                f["k"] = rng.choice([0, rng.randrange(12),
                                     rng.randrange(12)])
        elif kind == "spawn":
            f["at"] = rng.randrange(call["opt"]["threads"])
        elif kind == "interrupt":
            f["at"] = rng.choice([0, 0, 0, 1, 2])
        else:
            f["at"] = rng.randrange(max(1, min(
                nt, call["opt"]["threads"] * 4)))
        faults.append(f)
    after = call if rng.random() < 0.5 else gen_call(rng)
    if rng.random() < 0.3:
        after = dict(after, opt=dict(after["opt"], threads=1))
    return {"call": call, "after": after, "npseed": rng.randrange(2 ** 31),
            "sched": {"choices": gen_choices(rng), "faults": faults}}


def attempt(kw):
    try:
        return ("ok", U.canon(I.call_ppv(I.make_ppv_inputs(kw))))
    except Exception as e:
        return ("raise", type(e).__name__, str(e)[:120])
    except KeyboardInterrupt:
        return ("raise", "KeyboardInterrupt", "")
    except P.SimHang as e:
        return ("hang", str(e))


def left(W):
    return sum(w.alive for p in W.pools for w in p.workers)


def play(plan):
    np.random.seed(plan["npseed"])
    W = P.install(plan["sched"])
    o1 = attempt(plan["call"])
    l1 = left(W)
    fired = list(W.fired)
    W.faults = []
    o2 = attempt(plan["after"])
    return {"o1": o1, "o2": o2, "left": [l1, left(W)], "fired": fired,
            "log": W.log}


def execute(plan):
    ref1 = isolate(serial, plan["call"])
    ref2 = isolate(serial, plan["after"])
    stats = {}
    r = safe(play, plan)
    if r[0] != "ok":
        return result([("make_ppv:%s" % r[0], "no answer: %s" % (r,))],
                      stats, None, [r[0]])
    got = r[1]
    viol = []
    fired = got["fired"]
    kinds = sorted(set(f.split("@")[0] for f in fired))
    for f in fired:
        k = "fault:" + f.split("@")[0]
        stats[k] = stats.get(k, 0) + 1
    o1 = got["o1"]
    stats["outcome:" + o1[0]] = 1
    th = plan["call"]["opt"]["threads"]
    what = "+".join(kinds) or "no fault"
    if o1[0] == "hang":
        viol.append(("make_ppv:hang after " + ("kill" if "kill" in kinds
                                               else what), "with %d workers the "
                     "call waits forever (%s)" % (th, fired)))
    elif o1[0] == "ok":
        if ref1[0] != "ok" or not U.same(ref1[1], o1[1], 1e-12):
            viol.append(("make_ppv:wrong answer after " + what,
                         "with %d workers and %s the call returned %s instead"
                         " of raising or returning %s"
                         % (th, fired, U.short(o1[1]), U.short(ref1[1]))))
        elif set(kinds) & {"raise", "inner", "reply"}:
            stats["fault absorbed"] = 1
    elif not fired and ref1[0] == "ok":
        viol.append(("make_ppv:outcome", "raised %s without any fault"
                     % (o1[1:],)))
    o2 = got["o2"]
    if o2[0] != ref2[0] or (o2[0] == "ok" and
                            not U.same(ref2[1], o2[1], 1e-12)):
        viol.append(("make_ppv:next call after " + what, "the synthesis "
                     "after the failed one: %s, alone %s"
                     % (o2[:2] if o2[0] != "ok" else U.short(o2[1]),
                        ref2[:2] if ref2[0] != "ok" else U.short(ref2[1]))))
    if any(got["left"]) and o1[0] != "hang":
        viol.append(("make_ppv:workers left after " + what,
                     "%s workers still running after the call returned"
                     % got["left"]))
    stats["ticks"] = len(got["log"])
    return result(viol, stats, sig(plan["call"]["shape"],
                                   plan["call"]["opt"], fired,
                                   got["log"]) if fired else None,
                  [got["o1"][:2], got["o2"][:2], got["log"], fired],
                  sample={"call": plan["call"], "faults": fired,
                          "schedule": got["log"][:15]},
                  trace=got["log"][:300])
