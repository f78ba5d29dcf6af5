"""S06: concurrent callers get the answers they would get alone."""
import numpy as np

from .. import items as I
from .. import util as U
from ..isolate import isolate
from ..seams import LineFaults, Threads, Visits, aim
from ..work import attempt, result, safe, sig
from .s05 import _opts, leaves

LEVEL = "exploration"
RUNS = {"quick": 3000, "thorough": 90000}
RULE = ("one run = 2-3 caller threads, each making one request, most sharing "
        "the same input objects and option dictionaries; the seeded "
        "scheduler releases exactly one thread at a time and preempts it at "
        "seeded source-line ticks or places in the source, or lets others "
        "make whole requests there; every answer is compared with the same "
        "request made alone in its own process; non-trivial when at least "
        "one preemption took place inside a request")
MEASURE = ("distinct (requests, functions in which the preemptions landed) "
           "interleavings")
REAL = ["all TurbuStat code in real threads, numpy, scipy, astropy, "
        "statsmodels"]
STUB = ["the thread scheduler (baton passing at TurbuStat source lines)"]
ASSUMPTIONS = ["preemption happens at TurbuStat source lines; library calls "
               "are atomic", "no preemption inside scipy.odr (its C globals "
               "make two fits crash each other whatever TurbuStat does)", "each thread uses its own statistic object"]
SHRINK_KEEP = ("kind", "spec", "stat", "data", "dist", "func", "shape",
               "seed", "ndim", "container", "dtype", "npseed", "kw", "prog",
               "init", "metric", "data1", "data2", "opt", "n", "items",
               "share", "schedule", "exits", "points", "visits")


KINDS = I.KINDS
LOAD = 60000        # lines run by visitors


def gen(rng, tier, idx):
    f = {"rngfree": True, "nofftw": False}
    which = KINDS[idx % len(KINDS)]
    n = rng.choice([2, 2, 2, 3])
    items = [I.gen(rng, which, f)]
    share = [0]
    for t in range(1, n):
        r = rng.random()
        if r < 0.3:
            items.append(items[0])          # the same request, same inputs
            share.append(0)
        elif r < 0.55:
            items.append(items[0])          # the same request, own inputs
            share.append(t)
        elif r < 0.75:
            items.append(_variant(rng, items[0], which, f))
            share.append(0)
        else:
            items.append(I.gen(rng, rng.choice(KINDS) if rng.random() < .5
                               else which, f))
            share.append(t)
    mode = rng.choice(["few", "round", "dense", "site", "site", "visits",
                       "visits", "visits"])
    points = []
    sched = []
    visits = []
    if mode == "visits":
        visits = [[round(rng.random(), 5), rng.choice([0, 0, 0, 1, 2, 3])]
                  for _ in range(rng.choice([6, 12, 16]))]
        items, share = items[:2], share[:2]
        if rng.random() < 0.65:
            # the same question about other data
            from .s11 import again
            items, share = [items[0], I.gen(rng, which, f)
                            if items[0]["kind"] == "func" else
                            again(rng, items[0], which, f)], [0, 1]
    if mode == "site":
        # each thread is preempted at seeded places in the source
        points = [[rng.randrange(n), round(rng.random(), 5), rng.randrange(4),
                   rng.randrange(n)] for _ in range(rng.randrange(3, 40))]
    elif mode == "few":
        sched = [[round(rng.random(), 5), rng.randrange(n)]
                 for _ in range(rng.randrange(1, 9))]
    elif mode == "round":
        k = rng.randrange(4, 30)
        sched = [[round((i + 1) / (k + 1.), 5), i % n] for i in range(k)]
    else:
        k = rng.randrange(20, 160)
        sched = [[round(rng.random(), 5), rng.randrange(n)] for _ in range(k)]
    return {"items": items, "share": share, "schedule": sched,
            "points": points, "visits": visits,
            "exits": [rng.randrange(n) for _ in range(n)],
            "npseed": rng.randrange(2 ** 31)}


def _variant(rng, item, which, f):
    """Another request on the same data."""
    from .. import catalog as C
    if item["kind"] == "stat":
        return dict(item, prog=C.gen_program(rng, item["spec"], f))
    if item["kind"] == "dist":
        d = I.DISTS[item["dist"]]
        if item["dist"] in ("MVC_Distance", "Cramer_Distance"):
            return item
        return dict(item, kw=d.kw(rng, f, item["data"]),
                    metric=d.metric(rng))
    return item


def alone(item, npseed):
    np.random.seed(npseed)
    inp = I.make(item)
    with LineFaults(record=True) as lc:
        o = attempt(I.run, item, inp)
    return {"out": o, "ticks": lc.count, "sites": lc.sites.list()}


def merged_inputs(plan):
    """Live inputs per thread; shared data objects are the same objects."""
    base = {}
    out = []
    for it, sh in zip(plan["items"], plan["share"]):
        inp = I.make(it)
        if sh in base:
            b_it, b = base[sh]
            if b_it == it:
                inp = b
            else:
                for k in inp:
                    if k in b and k not in ("prog", "kw", "metric", "opt"):
                        inp[k] = b[k]
        else:
            base[sh] = (it, inp)
        out.append(inp)
    return out


def play(plan, ticks, sites):
    total = sum(ticks)
    inps = merged_inputs(plan)
    before = [leaves(i) for i in inps]
    np.random.seed(plan["npseed"])
    sched = [[max(1, int(fr * total)), t] for fr, t in plan["schedule"]]
    funcs = [lambda it=it, inp=inp: I.run(it, inp)
             for it, inp in zip(plan["items"], inps)]
    if plan.get("visits"):
        k = max(2, int(LOAD / max(1, ticks[1])))
        at = [aim({"by": "hot" if occ % 4 == 3 else "site",
                    "frac": fr, "occ": occ}, 0, sites[0])
              for fr, occ in plan["visits"][:k]] if sites[0] else []
        with Visits(at, funcs[1]) as vi:
            first = attempt(funcs[0])
        after = [leaves(i) for i in inps]
        return {"res": [first] + vi.results,
                "trace": vi.trace, "ticks": vi.n,
                "changed": [sorted(k for k in b if a.get(k) != b[k])
                            for b, a in zip(before, after)]}
    local = None
    if plan.get("points"):
        local = [sorted([1 + aim({"by": "hot" if occ % 4 == 3 else "site",
                                  "frac": fr, "occ": occ}, 0,
                                 sites[i]), to]
                        for t, fr, occ, to in plan["points"]
                        if t == i and sites[i])
                 for i in range(len(funcs))]
    th = Threads(funcs, sched, plan.get("exits", ()), local=local)
    res = th.run()
    after = [leaves(i) for i in inps]
    return {"res": res, "trace": th.trace, "ticks": th.ticks,
            "changed": [sorted(k for k in b if a.get(k) != b[k])
                        for b, a in zip(before, after)]}


def execute(plan):
    names = [I.name(i) for i in plan["items"]]
    refs = []
    for i, it in enumerate(plan["items"]):
        same = [r for j, r in enumerate(refs) if plan["items"][j] == it]
        refs.append(same[0] if same else isolate(alone, it, plan["npseed"]))
    total = sum(r["ticks"] for r in refs)
    stats = {"ticks": total}
    for nm in names:
        stats["request:" + nm] = stats.get("request:" + nm, 0) + 1
    r = safe(play, plan, [x["ticks"] for x in refs], [x["sites"] for x in refs])
    if r[0] != "ok":
        return result([("%s:%s" % (names[0], r[0]), "no answer: %s" % (r,))],
                      stats, None, [r[0]])
    got = r[1]
    viol = []
    stats["fault:preemption"] = len(got["trace"])
    if plan.get("visits"):
        more = len(got["res"]) - 1
        names = names[:1] + names[1:] * more
        refs = refs[:1] + refs[1:] * more
        stats["fault:visit"] = more
    for i, (nm, ref, g) in enumerate(zip(names, refs, got["res"])):
        ro = ref["out"]
        if ro[0] != g[0]:
            viol.append(("%s:outcome" % nm,
                         "request %d (%s): %s with other callers, %s alone"
                         % (i, nm, _o(g), _o(ro))))
        elif ro[0] == "ok":
            for k, m in U.diff(ro[1], g[1]):
                viol.append(("%s:%s" % (nm, k), "request %d: %s.%s %s "
                             "(alone first)" % (i, nm, k, m)))
    for nm, ch in zip(names, got["changed"]):
        for k in ch:
            viol.append(("%s:input %s" % (nm, k), "%s: the shared input %s "
                         "was changed" % (nm, k)))
    where = [(a, b, fn) for _, a, b, fn, _ in got["trace"]]
    return result(viol, stats, sig(names, [sorted(map(str, _opts(i))) for i
                                           in plan["items"]], where)
                  if where else None,
                  [[g[:2] if g[0] == "raise" else g for g in got["res"]],
                   got["trace"]],
                  sample={"requests": [I.brief(i) for i in plan["items"]][:1],
                          "names": names, "shared": plan["share"],
                          "preemptions": got["trace"][:10]},
                  trace=got["trace"][:400])


def _o(o):
    return "%s: %s" % (o[1], o[2][:80]) if o[0] == "raise" else "completed"
