"""S13: moment maps saved to FITS files load back as they were; storage
trouble is reported and never turns into wrong maps."""
import contextlib
import errno
import io
import os

import numpy as np

from .. import util as U
from ..data import Q, decode, gen_data, raw_array, make_header
from ..disk import Disk
from ..isolate import isolate
from ..work import attempt, result, safe, scratch, sig

LEVEL = "fault_enumeration"
RUNS = {"quick": 600, "thorough": 40000}
RULE = ("one run = a cube (object or file), 1-3 rounds of masking, moments "
        "and errors, each saved under a seeded prefix, one save with a "
        "storage fault (full disk or death at byte n, failing or fatal open/"
        "remove, death or interrupt at a source line) or none, then 0-2 "
        "files truncated or deleted, then loading in a pristine process by "
        "every documented way of naming the files, with further saves while "
        "the loaded maps are in use and files that cannot be opened; non-trivial when a fault or damage took "
        "effect or a complete set was compared")
MEASURE = "distinct (history, fault, place, damage, way of loading) runs"
REAL = ["turbustat.moments, MVC, spectral-cube, astropy.io.fits, the "
        "filesystem, RLIMIT_FSIZE"]
STUB = ["the failing storage operation", "process death (_exit, SIGXFSZ)"]
ASSUMPTIONS = ["what a dead process has written survives (no power loss)",
               "bits inside a file of the right length are not flipped"]
SHRINK_KEEP = ("data", "shape", "seed", "ndim", "dtype", "container",
               "rounds", "mask", "scale", "prefix", "overwrite", "kind", "n",
               "frac", "off", "how", "load", "method", "npseed", "slope")

LABELS = ("moment0", "centroid", "linewidth")
ATTRS = (("moment0", "moment0_err"), ("moment1", "moment1_err"),
         ("linewidth", "linewidth_err"))


def gen_fault(rng):
    k = rng.choice(["full", "full", "cut", "cut", "event", "event", "line",
                    "line"])
    f = {"kind": k}
    if k in ("full", "cut"):
        f["frac"] = round(rng.random(), 4)
        f["off"] = rng.choice([0, -1, 1])
    elif k == "event":
        f["n"] = rng.randrange(6)
        f["crash"] = rng.random() < .4
        f["errno"] = rng.choice([errno.ENOSPC, errno.EIO, errno.EACCES])
    else:
        f["frac"] = round(rng.random(), 4)
        f["how"] = rng.choice(["crash", "interrupt", "memory"])
    return f


def gen(rng, tier, idx):
    d = gen_data(rng, 3, shape=rng.choice([(8, 9, 10), (10, 12, 12),
                                           (7, 24, 20)]),
                 nans=rng.choice(["none", "edge", "scatter"]),
                 dtypes=["<f8", "<f8", ">f4", "<f4"])
    rounds = []
    for i in range(rng.choice([1, 2, 2, 3])):
        rounds.append({
            "mask": rng.choice([None, 0.2, 0.4, 0.7]),
            "scale": rng.choice([None, Q(0.1, "K"), Q(0.02, "K")]),
            "prefix": rng.choice([None, "m", "m", "sub/x", "r.1"]),
            "overwrite": rng.random() < .8, "default": rng.random() < .5})
    p = {"data": d, "source": rng.choice(["file", "file", "cube"]),
         "name": rng.choice(["c.fits", "c.fits", "c.v1.fits"]),
         "method": rng.choice(["slice", "cube"]),
         "rounds": rounds, "load": rng.choice(["name", "cube", "explicit",
                                               "explicit"]),
         "resave": rng.random() < .3,
         "rewrite": rng.random() < .4, "npseed": rng.randrange(2 ** 31),
         "damage": []}
    if rng.random() < .6:
        p["fault"] = gen_fault(rng)
    elif rng.random() < .4:
        p["read"] = {"kind": "read", "n": rng.randrange(4),
                     "errno": rng.choice([errno.EIO, errno.EACCES,
                                          errno.EMFILE])}
    if rng.random() < .5:
        p["damage"] = [{"file": rng.randrange(3),
                        "kind": rng.choice(["cut", "cut", "cut", "empty",
                                            "delete"]),
                        "frac": rng.choice([round(rng.random(), 4),
                                            round(rng.random(), 4), 0.999])}
                       for _ in range(rng.choice([1, 1, 2]))]
    return p


def the_cube(plan, d):
    from astropy.io import fits
    from spectral_cube import SpectralCube
    hdu = fits.PrimaryHDU(raw_array(plan["data"]), make_header(plan["data"]))
    if plan["source"] == "file":
        fn = os.path.join(d, plan["name"])
        if not os.path.exists(fn):
            hdu.writeto(fn)
        return fn
    return SpectralCube.read(hdu)


def prefix_of(plan, d, rnd):
    """Where the maps of this round go -> (save_name argument, base path)"""
    if rnd["prefix"] is None:
        if plan["source"] == "file":
            return None, os.path.join(d, plan["name"][:-5])
        return None, os.path.join(d, "default")
    base = os.path.join(d, rnd["prefix"])
    return base, base


def values(m):
    out = {}
    for lab, names in zip(LABELS, ATTRS):
        out[lab] = [None if getattr(m, n) is None else
                    U.canon(np.array(getattr(getattr(m, n), "value",
                                             getattr(m, n)),
                                     dtype=float)) for n in names]
    return out


def play(plan, d, fault):
    """All rounds; the last save meets the fault."""
    from turbustat.moments.make_moments import Moments
    os.chdir(d)
    os.makedirs(os.path.join(d, "sub"))
    np.random.seed(plan["npseed"])
    cube = the_cube(plan, d)
    m = Moments(cube, moment_method=plan["method"])
    log = []
    dk = None

    def compute(rnd):
        if rnd["mask"] is not None:
            m.apply_mask(m.cube > rnd["mask"] * m.cube.unit)
        m.scale = decode(rnd["scale"])
        m.make_moments()
        m.make_moment_errors()
        return values(m)
    for i, rnd in enumerate(plan["rounds"]):
        last = i == len(plan["rounds"]) - 1
        c = attempt(compute, rnd)
        if c[0] == "raise":
            return {"prep": c}
        before = c[1]
        arg, base = prefix_of(plan, d, rnd)
        if arg is None:
            m.save_name = None if plan["source"] == "cube" else base
        if last:
            with open(os.path.join(d, "..", os.path.basename(d) + ".new"),
                      "wb") as f:
                import pickle
                pickle.dump((log, before), f)
        dk = Disk(d, fault if last else None)
        kw = {"overwrite": True} if rnd["overwrite"] else \
            {} if rnd.get("default") else {"overwrite": False}
        o = attempt(dk.call, m.to_fits, save_name=arg, **kw)
        log.append((base, rnd["overwrite"], o[0] if o[0] == "ok" else o,
                    before, values(m)))
    return {"log": log, "fired": dk.fired, "lines": dk.lines,
            "size": max([os.path.getsize(base + "_" + x + ".fits")
                         for x in LABELS
                         if os.path.exists(base + "_" + x + ".fits")] or
                        [0]), "events": dk.log}


def load(plan, d):
    from turbustat.moments.make_moments import Moments
    os.chdir(d)
    _, base = prefix_of(plan, d, plan["rounds"][-1])
    cube = the_cube(plan, d)
    kw = {}
    how = plan["load"]
    root, name = os.path.split(base)
    if how == "name" and (plan["source"] != "file" or
                          plan["rounds"][-1]["prefix"] is not None):
        how = "explicit"
    if how == "cube" and plan["source"] == "file":
        how = "explicit"
    if how == "name":
        kw["moments_path"] = root
    elif how == "cube":
        kw["moments_prefix"] = name
        kw["moments_path"] = root
    else:
        for x in LABELS:
            kw[x] = base + "_" + x + ".fits"
        if plan["source"] == "cube":
            kw["moments_prefix"] = "nothing"
    if plan["rounds"][-1]["scale"] is not None:
        kw["scale"] = decode(plan["rounds"][-1]["scale"])
    with contextlib.redirect_stdout(io.StringIO()):
        dk = Disk(d, plan.get("read"))
        o = attempt(dk.call, Moments.from_fits, cube, **kw)
    if o[0] == "raise":
        return {"out": o, "how": how, "read": dk.fired}
    m = o[1]
    r = {"out": ("ok",), "how": how, "read": dk.fired, "vals": values(m)}
    full = all(v is not None for lab in LABELS for v in r["vals"][lab])
    if plan["rewrite"]:
        # the files are written again while the loaded maps are in use
        def again():
            o = Moments(cube, moment_method=plan["method"])
            o.cube = o.cube * 3.0
            o.make_moments()
            o.make_moment_errors()
            o.to_fits(save_name=base, overwrite=True)
        r["rewrite"] = attempt(again)[0]
        r["after"] = values(m)
    if plan["resave"] and full:
        b2 = os.path.join(d, "again")

        def resave():
            m.to_fits(save_name=b2)
            return values(Moments.from_fits(cube, moments_prefix="again",
                                            moments_path=d, **dict(
                (x, b2 + "_" + x + ".fits") for x in LABELS)))
        r["again"] = attempt(resave)
    if full:
        r["mvc"] = attempt(mvc, m.moment0, m.moment1, m.linewidth,
                           make_header(plan["data"]))
    return r


def mvc(m0, m1, lw, hdr):
    from turbustat.statistics import MVC
    import astropy.units as u
    from astropy.io import fits
    h = hdr.copy()
    for k in list(h):
        if k.endswith("3") and k != "":
            del h[k]
    h["NAXIS"] = 2
    arrs = [np.nan_to_num(np.array(x, dtype=float)) for x in (m1, m0, lw)]
    s = MVC(arrs[0], arrs[1], arrs[2], h)
    s.compute_pspec()
    s.compute_radial_pspec()
    return U.canon(s.ps1D)


def live_mvc(vals, hdr):
    return attempt(mvc, *([vals[x][0] for x in LABELS] + [hdr]))


def execute(plan):
    stats = {"source:" + plan["source"]: 1}
    fault = plan.get("fault")
    place = None
    if fault is not None:
        with scratch() as d:
            dd = os.path.join(d, "w")
            os.mkdir(dd)
            pr = safe(play, plan, dd, None)
        if pr[0] != "ok":
            return result([("play:" + pr[0], str(pr))], stats, None, ["play"])
        if "prep" in pr[1]:
            stats["prep failed"] = 1
            return result([], stats, None, ["prep"])
        place = dict(fault)
        if fault["kind"] in ("full", "cut"):
            size = max(pr[1]["size"], 1)
            place["n"] = max(0, min(size - 1, int(fault["frac"] * size) +
                                    fault.get("off", 0)))
        elif fault["kind"] == "line":
            n = max(pr[1]["lines"], 1)
            place["n"] = 1 + min(n - 1, int(fault["frac"] * n))
    viol = []
    import pickle
    with scratch() as d:
        dd = os.path.join(d, "w")
        os.mkdir(dd)
        try:
            r = isolate(play, plan, dd, place, died_ok=True)
        except Exception as e:
            return result([("save:hang", str(e))], stats, None, ["hang"])
        died = r[0] == "died"
        if not died and "prep" in r[1]:
            stats["prep failed"] = 1
            return result([], stats, None, ["prep"])
        with open(os.path.join(d, "w.new"), "rb") as f:
            log, newest = pickle.load(f)
        _, base = prefix_of(plan, dd, plan["rounds"][-1])
        base = os.path.realpath(base)
        # the model: what each file of this prefix may hold
        prev = None
        for b, ow, o, before, after in log:
            if U.digest(before) != U.digest(after):
                viol.append(("save changed the maps", "to_fits changed the "
                             "live maps"))
            exists = prev_of(log, b, (b, ow, o, before, after))
            if o == "ok" and os.path.realpath(b) == base:
                prev = before
            if o != "ok" and (ow or not exists):
                viol.append(("save failed", "to_fits raised %s: %s without a "
                             "fault" % (o[1], o[2])))
            if o == "ok" and not ow and exists:
                viol.append(("overwritten", "to_fits without overwrite "
                             "replaced existing files"))
        ow = plan["rounds"][-1]["overwrite"]
        fired = False
        if died:
            outcome = "died"
            fired = True
        else:
            lastlog = r[1]["log"][-1]
            outcome = lastlog[2] if lastlog[2] == "ok" else "raise"
            fired = bool(r[1]["fired"]) or (
                fault is not None and fault["kind"] == "full" and
                outcome == "raise")
            if U.digest(lastlog[3]) != U.digest(lastlog[4]):
                viol.append(("save changed the maps", "a failed to_fits "
                             "changed the live maps"))
        if fired:
            stats["fault:" + fault["kind"]] = 1
        allowed = {}
        for x in LABELS:
            a = []
            if outcome == "ok":
                a = ["new"]
            elif not ow and prev is not None:
                a = ["old"]
            else:
                a = ["new", "old", "none", "error"]
            allowed[x] = a
        if outcome == "raise" and not fired and (ow or prev is None):
            viol.append(("save failed", "to_fits raised %s without a fault"
                         % (lastlog[2],)))
        damaged = []
        for dm in plan["damage"]:
            x = LABELS[dm["file"]]
            fn = base + "_" + x + ".fits"
            if not os.path.exists(fn):
                continue
            n = os.path.getsize(fn)
            if dm["kind"] == "delete":
                os.remove(fn)
                allowed[x] = ["none"]
            else:
                k = 0 if dm["kind"] == "empty" else int(n * dm["frac"])
                with open(fn, "r+b") as f:
                    f.truncate(k)
                allowed[x] = allowed[x] + ["none", "error"]
                damaged.append(x)
            stats["damage:" + dm["kind"]] = 1
        got = safe(load, plan, dd)
        if got[0] != "ok":
            return result(viol + [("load:%s" % got[0], str(got)[:300])],
                          stats, None, [got[0]])
        got = got[1]
        seen = []
        if got["read"]:
            stats["fault:read"] = 1
            allowed = dict((x, a + ["none", "error"])
                           for x, a in allowed.items())
        if got["out"][0] == "raise":
            seen = ["error"]
            if not any("error" in allowed[x] for x in LABELS):
                viol.append(("load failed", "complete maps do not load (%s): "
                             "%s: %s" % (got["how"], got["out"][1],
                                         got["out"][2])))
        else:
            for x in LABELS:
                v = got["vals"][x]
                st = state(v, newest[x], prev and prev[x])
                seen.append(st)
                if st == "same":
                    st = "new" if "new" in allowed[x] else "old"
                if st not in allowed[x]:
                    viol.append(("%s:%s" % (x, st), "after %s and damage %s "
                                 "loading (%s) gives %s, expected %s" % (
                                     place and (outcome, place),
                                     plan["damage"], got["how"], st,
                                     " or ".join(allowed[x]))))
            if "after" in got and not same(got["vals"], got["after"]):
                viol.append(("loaded maps changed", "saving new maps under "
                             "the same prefix changed the loaded ones"))
            if "again" in got and (got["again"][0] == "raise" or not same(
                    got["vals"], got["again"][1])):
                viol.append(("resave", "loaded maps saved again: %s" % (
                    got["again"][1:] if got["again"][0] == "raise" else
                    "different maps",)))
            if "mvc" in got and all(s in ("new", "same") for s in seen):
                want = live_mvc(newest, make_header(plan["data"]))
                if want[0] != got["mvc"][0] or (
                        want[0] == "ok" and
                        not U.same(want[1], got["mvc"][1])):
                    viol.append(("mvc", "MVC of the loaded maps differs: %s"
                                 % (got["mvc"][:2],)))
                stats["mvc compared"] = 1
    stats["died"] = int(died)
    nontrivial = fired or bool(plan["damage"]) or outcome == "ok"
    return result(viol, stats, sig(plan["source"], plan["load"],
                                   len(plan["rounds"]), place, plan["damage"],
                                   [(r_["prefix"], r_["overwrite"])
                                    for r_ in plan["rounds"]])
                  if nontrivial else None, [outcome, seen],
                  sample={"rounds": plan["rounds"], "fault": place,
                          "damage": plan["damage"], "outcome": outcome,
                          "loaded": seen, "how": got["how"]},
                  trace={"fault": place, "outcome": outcome, "loaded": seen})


def prev_of(log, b, entry):
    """Did files of this prefix exist before this save?"""
    for e in log:
        if e is entry or (e[0] == b and e[3] is entry[3]):
            return False
        if e[0] == b and e[2] == "ok":
            return True
    return False


def same(a, b):
    return all(U.same(a[x][i], b[x][i]) if a[x][i] is not None and
               b[x][i] is not None else a[x][i] is b[x][i]
               for x in LABELS for i in (0, 1))


def state(v, new, old):
    if v[0] is None and v[1] is None:
        return "none"
    if v[0] is None or v[1] is None:
        return "half"
    n = U.same(v[0], new[0]) and U.same(v[1], new[1])
    if old is not None and U.same(v[0], old[0]) and U.same(v[1], old[1]):
        return "same" if n else "old"
    return "new" if n else "wrong maps"
