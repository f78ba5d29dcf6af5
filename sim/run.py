"""Driver: seeded search, minimisation, replay and evidence.

    python -m sim.run S07 --tier quick
    python -m sim.run --replay FILE
    python -m sim.run S07 --determinism 200
"""
import argparse
import collections
import copy
import fcntl
import hashlib
import importlib
import json
import os
import pickle
import select
import signal
import struct
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
EVID = os.environ.get("SIM_EVIDENCE", os.path.join(HERE, "evidence"))
REPLAYS = os.environ.get("SIM_REPLAYS", os.path.join(HERE, "replays"))

SURVEY = bool(os.environ.get("SIM_SURVEY"))
WORKERS = int(os.environ.get("SIM_WORKERS", "8"))


def build():
    if REPO != "/repo":
        return
    with open(os.path.join(tempfile.gettempdir(), "turbusim.lock"),
              "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        p = subprocess.run(["bash", "/opt/vp/build.sh", "--ext-only"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            sys.stdout.write(p.stdout.decode("utf8", "replace"))
            raise SystemExit("the tree does not build")


def load(prop, imports=True):
    sys.path.insert(0, REPO)
    mod = importlib.import_module("sim.props." + prop.lower())
    if imports:
        from . import warm
        warm.import_all(getattr(mod, "BLOCK", ()))
    return mod


# ------------------------------------------------------------------ one run
def make_plan(mod, prop, seed, idx, tier):
    from .data import rng_of
    rng = rng_of(prop, seed, idx)
    plan = mod.gen(rng, tier, idx)
    # plans are JSON: what is replayed is exactly what was searched
    return json.loads(json.dumps(plan))


def run_plan(mod, plan):
    """-> dict(violations=[(key, msg)], stats={}, sig=str, digest=str)"""
    return mod.execute(plan)


# ----------------------------------------------------------------- shrinking
def _paths(node, path=()):
    """All removable positions of a JSON plan."""
    if isinstance(node, dict):
        for k in sorted(node):
            yield path + (k,), "key"
            for p in _paths(node[k], path + (k,)):
                yield p
    elif isinstance(node, list):
        for i in range(len(node)):
            yield path + (i,), "item"
            for p in _paths(node[i], path + (i,)):
                yield p


def _remove(plan, path):
    q = copy.deepcopy(plan)
    node = q
    for k in path[:-1]:
        node = node[k]
    try:
        del node[path[-1]]
    except (KeyError, IndexError):
        return None
    return q


def shrink(mod, plan, keys, budget_s=45., max_runs=250):
    t0 = time.time()
    runs = 0

    def bad(p):
        try:
            out = run_plan(mod, p)
        except Exception:
            return False
        return any(k in keys for k, _ in out["violations"])

    keep = getattr(mod, "SHRINK_KEEP", ())
    changed = True
    while changed:
        changed = False
        # big pieces first: shallow paths before deep ones
        paths = sorted(_paths(plan), key=lambda pk: (len(pk[0]),))
        for path, kind in reversed(paths) if changed else paths:
            if kind == "key" and path[-1] in keep:
                continue
            if any(str(k).startswith("__") for k in path):
                continue
            if time.time() - t0 > budget_s or runs > max_runs:
                return plan, runs
            q = _remove(plan, path)
            if q is None:
                continue
            runs += 1
            if bad(q):
                plan = q
                changed = True
                break
    return plan, runs


# --------------------------------------------------------------- known items
def known(prop):
    fn = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(fn):
        return []
    return [k for k in json.load(open(fn))
            if k.get("property") == prop and k.get("status") == "known"]


def match_known(kn, plan, key):
    for k in kn:
        if k["key"] == key and all(
                _has(plan, cond) for cond in k.get("plan_contains", [])):
            return k
    return None


def _has(plan, cond):
    return json.dumps(cond, sort_keys=True) in json.dumps(plan,
                                                          sort_keys=True)


# ------------------------------------------------------------------- workers
def worker(mod, prop, seed, tier, w, nw, nruns, deadline, wfd):
    signal.signal(signal.SIGINT, signal.SIG_DFL)

    def send(obj):
        d = pickle.dumps(obj, protocol=4)
        d = struct.pack("<Q", len(d)) + d
        while d:
            n = os.write(wfd, d[:65536])
            d = d[n:]
    try:
        for idx in range(w, nruns, nw):
            if time.monotonic() > deadline:
                send(("late", idx, None, None))
                break
            plan = make_plan(mod, prop, seed, idx, tier)
            try:
                out = run_plan(mod, plan)
                if idx % 41 == 0:
                    again = run_plan(mod, plan)
                    out["replayed"] = 1
                    out["nondet"] = int(again["digest"] != out["digest"])
                if out["violations"] and not SURVEY:
                    out = confirm(mod, plan, out)
                send(("run", idx, plan if out["violations"] else None, out))
            except Exception:
                send(("err", idx, plan, traceback.format_exc()))
    except BaseException:
        send(("err", -1, None, traceback.format_exc()))
    finally:
        os._exit(0)


def confirm(mod, plan, out):
    """Only what happens again is a violation; the rest is counted."""
    seen = set()
    want = set(k for k, _ in out["violations"])
    for _ in range(3):
        if seen >= want:
            break
        seen |= set(k for k, _ in run_plan(mod, plan)["violations"])
    once = [(k, m) for k, m in out["violations"] if k not in seen]
    out["violations"] = [(k, m) for k, m in out["violations"] if k in seen]
    if once:
        out["once"] = [list(x) for x in once]
    return out


def search(mod, prop, seed, tier, nruns, cap_s, nw):
    t0 = time.monotonic()
    deadline = t0 + cap_s
    pipes = {}
    pids = []
    for w in range(nw):
        r, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for rr in pipes:
                os.close(rr)
            worker(mod, prop, seed, tier, w, nw, nruns, deadline, wfd)
        os.close(wfd)
        pipes[r] = bytearray()
        pids.append(pid)
    stats = collections.Counter()
    sigs = set()
    viols = []
    errs = []
    samples = []
    ndidx = []
    once = []
    done = late = replayed = nondet = 0
    kn = known(prop)
    knhits = collections.OrderedDict()
    stop_at = None
    while pipes:
        rl, _, _ = select.select(list(pipes), [], [], 1.0)
        for r in rl:
            chunk = os.read(r, 1 << 20)
            if not chunk:
                os.close(r)
                del pipes[r]
                continue
            buf = pipes[r]
            buf += chunk
            while len(buf) >= 8:
                n = struct.unpack("<Q", bytes(buf[:8]))[0]
                if len(buf) < 8 + n:
                    break
                kind, idx, plan, out = pickle.loads(bytes(buf[8:8 + n]))
                del buf[:8 + n]
                if kind == "late":
                    late += 1
                    continue
                if kind == "err":
                    errs.append((idx, plan, out))
                    continue
                done += 1
                stats.update(out.get("stats", {}))
                sigs.add(out.get("sig"))
                replayed += out.get("replayed", 0)
                nondet += out.get("nondet", 0)
                if out.get("nondet"):
                    ndidx.append(idx)
                once.extend((idx, k, m) for k, m in out.get("once", []))
                if len(samples) < 5 and out.get("sample"):
                    samples.append({"index": idx, "run": out["sample"]})
                for key, msg in out["violations"]:
                    k = match_known(kn, plan, key)
                    if k is not None:
                        knhits.setdefault(k["id"], k)
                        stats["known finding reproduced"] += 1
                    else:
                        viols.append((idx, plan, key, msg))
                        if stop_at is None and not SURVEY:
                            stop_at = time.monotonic() + 3
        if stop_at is not None and time.monotonic() > stop_at:
            break
    for p in pids:
        try:
            os.kill(p, signal.SIGKILL)
        except OSError:
            pass
        os.waitpid(p, 0)
    for r in pipes:
        os.close(r)
    return dict(stats=stats, sigs=sigs, viols=viols, errs=errs, done=done,
                late=late, wall=time.monotonic() - t0, samples=samples,
                knhits=knhits, replayed=replayed, nondet=nondet, ndidx=ndidx,
                once=once)


def write_replay(prop, seed, idx, plan, key, msg, trace):
    os.makedirs(REPLAYS, exist_ok=True)
    body = {"property": prop, "seed": seed, "index": idx, "key": key,
            "message": msg, "plan": plan, "trace": trace}
    h = hashlib.sha1(json.dumps([plan, key], sort_keys=True).encode()
                     ).hexdigest()[:10]
    fn = os.path.join(REPLAYS, "%s-%s.json" % (prop, h))
    with open(fn, "w") as f:
        json.dump(body, f, indent=1, sort_keys=True)
    return fn


def report(mod, prop, seed, viols):
    """Confirm, minimise and print.  -> number of confirmed violations"""
    bykey = collections.OrderedDict()
    for v in sorted(viols, key=lambda v: v[0]):
        bykey.setdefault(v[2], v)
    n = 0
    unconfirmed = 0
    for key, (idx, plan, key, msg) in list(bykey.items())[:3]:
        again = None
        for _ in range(4):
            try:
                out = run_plan(mod, plan)
            except Exception:
                continue
            again = [m for k, m in out["violations"] if k == key]
            if again:
                break
        if not again:
            unconfirmed += 1
            print("UNCONFIRMED (did not reproduce on replay) %s seed=%s "
                  "index=%d: %s" % (prop, seed, idx, msg))
            continue
        small, runs = shrink(mod, plan, {key}, budget_s=40. if n == 0 else 8.)
        out = run_plan(mod, small)
        m2 = [m for k, m in out["violations"] if k == key] or [msg]
        fn = write_replay(prop, seed, idx, small, key, m2[0],
                          out.get("trace"))
        print("  %s [seed=%s index=%d, minimised in %d runs]: %s"
              % (key, seed, idx, runs, m2[0]))
        print("VIOLATION property=%s replay=%s" % (prop, fn), flush=True)
        n += 1
    return n, unconfirmed


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--cap", type=float)
    ap.add_argument("--replay")
    ap.add_argument("--determinism", type=int)
    ap.add_argument("--index", type=int)
    ap.add_argument("--no-build", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    if a.replay:
        rec = json.load(open(a.replay))
        if not a.no_build:
            build()
        mod = load(rec["property"])
        out = run_plan(mod, rec["plan"])
        for k, m in out["violations"]:
            print("  %s: %s" % (k, m))
        if any(k == rec["key"] for k, _ in out["violations"]):
            print("VIOLATION property=%s replay=%s" % (rec["property"],
                                                       a.replay))
            return 1
        print("not reproduced")
        return 0
    if not a.no_build:
        build()
    mod = load(a.prop)
    if a.index is not None:
        plan = make_plan(mod, a.prop, a.seed, a.index, a.tier)
        print(json.dumps(plan, indent=1))
        out = run_plan(mod, plan)
        print(json.dumps(out, indent=1, default=str))
        return 1 if out["violations"] else 0
    if a.determinism:
        return determinism(mod, a)
    nruns = a.runs or mod.RUNS[a.tier]
    cap = a.cap or (240. if a.tier == "quick" else 6 * 3600.)
    res = search(mod, a.prop, a.seed, a.tier, nruns, cap, WORKERS)
    for k in res["knhits"].values():
        print("KNOWN-FINDING: property=%s %s" % (a.prop, k["what"]))
    nv = unconf = 0
    if SURVEY:
        c = collections.OrderedDict()
        for idx, plan, key, msg in sorted(res["viols"], key=lambda v: v[0]):
            c.setdefault(key, []).append((idx, msg))
        for key in sorted(c):
            print("%-45s x%-4d first index %d: %s" % (
                key, len(c[key]), c[key][0][0], c[key][0][1][:160]))
    elif res["viols"]:
        nv, unconf = report(mod, a.prop, a.seed, res["viols"])
    for idx, k, m in res["once"][:3]:
        print("UNCONFIRMED (did not reproduce on replay) %s seed=%s "
              "index=%d: %s" % (a.prop, a.seed, idx, m))
    unconf += len(res["once"])
    for idx, plan, tb in res["errs"][:3]:
        print("HARNESS-ERROR %s index=%d\n%s" % (a.prop, idx, tb))
    ev = evidence(mod, a, res, nv, unconf, time.time() - t0)
    print("%s %s: %d runs (%d distinct), %d violations, %d known, %d harness "
          "errors, %.0f s" % (a.prop, a.tier, res["done"], len(res["sigs"]),
                              nv, len(res["knhits"]), len(res["errs"]),
                              time.time() - t0))
    if nv:
        return 1
    if res["errs"]:
        return 2
    if res["done"] < max(20, nruns // 50):
        print("too few runs completed")
        return 2
    return 0


def determinism(mod, a):
    """Digest of every run, to diff across processes and hash seeds."""
    h = hashlib.sha1()
    for i in range(a.determinism):
        plan = make_plan(mod, a.prop, a.seed, i, a.tier)
        out = run_plan(mod, plan)
        h.update(out["digest"].encode())
        print(i, out["digest"])
    print("ALL", h.hexdigest())
    return 0


def evidence(mod, a, res, nv, unconf, wall):
    os.makedirs(EVID, exist_ok=True)
    rate = res["done"] / max(res["wall"], 1e-6) * 3600.
    st = dict(res["stats"])
    faults = dict((k[6:], v) for k, v in st.items()
                  if k.startswith("fault:"))
    cov = {
        "evaluations": res["done"],
        "distinct_nontrivial": len([s for s in res["sigs"] if s]),
        "rule": mod.RULE,
        "samples": res["samples"],
        "runs_per_hour": round(rate),
        "seeds_per_run": 1,
        "verif_seed": a.seed,
        "simulated_time": {
            "unit": "logical ticks (executed TurbuStat lines or library "
                    "calls); the code has no clock or timer",
            "ticks": st.get("ticks", 0)},
        "faults_injected": faults,
        "counters": dict((k, v) for k, v in sorted(st.items())
                         if not k.startswith("fault:")),
        "distinct_measure": mod.MEASURE,
        "real_components": mod.REAL,
        "stubbed_components": mod.STUB,
        "determinism_replays": res["replayed"],
        "determinism_mismatches": res["nondet"],
        "harness_errors": len(res["errs"]),
        "unconfirmed": unconf,
        "determinism_mismatch_indices": res["ndidx"][:20],
        "workers_stopped_by_time_cap": res["late"],
    }
    body = {"property": a.prop, "tier": a.tier, "seed": int(a.seed),
            "level": mod.LEVEL, "coverage": cov,
            "assumptions": mod.ASSUMPTIONS, "wall_s": round(wall, 1),
            "violations": nv}
    fn = os.path.join(EVID, a.prop + ".json")
    with open(fn + ".tmp", "w") as f:
        json.dump(body, f, indent=1, sort_keys=True, default=str)
    os.replace(fn + ".tmp", fn)
    return body


if __name__ == "__main__":
    sys.exit(main())
