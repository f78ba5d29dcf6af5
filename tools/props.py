"""Writes properties.jsonl and MANIFEST.json (run after editing)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ST = "turbustat/statistics/"
ALLSTATS = [ST + p for p in (
    "base_statistic.py", "base_pspec2.py", "pspec_bispec/pspec.py",
    "pspec_bispec/bispec.py", "mvc/mvc.py", "vca_vcs/vca.py",
    "vca_vcs/vcs.py", "delta_variance/delta_variance.py",
    "wavelets/wavelet_transform.py", "scf/scf.py", "pca/pca.py",
    "genus/genus.py", "stat_moments/highstatmoments.py",
    "tsallis/tsallis.py", "pdf/compare_pdf.py", "dendrograms/dendro_stats.py",
    "cramer/cramer.py")] + ["turbustat/moments/make_moments.py"]

P = []


def prop(id, title, statement, over, text, why, files, mech, state=(),
         observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s))
                                    for s in state],
                          "mechanism": [dict(zip(("name", "where"), m))
                                        for m in mech],
                          "observe_at": list(observe), "hook_needed": None}})


prop("S01", "Parallel cube synthesis equals serial synthesis, for every schedule",
     "A synthetic position-position-velocity cube made with several worker processes is identical, data and header, to the one made with one worker, whichever worker handles which part of the field and in whatever order the parts come back. Each sight-line's spectrum depends only on that sight-line's velocities and densities, so its place in the field, the size of the field and the other sight-lines never change it.",
     ["schedules", "inputs", "configurations"],
     "all assignments of work to 2-16 workers, all arrival orders, all field shapes, lines of sight, channel layouts and units",
     "One test makes two cubes with 1 worker and never exercises the pool; result order and chunking bugs appear only under particular arrival orders, field shapes and worker counts.",
     ["turbustat/simulator/make_cube.py", "turbustat/simulator/gen_field.py"],
     [("pool.map with the position carried in every work item", "turbustat/simulator/make_cube.py"),
      ("each result is stored at the position it carries", "turbustat/simulator/make_cube.py")],
     observe=["return value of make_ppv"])
prop("S02", "A failing worker or pool surfaces as an error, never as a wrong cube",
     "When a worker raises, dies, cannot be started, or cannot send its result back, or when the caller is interrupted, parallel cube synthesis either returns the complete correct cube or raises; it never returns a cube with missing or wrong sight-lines. Afterwards no worker process is left running and the next synthesis in the same process gives the right cube.",
     ["fault_sequences", "schedules"],
     "every fault (raise, kill, refused fork, broken reply, interrupt) at every point of every schedule",
     "No test makes a worker fail; the outcome depends on which chunk is in flight when the fault strikes.",
     ["turbustat/simulator/make_cube.py"],
     [("context-managed pool", "turbustat/simulator/make_cube.py")],
     observe=["return value or exception of make_ppv", "children of the process"])
prop("S03", "Seeded requests are reproducible whatever else draws random numbers",
     "A request made with a random seed (simulated fields, bispectrum sampling, bootstrapped fits, Cramer sampling) returns the same numbers every time, whatever was drawn or seeded before, whatever failed before, and whoever draws from or reseeds the process-wide random streams while it runs. Another caller's own random numbers are not changed by it, and another seed gives another realisation.",
     ["histories", "schedules", "fault_sequences"],
     "all prior histories of the process-wide random streams, all interleavings with a second caller, all points of interruption",
     "Tests run seeded calls alone, from one known stream state; they cannot enumerate interleavings of another consumer of the stream.",
     ["turbustat/simulator/gen_field.py", ST + "pspec_bispec/bispec.py", ST + "fitting_utils.py", ST + "cramer/cramer.py", ST + "base_pspec2.py", ST + "lm_seg.py"],
     [("private RandomState / NumpyRNGContext", "turbustat/simulator/gen_field.py, " + ST + "fitting_utils.py")],
     observe=["return values", "np.random draws of the other caller"])
prop("S04", "A request leaves the process as it found it",
     "Apart from its result and the files it was asked to write, no request changes process-wide state: random streams, floating-point error handling, warning filters, environment, working directory, signal handlers, print options, plotting settings, open files and child processes are the same after the request as before it. This holds equally when the request raises, runs out of memory or is interrupted at any point.",
     ["fault_sequences", "inputs", "configurations"],
     "all requests, all inputs and options, failure or interruption at any library call",
     "Tests check results of successful calls; none looks at process-wide state, and clean-up on error paths is reached only when a particular inner call fails.",
     ALLSTATS + ["turbustat/simulator/gen_field.py", "turbustat/simulator/make_cube.py"],
     [("state is saved and restored around, or never touched by, the computation", "all of turbustat")],
     observe=["numpy, warnings, os, signal, matplotlib state", "open descriptors, children"])
prop("S05", "Whatever the caller hands in stays unmodified",
     "No request modifies the data arrays, headers, weights, masks, cubes, lags or option dictionaries that the caller hands in, not even temporarily, and the request's result does not hold on to them in a way that changes them later. This holds whether the request completes, raises or is interrupted at any point.",
     ["inputs", "configurations", "fault_sequences"],
     "all containers and dtypes of data, all option dictionaries, observation at any moment during the request, failure at any library call",
     "Tests hand in fresh objects and look at results only; mutation shows only when the object is reused, for particular options, or on an error path.",
     ALLSTATS + ["turbustat/io/input_base.py", ST + "stats_utils.py", ST + "threeD_to_twoD.py", ST + "psds.py"],
     [("copies at the API boundary (input_data need_copy, dict copies)", "turbustat/io/input_base.py, " + ST + "base_statistic.py")],
     observe=["bitwise fingerprints of every caller-owned object"])
prop("S06", "Concurrent callers get the answers they would get alone",
     "Several threads analysing at the same time, each with its own statistic object, each get the answer they would get alone, even when they share the same data, headers, weights and option dictionaries. No interleaving makes a request fail that succeeds alone.",
     ["schedules", "inputs"],
     "all preemption points of 2-3 threads, all pairs of requests, shared and private inputs",
     "The test suite is single-threaded.",
     ALLSTATS + ["turbustat/simulator/gen_field.py"],
     [("no module-level mutable state, no temporary mutation of shared inputs", "all of turbustat")],
     observe=["results of each thread"])
prop("S07", "An analysis object answers its latest request, whatever it was asked before",
     "Every public result that a request to a statistic object computes equals what a fresh object given only that request reports: earlier runs with other options, single steps of the analysis, reads of results, rejected calls, saves, random draws and other objects used in the same process leave no trace in it. Reading a result never changes it.",
     ["histories", "inputs", "configurations"],
     "all finite sequences of public calls with all options on one object",
     "Tests call each method once or twice on a new object; stale state (units already converted, data already normalised, fits from another range) needs a particular sequence.",
     ALLSTATS,
     [("each step recomputes from stored inputs", "all statistics")],
     [("_data, _weights, _lags, _ps1D, _model, _brk, ...", "inputs and intermediate results kept between calls", "statistic classes")],
     ["all public attributes and return values"])
prop("S08", "A failed or interrupted analysis is never taken for a finished one",
     "When an analysis step fails part-way (allocation failure, non-convergence, interrupt) the error reaches the caller or is handled without changing the result, and asking the same object again afterwards gives exactly the answer a fresh object gives. No half-computed value is ever served as a result of the repeated request.",
     ["fault_sequences", "crash_points", "histories"],
     "failure at any library call of any analysis step, on fresh and previously used objects",
     "No test makes an inner call fail; the outcome depends on which assignment has already happened at that point.",
     ALLSTATS,
     [("results are assigned from complete computations; inputs are not edited in place", "all statistics")],
     observe=["exception or result of the failed call", "all public attributes after the retry"])
prop("S09", "Saved results load back as they were, in any process",
     "A statistic saved at any point of its history and loaded again, in the same or another process, reports the same results and settings as when it was saved, and can continue the analysis as the live object would (re-running it when the data were saved too). Saving leaves the live object unchanged, does not store the data unless asked to, and later work on the live object does not change the saved file.",
     ["histories", "configurations", "inputs"],
     "all statistics, all histories of runs, saves, loads and re-saves, with and without data",
     "Tests save and load a few statistics once, directly after run().",
     ALLSTATS,
     [("save_results / load_results", ST + "base_statistic.py, " + ST + "mvc/mvc.py")],
     observe=["files written", "public attributes of loaded objects"])
prop("S10", "Saving results is all-or-nothing",
     "Whatever goes wrong while results are saved (full disk, failing write, rename or close, crash or interrupt at any point) is reported to the caller, and the file name afterwards holds complete results, either those saved before or the new ones, or nothing if there were none before. A truncated results file never loads as results, and saving again after the fault succeeds.",
     ["crash_points", "fault_sequences"],
     "a fault at every byte, file operation and source line of every save",
     "No test injects a storage fault or a crash.",
     [ST + "base_statistic.py", ST + "mvc/mvc.py"],
     [("write to a temporary name, then rename", ST + "base_statistic.py")],
     observe=["the file after the crash, loaded by a pristine process"])
exec(open(os.path.join(HERE, "tools", "props_more.py")).read())

TECH = "deterministic simulation with fault injection: "
CHECKS = {}


def check(id, level, tech, note):
    CHECKS[id] = {"property": id, "quick_cmd": "./check.sh %s quick" % id,
                  "thorough_cmd": "./check.sh %s thorough" % id,
                  "technique": TECH + tech, "level": level,
                  "level_note": note}


check("S01", "exploration", "seeded pool scheduler, serial reference",
      "Seeded search over work assignment and arrival orders with real forked workers; small fields; the pool's scheduler is simulated.")
check("S02", "fault_enumeration", "seeded pool faults and schedules, serial reference",
      "Seeded faults (raise, kill, refused fork, broken reply, interrupt, stall) at seeded points; worker-death semantics of the pool are modelled on CPython's. One known finding (hang after a killed worker).")
check("S03", "exploration", "seeded histories and thread interleavings, pristine-process reference",
      "Bit-for-bit comparison under seeded histories, preemptions at source lines and interrupted earlier requests.")
check("S04", "exploration", "seeded call faults, process-state snapshots",
      "Snapshot of enumerated process-wide state before/after; faults at calls into numerical libraries.")
check("S05", "exploration", "seeded call faults, input fingerprints at seeded moments",
      "Bitwise fingerprints before, during and after; one known finding (pruning of a caller's dendrogram object).")
check("S06", "exploration", "seeded thread scheduler, run-alone reference",
      "Preemption at TurbuStat source lines; library calls are atomic; scipy.odr is not preempted.")
check("S07", "exploration", "seeded call histories, fresh-object reference",
      "Seeded histories of public calls against a fresh object in a pristine process; relative tolerance 1e-6.")
check("S08", "exploration", "seeded call faults and retries, fresh-object reference",
      "One failing library call at a seeded point per faulty call, then retry against a fresh object.")
check("S09", "exploration", "seeded save/load histories, executable model of the store",
      "Seeded histories, files read by pristine processes; same library versions on both sides.")
check("S10", "fault_enumeration", "seeded storage faults and crashes, old-or-new model",
      "Storage faults at seeded bytes, operations and lines; no power-loss model below the file system.")
exec(open(os.path.join(HERE, "tools", "checks_more.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
ids = [p["id"] for p in P]
claimed = [i for i in ids if i in CHECKS]
m = {"version": 1, "setup_cmd": "./setup.sh",
     "checks": [CHECKS[i] for i in claimed],
     "not_applicable": [{"property": i, "reason": NA[i]} for i in ids
                        if i not in CHECKS],
     "notes": "No hooks in /repo: the simulator uses seams from outside (trace functions, replaced pools, audit events, resource limits)."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print("claimed", claimed, "n/a", [x["property"] for x in m["not_applicable"]])
