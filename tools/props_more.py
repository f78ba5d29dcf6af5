prop("S11", "A request's answer does not depend on what the process did before",
     "Any request (statistic, distance metric, simulator or utility function) gives the same answer in a process that has already served other requests - on similar data, with one option different, repeatedly, or failing or interrupted part-way - as in a pristine process, and raises there exactly when it raises in a pristine one. A memory failure or an interrupt inside a request is never swallowed into a different answer.",
     ["histories", "fault_sequences", "inputs"],
     "all earlier sequences of requests in the process, failures at any library call of theirs",
     "Each test makes its own requests in an order that never changes; state kept between requests (caches, buffers, changed defaults) shows only for particular pairs of requests.",
     ALLSTATS + ["turbustat/simulator/make_cube.py", "turbustat/simulator/gen_field.py", "turbustat/io/input_base.py", ST + "stats_utils.py", ST + "psds.py", ST + "fitting_utils.py"],
     [("no module-level or class-level mutable state", "all of turbustat")],
     observe=["return values and public attributes of the request"])
prop("S12", "A distance does not depend on how or when its two sides were prepared",
     "Comparing two data sets gives the same distance whether each side is handed in as data or as an already prepared statistic object, whether that object has been run or not, and however many other comparisons it served before - on other pixel grids, with other lags, radii, bins or numbers of components, asked for repeatedly, failing or interrupted part-way. A prepared object that cannot serve the requested comparison is re-run or refused with an error, never compared as it is.",
     ["histories", "configurations", "fault_sequences"],
     "all series of comparisons sharing a fiducial object, all preparations of it, failure at any library call of an earlier comparison",
     "Tests compare one pair of data sets once, mostly from data; reuse of a fiducial over a series of comparisons, the documented way to compare many simulations, is exercised for one order and setting.",
     [ST + p for p in ("pspec_bispec/pspec.py", "pspec_bispec/bispec.py", "mvc/mvc.py", "vca_vcs/vca.py", "vca_vcs/vcs.py", "delta_variance/delta_variance.py", "wavelets/wavelet_transform.py", "scf/scf.py", "pca/pca.py", "genus/genus.py", "stat_moments/highstatmoments.py", "tsallis/tsallis.py", "pdf/compare_pdf.py", "dendrograms/dendro_stats.py", "cramer/cramer.py")],
     [("isinstance checks and needs_run decisions in the *_Distance constructors", "all *_Distance classes")],
     observe=["distance attributes of the *_Distance objects"])
prop("S13", "Saved moment maps load back intact; storage trouble never yields wrong maps",
     "Moment and error maps that Moments writes to FITS files and loads again (by explicit names or by name prefix, from an object or a file) are the maps that were written, with the same units and shape, also after further saves over the same names. When the disk fills up, a file cannot be created, replaced or read, or the process dies or is interrupted while saving or loading, the failing call raises, files that were complete stay loadable or are refused, and no truncated, mixed-up or stale map is returned as if it were the requested one.",
     ["fault_sequences", "crash_points", "histories"],
     "all histories of making, saving, replacing and loading the maps; storage failure or process death at any byte, file operation or source line",
     "Tests save and load one set of maps once, with no fault.",
     ["turbustat/moments/moments.py", "turbustat/moments/_moment_errs.py", "turbustat/io/input_base.py"],
     [("Moments.to_fits / from_fits", "turbustat/moments/moments.py")],
     observe=["maps read back from the files", "errors raised by to_fits and from_fits"])
prop("S14", "How a request is executed never changes its numbers",
     "A request gives the same numbers with numpy's or pyFFTW's FFT, with any number of FFT threads or jobs and any order in which they run, with reused FFT plans, when pyFFTW is asked for but not installed, wherever and in whatever layout or byte order its inputs lie in memory, whatever freshly allocated memory contained, and in any interpreter (hash seed, optimisation level, locale, BLAS threads). When the FFT library or a job fails, the request raises or still gives the same numbers.",
     ["configurations", "schedules", "fault_sequences"],
     "all execution options, task orders, memory contents and placements, interpreters, failure of any FFT call or job",
     "Tests compare one or two FFT options on one data set; memory contents, layouts, job orders and a missing library never vary in a test run.",
     ALLSTATS + [ST + "rfft_to_fft.py", ST + "convolve_wrapper.py", ST + "cramer/cramer.py"],
     [("use_pyfftw / threads / n_jobs options", "all FFT-based statistics"), ("PYFFTW_FLAG fallbacks", ST + "rfft_to_fft.py")],
     observe=["return values and public attributes"])
prop("S15", "An analysis can move between processes at any point",
     "A statistic or distance that is pickled to a worker process or to another interpreter, or deep-copied, at any point of its life - freshly made, computed, fitted - carries on there and after its return exactly as it would have in one process, and the original is not changed by what happens to the copy. When the worker dies, is interrupted or fails, submitting the same step again gives the right answer.",
     ["histories", "schedules", "crash_points"],
     "all hand-over points, ways and sequences; worker death at any library call",
     "Tests never send an object to another process.",
     ALLSTATS + [ST + "base_statistic.py"],
     [("instance state of statistics and distances", "all statistics")],
     observe=["return values and public attributes after every step"])
prop("S16", "Looking at an analysis never changes it",
     "Verbose output, progress bars, figures shown or saved and calls to the plotting methods leave every number of a statistic or distance as it is without them. When a display action fails - a broken pipe, a full disk, a missing directory, memory, an interrupt - the failure is raised or the display is skipped, nothing that was computed is changed, and the request repeated afterwards gives the undisturbed answer.",
     ["histories", "fault_sequences", "configurations"],
     "all display options and plotting calls between the steps of a request, failure of any display call",
     "Tests run almost entirely with verbose off; the display branches interleave with the computation and share its arrays.",
     ALLSTATS + [ST + "fitting_utils.py"],
     [("plot_fit, plot_* and verbose branches of run()", "all statistics"), ("distance_metric(verbose, save_name)", "all *_Distance classes")],
     observe=["return values and public attributes", "exceptions of the display calls"])
prop("N01", "Spectral indices recover the input power law",
     "The slope measured from a field generated with a known power-law index agrees with that index within the quoted uncertainty.",
     ["inputs"], "all indices, sizes and anisotropies", "Tests sample a few indices and grids.",
     [ST + "base_pspec2.py", ST + "psds.py", "turbustat/simulator/gen_field.py"],
     [("radial averaging and log-log fit", ST + "base_pspec2.py")])
prop("N02", "Angular, physical and pixel units describe the same scale",
     "Limits, lags and breaks given in pixel, angular or physical units that denote the same scale give the same result.",
     ["inputs", "configurations"], "all pixel scales, distances and units", "Tests sample one header.",
     [ST + "base_statistic.py"], [("unit equivalencies from the header", ST + "base_statistic.py")])
prop("N03", "Distances are symmetric and zero between identical data sets",
     "Every distance metric gives zero for identical data sets and does not depend on which data set is named first.",
     ["inputs"], "all data sets", "Tests compare one pair of data sets.",
     [ST + p for p in ("pspec_bispec/pspec.py", "pca/pca.py", "pdf/compare_pdf.py", "genus/genus.py", "cramer/cramer.py")],
     [("distance_metric", "all *_Distance classes")])
prop("N04", "All supported input containers give the same result",
     "An HDU, a (data, header) pair, a projection or a spectral cube holding the same data give the same result.",
     ["inputs"], "all containers and dtypes", "Tests use one container per statistic.",
     ["turbustat/io/input_base.py"], [("input_data", "turbustat/io/input_base.py")])
prop("N05", "Moment-map uncertainties propagate the noise correctly",
     "The reported moment errors are the first-order propagation of the per-voxel noise.",
     ["inputs"], "all cubes and noise levels", "Tests sample one analytic cube.",
     ["turbustat/moments/_moment_errs.py"], [("moment*_error", "turbustat/moments/_moment_errs.py")])
NA = {
 "N01": "A statement about the numerics of one pure, single-threaded computation: no schedule, clock, I/O, randomness (beyond the seed, see S03) or fault takes part, so the simulator has nothing to decide.",
 "N02": "Pure unit arithmetic on in-memory values; nothing nondeterministic to simulate.",
 "N03": "An algebraic property of a pure function of two arrays; no schedule, history or fault takes part (history and sharing of metric objects are S12).",
 "N04": "Pure format conversion; no nondeterminism. (That containers are not modified is S05.)",
 "N05": "Pure formula correctness; no nondeterminism.",
}
