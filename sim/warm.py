"""Import everything once; every simulated run forks from this image."""
import importlib
import os
import sys
import warnings


def import_all(block=()):
    os.environ.setdefault("OMP_NUM_THREADS", "1")
    os.environ.setdefault("MPLBACKEND", "Agg")
    for b in block:
        sys.modules[b] = None
    devnull = os.open(os.devnull, os.O_WRONLY)
    saved = os.dup(1), os.dup(2)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            _imports()
    finally:
        os.dup2(saved[0], 1)
        os.dup2(saved[1], 2)
        for fd in saved + (devnull,):
            os.close(fd)
    warnings.simplefilter("ignore")
    from . import seams
    seams.package_codes()


def _imports():
    import numpy                                     # noqa
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    import matplotlib.backends.backend_agg           # noqa
    import turbustat.statistics                      # noqa
    import turbustat.simulator                       # noqa
    import turbustat.moments                         # noqa
    import turbustat.io                              # noqa
    for m in ("pyfftw", "pyfftw.interfaces.numpy_fft", "spectral_cube",
              "radio_beam", "astrodendro", "sklearn.metrics.pairwise",
              "joblib", "statsmodels.api", "statsmodels.base.model",
              "emcee", "scipy.optimize", "scipy.stats", "scipy.ndimage",
              "scipy.signal", "scipy.odr", "pandas", "multiprocessing.pool",
              "multiprocessing.synchronize", "concurrent.futures.process",
              "concurrent.futures.thread", "astropy.modeling.models",
              "astropy.modeling.fitting", "astropy.convolution",
              "astropy.visualization", "astropy.utils.console",
              "astropy.wcs.wcsapi", "skimage.measure", "skimage.morphology",
              "turbustat.statistics.stats_utils",
              "turbustat.statistics.threeD_to_twoD",
              "turbustat.statistics.psds", "turbustat.statistics.lm_seg",
              "turbustat.statistics.elliptical_powerlaw",
              "turbustat.statistics.fitting_utils",
              "turbustat.statistics.apodizing_kernels",
              "turbustat.statistics.rfft_to_fft",
              "turbustat.io.sim_tools", "turbustat.simulator.threeD_pspec",
              "mpl_toolkits.axes_grid1", "mpl_toolkits.mplot3d", "corner"):
        try:
            importlib.import_module(m)
        except Exception:
            pass
    # FFTW picks its algorithm by timing trials: a clock the simulator owns
    pf = sys.modules.get("pyfftw")
    if pf is not None:
        pf.config.PLANNER_EFFORT = "FFTW_ESTIMATE"
        pf.config.NUM_THREADS = 1
    fig = plt.figure()
    ax = fig.add_subplot(111)
    ax.plot([0, 1], [0, 1])
    ax.imshow([[0, 1], [1, 0]])
    fig.tight_layout()
    fig.canvas.draw()
    plt.close(fig)
