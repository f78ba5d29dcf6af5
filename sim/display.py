"""What each statistic can draw, print and show, as seeded options.

`dress(rng, spec, prog)` adds display options to the steps of a program,
`plots(rng, spec)` gives plotting calls for the finished object.  File names
are written as "@name" and resolved inside a scratch directory."""
import copy
import os

from . import catalog as C
from .data import decode


def maybe(rng, p):
    return rng.random() < p


def _units(rng, spec, inverse):
    c = ["pix", "deg", "arcmin"]
    if "distance" in spec["init"]:
        c.append("pc")
    un = rng.choice(c)
    return {"__unit__": "1 / (%s)" % un if inverse else un}


PSPEC = ("PowerSpectrum", "MVC", "VCA")
RUN = {
    # stat: (run shows progress, run takes xunit, inverse unit)
    "PowerSpectrum": (False, True, True), "MVC": (False, True, True),
    "VCA": (False, True, True), "VCS": (False, False, None),
    "Bispectrum": (True, False, None), "DeltaVariance": (True, True, False),
    "Wavelet": (True, True, False), "SCF": (True, True, False),
    "PCA": (True, False, None), "Genus": (False, False, None),
    "StatMoments": (True, False, None), "Tsallis": (False, False, None),
    "PDF": (False, False, None), "Dendrogram_Stats": (True, False, None),
}
PROGRESS = {"compute_bispectrum", "compute_deltavar", "compute_transform",
            "compute_surface", "compute_pca", "compute_spatial_distrib",
            "compute_dendro"}
TALK = {("PowerSpectrum", "fit_pspec"): "verbose",
        ("MVC", "fit_pspec"): "verbose", ("VCA", "fit_pspec"): "verbose",
        ("VCS", "fit_pspec"): "fit_verbose",
        ("DeltaVariance", "fit_plaw"): "verbose",
        ("SCF", "fit_plaw"): "verbose", ("PCA", "fit_plaw"): "verbose",
        ("Dendrogram_Stats", "fit_numfeat"): "verbose"}


def dress(rng, spec, prog):
    """The same program, displayed."""
    out = []
    stat = spec["stat"]
    for i, (m, kw) in enumerate(prog):
        kw = copy.deepcopy(kw)
        if m == "run" and stat in RUN:
            prg, xu, inv = RUN[stat]
            if maybe(rng, .8):
                kw["verbose"] = True
                if maybe(rng, .6):
                    kw["save_name"] = rng.choice(["@fig.png", "@sub/f.pdf",
                                                  "@fig"])
                if xu and maybe(rng, .5):
                    kw["xunit"] = _units(rng, spec, inv)
                if stat in PSPEC and maybe(rng, .3):
                    kw["use_wavenumber"] = True
                if stat == "Genus" and maybe(rng, .5):
                    kw["standardize_intensity"] = True
            if prg and maybe(rng, .6):
                kw["show_progress"] = True
        elif m in PROGRESS and maybe(rng, .6):
            kw["show_progress"] = True
        elif (stat, m) in TALK and maybe(rng, .6):
            kw[TALK[(stat, m)]] = True
        out.append([m, kw])
    return out


def _save(rng, kw):
    if maybe(rng, .4):
        kw["save_name"] = rng.choice(["@p.png", "@q.pdf", "@sub/r.png"])
    return kw


STYLE = {
    "color": ["b", "#336699", [0.2, 0.4, 0.6]], "fit_color": ["g", "C2"],
    "data_color": ["b", "C1"], "symbol": ["D", "s", "^"],
    "label": ["run A", "x"], "cmap": ["plasma", "gray_r"],
    "cov_cmap": ["plasma", "gray"], "contour_color": ["w", "r"],
    "contour_cmap": ["magma"], "hist_color": ["b"], "face_color": ["g"],
}


def plot(rng, spec):
    """One plotting call, styled."""
    import inspect
    p = _plot(rng, spec)
    if p is None:
        return None
    m, kw = p
    f = getattr(C.STATS[spec["stat"]].cls(), m)
    for k in sorted(set(inspect.signature(f).parameters) & set(STYLE)):
        if k not in kw and maybe(rng, .35):
            kw[k] = rng.choice(STYLE[k])
    return [m, kw]


def _plot(rng, spec):
    stat = spec["stat"]
    kw = {}
    if stat in PSPEC:
        if maybe(rng, .4):
            kw["show_2D"] = True
        if maybe(rng, .5):
            kw["xunit"] = _units(rng, spec, True)
        for k in ("show_residual", "fillin_errs"):
            if maybe(rng, .3):
                kw[k] = False
        if maybe(rng, .3):
            kw["use_wavenumber"] = True
        if maybe(rng, .3):
            kw["fit_color"] = None
        return ["plot_fit", _save(rng, kw)]
    if stat == "VCS":
        if maybe(rng, .4):
            kw["show_residual"] = False
        return ["plot_fit", _save(rng, kw)]
    if stat in ("DeltaVariance", "Wavelet"):
        if maybe(rng, .5):
            kw["xunit"] = _units(rng, spec, False)
        if maybe(rng, .4):
            kw["show_residual"] = False
        return ["plot_fit" if stat == "DeltaVariance" else "plot_transform",
                _save(rng, kw)]
    if stat == "SCF":
        if maybe(rng, .5):
            kw["xunit"] = _units(rng, spec, False)
        for k in ("show_residual", "show_radial", "show_surface"):
            if maybe(rng, .3):
                kw[k] = False
        return ["plot_fit", _save(rng, kw)]
    if stat == "PCA":
        for k in ("show_residual", "show_cov_bar", "show_sl_fit"):
            if maybe(rng, .3):
                kw[k] = False
        if maybe(rng, .3):
            kw["n_eigs"] = rng.choice([2, 3])
        if maybe(rng, .4):
            kw["spatial_unit"] = _units(rng, spec, False)
        if maybe(rng, .3):
            kw["spectral_unit"] = {"__unit__": rng.choice(["km/s", "m/s"])}
        return ["plot_fit", _save(rng, kw)]
    if stat == "Genus":
        if maybe(rng, .5):
            kw["standardize"] = True
        return ["plot_fit", _save(rng, kw)]
    if stat == "StatMoments":
        return [rng.choice(["plot_histograms", "plot_maps"]), _save(rng, kw)]
    if stat == "Tsallis":
        return [rng.choice(["plot_fit", "plot_parameters"]), _save(rng, kw)]
    if stat == "PDF":
        if maybe(rng, .4):
            kw["show_ecdf"] = False
        return ["plot_distrib", _save(rng, kw)]
    if stat == "Bispectrum":
        if maybe(rng, .4):
            kw["show_bicoh"] = False
        return ["plot_surface", _save(rng, kw)]
    if stat == "Dendrogram_Stats":
        if maybe(rng, .4):
            kw["show_hists"] = False
        return ["plot_fit", _save(rng, kw)]
    return None


def live(kw, d):
    """Live keyword arguments, file names inside directory d."""
    kw = decode(copy.deepcopy(kw))
    sn = kw.get("save_name")
    if isinstance(sn, str) and sn.startswith("@"):
        kw["save_name"] = os.path.join(d, sn[1:])
    return kw


def close():
    import matplotlib.pyplot as plt
    plt.close("all")
