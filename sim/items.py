"""Work items: one thing a user can ask the library for.

    {"kind": "stat", "spec": ..., "prog": [...]}
    {"kind": "dist", "dist": name, "data": {...}, "kw": {...}, "metric": {...}}
    {"kind": "func", "func": name, "kw": {...}}

make(item) builds the caller-owned inputs, run(item, inputs) performs the
request and returns what the caller can observe.
"""
import contextlib

import numpy as np

from . import catalog as C
from . import util as U
from .catalog import maybe, compact
from .data import Q, decode, gen_data, make_data, make_weights, raw_array, \
    make_header, place


# ------------------------------------------------------------ distance metrics
def _two(rng, ndim, shape=None, nans=None, dtypes=None, other=None):
    a = gen_data(rng, ndim, shape=shape, nans=nans, dtypes=dtypes,
                 containers=["hdu", "hdu", "tuple", "list"])
    b = gen_data(rng, ndim, shape=other or a["shape"], nans=nans or a["nans"],
                 dtypes=[a["dtype"]], containers=["hdu", "hdu", "tuple"])
    return {"data1": a, "data2": b}


def _brk(rng, val):
    return {"breaks": [val, val]} if maybe(rng, 0.3) else {}


def _plotkw(rng):
    # options a caller may hand over even when nothing is drawn
    if maybe(rng, 0.35):
        return {"plot_kwargs1": {"color": "r"},
                "plot_kwargs2": {"color": "k", "label": "B"}}
    return {}


class Dist(object):
    ndim = 2
    stat = None           # class usable as a pre-computed side
    shape = None
    common = {}

    def cls(self):
        import turbustat.statistics as S
        return getattr(S, self.name)

    def gen(self, rng, f):
        nans = "none" if maybe(rng, 0.6) else None
        d = _two(rng, self.ndim, shape=self.shape, nans=nans)
        return {"kind": "dist", "dist": self.name, "data": d,
                "kw": self.kw(rng, f, d), "metric": self.metric(rng)}

    def kw(self, rng, f, d):
        return {}

    def metric(self, rng):
        return _plotkw(rng)

    def make(self, item):
        inp = dict((k, make_data(v)) for k, v in item["data"].items()
                   if k.startswith("data"))
        for k in ("weights1", "weights2"):
            if k in item["data"]:
                inp[k] = make_weights(item["data"][k])
        inp["kw"] = decode(item["kw"])
        inp["metric"] = decode(item["metric"])
        return inp

    def construct(self, item, inp):
        kw = dict(inp["kw"])
        for k in ("weights1", "weights2"):
            if k in inp:
                kw[k] = inp[k]
        return self.cls()(inp["data1"], inp["data2"], **kw)

    def ask(self, obj, item, inp, **over):
        m = dict(inp["metric"])
        m.update(over)
        return obj.distance_metric(**m)

    # pre-computed side (un-run object handed to the metric class)
    def side(self, data, item, inp):
        import turbustat.statistics as S
        return getattr(S, self.stat)(data)

    def observe(self, obj):
        out = {}
        for k, v in U.public_state(obj):
            if (type(v).__module__ or "").startswith("turbustat"):
                continue
            out[k] = U.canon(v)
        return out

    def observe_sides(self, obj):
        out = {}
        for k, v in U.public_state(obj):
            if (type(v).__module__ or "").startswith("turbustat"):
                for kk, vv in U.observe(v).items():
                    out[k + "." + kk] = vv
        return out


def _wts(rng, d):
    out = {}
    if maybe(rng, 0.3):
        for i in "12":
            out["weights" + i] = {"seed": d["data" + i]["seed"],
                                  "shape": d["data" + i]["shape"],
                                  "wnans": maybe(rng, 0.4)}
    return out


class PSpec_Distance(Dist):
    name = "PSpec_Distance"
    stat = "PowerSpectrum"

    def gen(self, rng, f):
        it = Dist.gen(self, rng, f)
        it["data"].update(_wts(rng, it["data"]))
        return it

    def kw(self, rng, f, d):
        kw = _brk(rng, Q(0.2, "1/pix"))
        if maybe(rng, 0.4):
            kw["low_cut"] = Q(0.06, "1/pix")
        if maybe(rng, 0.4):
            kw["high_cut"] = Q(0.4, "1/pix")
        if maybe(rng, 0.5):
            pk = {"apodize_kernel": "tukey", "alpha": 0.3}
            if maybe(rng, 0.5):
                pk["radial_pspec_kwargs"] = {"logspacing": False}
            if maybe(rng, 0.3):
                pk["fit_unbinned"] = True
            kw["pspec_kwargs"] = pk
            if maybe(rng, 0.4):
                kw["pspec2_kwargs"] = {"apodize_kernel": "hanning",
                                       "low_cut": Q(0.05, "1/pix")}
        return kw


class MVC_Distance(Dist):
    name = "MVC_Distance"
    stat = "MVC"
    ROLES = ("centroid", "moment0", "linewidth")

    def gen(self, rng, f):
        shape = rng.choice([[24, 24], [25, 25], [24, 28]])
        s = rng.randrange(10 ** 6)
        err = maybe(rng, 0.3)
        data = {}
        for i in (1, 2):
            data["data%d" % i] = {"ndim": 2, "shape": shape, "seed": s + 50 * i,
                                  "dtype": rng.choice(["<f8", "<f4"]),
                                  "container": "mvc", "slope": 3.0,
                                  "errors": err}
        kw = _brk(rng, Q(0.2, "1/pix"))
        if err:
            kw["weight_by_error"] = True
        if maybe(rng, 0.4):
            kw["low_cut"] = Q(0.06, "1/pix")
        if maybe(rng, 0.4):
            kw["pspec_kwargs"] = {"logspacing": True}
            if maybe(rng, 0.5):
                kw["pspec2_kwargs"] = {"logspacing": False}
        if maybe(rng, 0.3):
            kw["high_cut"] = Q(0.4, "1/pix")
        return {"kind": "dist", "dist": self.name, "data": data, "kw": kw,
                "metric": self.metric(rng)}

    def make(self, item):
        inp = {}
        for k in ("data1", "data2"):
            d = item["data"][k]
            out = {}
            for j, r in enumerate(self.ROLES):
                out[r] = [raw_array(dict(d, seed=d["seed"] + j)),
                          make_header(d)]
                if d.get("errors"):
                    rs = np.random.RandomState(d["seed"] + j)
                    out[r + "_error"] = [
                        rs.uniform(0.9, 1.1, size=tuple(d["shape"])),
                        make_header(d)]
            inp[k] = out
        inp["kw"] = decode(item["kw"])
        inp["metric"] = decode(item["metric"])
        return inp

    def side(self, data, item, inp):
        import turbustat.statistics as S
        if item["kw"].get("weight_by_error"):
            v = [data[r][0] * data[r + "_error"][0] ** -2.
                 for r in self.ROLES]
        else:
            v = [data[r][0] for r in self.ROLES]
        return S.MVC(v[0], v[1], v[2], data["centroid"][1])


class VCA_Distance(Dist):
    name = "VCA_Distance"
    stat = "VCA"
    ndim = 3

    def kw(self, rng, f, d):
        kw = _brk(rng, Q(0.2, "1/pix"))
        if maybe(rng, 0.4):
            kw["low_cut"] = Q(0.06, "1/pix")
        if maybe(rng, 0.3) and d["data1"]["nans"] == "none":
            kw["channel_width"] = Q(800., "m/s")
        if maybe(rng, 0.4):
            kw["radial_pspec_kwargs"] = {"logspacing": True}
        if maybe(rng, 0.3):
            kw["high_cut"] = Q(0.4, "1/pix")
        return kw

    def side(self, data, item, inp):
        import turbustat.statistics as S
        return S.VCA(data, channel_width=inp["kw"].get("channel_width"))


class VCS_Distance(Dist):
    name = "VCS_Distance"
    stat = "VCS"
    ndim = 3
    shape = (40, 10, 12)

    def kw(self, rng, f, d):
        kw = {}
        if maybe(rng, 0.4):
            kw["breaks"] = [Q(-0.8, ""), Q(-0.8, "")]
            kw["fit_kwargs"] = {"log_break": True}
        if maybe(rng, 0.5):
            kw.setdefault("fit_kwargs", {})["high_cut"] = Q(0.45, "1/pix")
            if maybe(rng, 0.4):
                kw["fit_kwargs2"] = dict(kw["fit_kwargs"],
                                         low_cut=Q(0.04, "1/pix"))
        return kw


class Bispectrum_Distance(Dist):
    name = "Bispectrum_Distance"
    stat = "Bispectrum"
    shape = (12, 12)

    def kw(self, rng, f, d):
        return {"stat_kwargs": compact(
            {"nsamples": 10, "seed": rng.choice([1, 1000, 77, 0]),
             "show_progress": False,
             "mean_subtract": True if maybe(rng, .3) else None})}

    def metric(self, rng):
        return {}


class DeltaVariance_Distance(Dist):
    name = "DeltaVariance_Distance"
    stat = "DeltaVariance"
    shape = (24, 24)

    def gen(self, rng, f):
        it = Dist.gen(self, rng, f)
        it["data"].update(_wts(rng, it["data"]))
        if maybe(rng, 0.2):
            it["data"]["data2"]["scale"] = rng.choice([1.5, 0.8])
        return it

    def kw(self, rng, f, d):
        kw = {"lags": rng.choice([Q([3., 4., 6., 8.], "pix"),
                                  Q([3., 5., 7.], "pix")])}
        dk = {"show_progress": False}
        if maybe(rng, 0.4):
            dk["xlow"] = Q(3., "pix")
        if maybe(rng, 0.3):
            dk["boundary"] = "fill"
        kw["delvar_kwargs"] = dk
        if maybe(rng, 0.3):
            kw["delvar2_kwargs"] = dict(dk, nan_treatment="interpolate")
        if maybe(rng, 0.3):
            kw["diam_ratio"] = 1.8
        if not f.get("narrow"):
            if maybe(rng, 0.15):
                del kw["lags"]
            if maybe(rng, 0.2):
                kw["use_common_lags"] = False
                if "lags" in kw and maybe(rng, 0.6):
                    kw["lags2"] = Q([3., 4.5, 6.5, 8.5], "pix")
        return kw

    def side(self, data, item, inp):
        import turbustat.statistics as S
        return S.DeltaVariance(data, diam_ratio=inp["kw"].get("diam_ratio",
                                                              1.5))


class Wavelet_Distance(Dist):
    name = "Wavelet_Distance"
    stat = "Wavelet"
    shape = (24, 24)

    def kw(self, rng, f, d):
        kw = {"scales": Q([1.5, 2.0, 3.0, 4.0, 6.0], "pix")}
        if not f.get("narrow") and maybe(rng, 0.2):
            kw = {"num": 7}
        fk = {"show_progress": False}
        if maybe(rng, 0.4):
            kw["xlow"] = Q(2., "pix")
        if maybe(rng, 0.3):
            kw["xhigh"] = Q(8., "pix")
        if maybe(rng, 0.4):
            fk["fit_kwargs"] = {"weighted_fit": True}
        kw["fit_kwargs"] = fk
        if maybe(rng, 0.3):
            kw["fit_kwargs2"] = dict(fk, scale_normalization=False)
        return kw

    def side(self, data, item, inp):
        import turbustat.statistics as S
        return S.Wavelet(data, scales=inp["kw"].get("scales"))


class SCF_Distance(Dist):
    name = "SCF_Distance"
    stat = "SCF"
    ndim = 3
    shape = (10, 13, 14)

    def gen(self, rng, f):
        it = Dist.gen(self, rng, f)
        if maybe(rng, 0.2):
            it["data"]["data2"]["scale"] = rng.choice([1.5, 0.8])
        return it

    def kw(self, rng, f, d):
        return {"size": rng.choice([5, 7, 6]), "show_progress": False,
                "boundary": rng.choice(["continuous", "cut",
                                        ["cut", "continuous"]])}

    def metric(self, rng):
        return dict(_plotkw(rng), weighted=rng.choice([True, False]))

    def side(self, data, item, inp):
        import turbustat.statistics as S
        import astropy.units as u
        n = item["kw"]["size"]
        n -= (n % 2 == 0)
        return S.SCF(data, roll_lags=(np.arange(n) - n // 2) * u.pix)


class PCA_Distance(Dist):
    name = "PCA_Distance"
    stat = "PCA"
    ndim = 3
    shape = (14, 10, 12)

    def kw(self, rng, f, d):
        return {"n_eigs": rng.choice([4, 6, 9]),
                "mean_sub": rng.choice([True, False])}


class Genus_Distance(Dist):
    name = "Genus_Distance"
    shape = (20, 22)

    def kw(self, rng, f, d):
        kw = {}
        if maybe(rng, 0.6):
            kw["smoothing_radii"] = rng.choice([{"__arr__": [1.0]},
                                                {"__arr__": [1.0, 2.0]}])
        if maybe(rng, 0.4):
            kw["lowdens_percent"] = rng.choice([10, [5, 15]])
        if maybe(rng, 0.3):
            kw["highdens_percent"] = rng.choice([90, [95, 85]])
        if maybe(rng, 0.3):
            kw["numpts"] = 40
        if maybe(rng, 0.2):
            kw["min_value"] = rng.choice([0.2, [0.2, 0.3]])
        if maybe(rng, 0.2):
            kw["max_value"] = rng.choice([5.0, [5.0, 6.0]])
        gk = {}
        if maybe(rng, 0.5):
            gk["match_kernel"] = True
        if maybe(rng, 0.3):
            gk["min_size"] = 4
        kw["genus_kwargs"] = gk
        if maybe(rng, 0.3):
            kw["genus2_kwargs"] = {"connectivity": 1}
        return kw

    def metric(self, rng):
        return {}


class StatMoments_Distance(Dist):
    name = "StatMoments_Distance"
    stat = "StatMoments"
    shape = (16, 18)

    def gen(self, rng, f):
        it = Dist.gen(self, rng, f)
        it["data"].update(_wts(rng, it["data"]))
        if maybe(rng, 0.2):
            it["data"]["data2"]["scale"] = rng.choice([1.5, 0.8])
        return it

    def kw(self, rng, f, d):
        kw = {"radius": Q(rng.choice([2, 3]), "pix"),
              "periodic1": rng.choice([True, False]),
              "periodic2": rng.choice([True, False])}
        if maybe(rng, 0.5):
            kw["nbins"] = 12
        if not f.get("narrow"):
            if maybe(rng, 0.2):
                kw["min_frac"] = 0.5
        return kw

    def metric(self, rng):
        return dict(_plotkw(rng), **({"nbins": 9} if maybe(rng, .4) else {}))

    def side(self, data, item, inp):
        import turbustat.statistics as S
        return S.StatMoments(data, radius=inp["kw"]["radius"],
                             nbins=inp["kw"].get("nbins"))


class PDF_Distance(Dist):
    name = "PDF_Distance"
    shape = (18, 20)

    def gen(self, rng, f):
        it = Dist.gen(self, rng, f)
        for k in ("data1", "data2"):
            it["data"][k]["dtype"] = "<f8"
        it["data"].update(_wts(rng, it["data"]))
        return it

    def kw(self, rng, f, d):
        kw = {"do_fit": maybe(rng, 0.3)}
        if maybe(rng, 0.4):
            kw["min_val1"] = 0.3
            kw["min_val2"] = 0.4
        if maybe(rng, 0.5):
            kw["normalization_type"] = rng.choice(
                ["normalize_by_mean", "normalize"] if kw["do_fit"] else
                ["standardize", "center", "normalize_by_mean"])
        if maybe(rng, 0.4):
            kw["nbins"] = 14
        if maybe(rng, 0.2):
            kw["bin_min"] = 0.05
        if maybe(rng, 0.2):
            kw["bin_max"] = 4.0
        return kw

    def metric(self, rng):
        return {"statistic": rng.choice(["all", "all", "hellinger", "ks",
                                         "lognormal"])}


class Dendrogram_Distance(Dist):
    name = "Dendrogram_Distance"
    stat = "Dendrogram_Stats"
    shape = (24, 24)

    def gen(self, rng, f):
        it = Dist.gen(self, rng, f)
        for k in ("data1", "data2"):
            it["data"][k]["nans"] = "none"
        return it

    def kw(self, rng, f, d):
        kw = {"min_deltas": {"__arr__": [float(x) for x in
                                         np.linspace(0.02, 0.8, 8)]},
              "min_features": rng.choice([2, 3]),
              "dendro_params": {"min_npix": 2, "min_value": 0.05,
                                "min_delta": 0.02},
              "nbins": rng.choice(["best", 5, 8])}
        if maybe(rng, 0.6):
            kw["dendro_kwargs"] = {"fit_kwargs": {"size": 3}}
            if maybe(rng, 0.4):
                kw["dendro_kwargs"]["make_hists"] = False
            if maybe(rng, 0.3):
                kw["dendro2_kwargs"] = {"periodic_bounds": False}
        return kw

    def side(self, data, item, inp):
        import turbustat.statistics as S
        return S.Dendrogram_Stats(data, min_deltas=inp["kw"]["min_deltas"],
                                  dendro_params=inp["kw"]["dendro_params"])


class Cramer_Distance(Dist):
    name = "Cramer_Distance"
    ndim = 3
    shape = (8, 12, 12)

    def gen(self, rng, f):
        it = Dist.gen(self, rng, f)
        if maybe(rng, 0.5):
            it["data"][rng.choice(["data1", "data2"])]["shape"] = [8, 13, 14]
        fmt = rng.choice([None, "intensity", "spectra"])
        if fmt:
            it["format"] = {"data_format": fmt,
                            "seed": rng.choice([5, 13024, 0]),
                            "normalize": rng.choice([True, False])}
            if fmt == "spectra":
                it["format"]["num_spec"] = 20
            else:
                it["format"]["p"] = 0.3
        return it

    def kw(self, rng, f, d):
        return compact({"noise_value1": 0.05 if maybe(rng, 0.4) else None,
                        "noise_value2": 0.05 if maybe(rng, 0.4) else None})

    def metric(self, rng):
        return {"normalize": rng.choice([True, False]), "n_jobs": 1}

    def ask(self, obj, item, inp, **over):
        if item.get("format"):
            obj.format_data(**decode(item["format"]))
            return obj.cramer_statistic(n_jobs=inp["metric"].get("n_jobs", 1))
        return Dist.ask(self, obj, item, inp, **over)


DISTS = {}
for _c in (PSpec_Distance, MVC_Distance, VCA_Distance, VCS_Distance,
           Bispectrum_Distance, DeltaVariance_Distance, Wavelet_Distance,
           SCF_Distance, PCA_Distance, Genus_Distance, StatMoments_Distance,
           PDF_Distance, Dendrogram_Distance, Cramer_Distance):
    DISTS[_c.name] = _c()


# ------------------------------------------------------------------ functions
def _fields(kw):
    import astropy.units as u
    rs = np.random.RandomState(kw["seed"])
    sh = tuple(kw["shape"])
    vel = rs.normal(0, 1.2, size=sh)
    vel = (vel + np.roll(vel, 1, 0) + np.roll(vel, 1, 1)) * u.km / u.s
    dens = rs.uniform(0.5, 3.0, size=sh) * u.cm ** -3
    los = kw["opt"].get("los_axis", 0)
    for sp in kw.get("special", ()):
        # unusual sight-lines: empty, holed, static, out of the window, huge
        at = [rs.randint(0, n) for n in sh]
        at[los] = slice(None)
        at = tuple(at)
        if sp == "empty":
            dens[at] = 0 * dens.unit
        elif sp == "hole":
            dens[at] = np.where(rs.uniform(size=sh[los]) < .6, 0,
                                dens[at].value) * dens.unit
        elif sp == "static":
            vel[at] = 0.4 * vel.unit
        elif sp == "fast":
            vel[at] = vel[at] * 6
        elif sp == "dense":
            dens[at] = dens[at] * 1e4
        elif sp == "same":
            vel[...] = vel[at].reshape([-1 if i == los else 1
                                        for i in range(3)])
    if kw.get("vunit"):
        vel = vel.to(kw["vunit"])
    if kw.get("dunit"):
        dens = dens.to(kw["dunit"])
    if kw.get("dtype"):
        vel = vel.astype(kw["dtype"])
        dens = dens.astype(kw["dtype"])
    if kw.get("layout"):
        vel = u.Quantity(place(vel.value, kw["layout"]), vel.unit, copy=False)
        dens = u.Quantity(place(dens.value, kw["layout"]), dens.unit,
                          copy=False)
    return vel, dens


def gen_ppv(rng, threads=None):
    kw = {"seed": rng.randrange(10 ** 6),
          "shape": rng.choice([[6, 4, 5], [4, 6, 5], [5, 5, 5], [8, 3, 4],
                               [4, 1, 3], [5, 7, 2]]),
          "opt": {}}
    o = kw["opt"]
    o["los_axis"] = rng.choice([0, 0, 1, 2])
    if maybe(rng, 0.5):
        o["chan_width"] = Q(rng.choice([0.5, 0.8]), "km/s")
    if maybe(rng, 0.3):
        o["v_min"] = Q(-8., "km/s")
        o["v_max"] = Q(7., "km/s")
    if maybe(rng, 0.3):
        o["T"] = Q(rng.choice([20., 400.]), "K")
    if maybe(rng, 0.3):
        o["vel_disp"] = Q(1500., "m/s")
    if maybe(rng, 0.3):
        o["los_length"] = Q(3., "pc")
    if maybe(rng, 0.4):
        o["return_hdu"] = False
    if maybe(rng, 0.1):
        o["vel_struct_index"] = 0.33
    if maybe(rng, 0.06):
        kw["shape"] = rng.choice([[5, 11, 12], [12, 5, 11], [9, 9, 10]])
    if maybe(rng, 0.25):
        kw["special"] = [rng.choice(["empty", "hole", "static", "fast",
                                     "dense", "same"])
                         for _ in range(rng.choice([1, 2, 4]))]
    if maybe(rng, 0.15):
        kw["vunit"] = rng.choice(["m/s", "cm/s"])
    if maybe(rng, 0.15):
        kw["dunit"] = "m-3"
    if threads:
        o["threads"] = threads
    return kw


def make_ppv_inputs(kw):
    vel, dens = _fields(kw)
    return {"vel_field": vel, "dens_field": dens, "opt": decode(kw["opt"])}


def call_ppv(inp):
    from turbustat.simulator import make_ppv
    return make_ppv(inp["vel_field"], inp["dens_field"], **inp["opt"])


def _arr2(kw, off=0):
    return raw_array({"ndim": 2, "shape": kw["shape"],
                      "seed": kw["seed"] + off, "nans": kw.get("nans", "none"),
                      "dtype": kw.get("dtype", "<f8"),
                      "layout": kw.get("layout"), "jiggle": kw.get("jiggle")})


def _gen2(rng, **k):
    out = {"shape": rng.choice([[16, 16], [17, 17], [16, 20]]),
           "seed": rng.randrange(10 ** 6),
           "nans": rng.choice(["none", "none", "scatter"]),
           "dtype": rng.choice(["<f8", "<f8", "<f4"])}
    out.update(k)
    return out


def _cube(kw):
    from spectral_cube import SpectralCube
    d = {"ndim": 3, "shape": kw["shape"], "seed": kw["seed"],
         "nans": kw.get("nans", "none"), "dtype": kw.get("dtype", "<f8"),
         "layout": kw.get("layout"), "jiggle": kw.get("jiggle")}
    from astropy.io import fits
    return SpectralCube.read(fits.PrimaryHDU(raw_array(d), make_header(d)))


def _ols(kw):
    import statsmodels.api as sm
    rs = np.random.RandomState(kw["seed"])
    x = np.linspace(0, 1, 12)
    y = 2 * x + rs.normal(0, .1, 12)
    X = sm.add_constant(x)
    cl = {"OLS": sm.OLS, "WLS": sm.WLS}[kw["model"]]
    return cl(y, X).fit()


def _seed(rng):
    return rng.choice([0, 1, 2 ** 32 - 2] + [rng.randrange(10 ** 6)] * 7)


class F(object):
    """name, gen(rng)->kw, make(kw)->inputs, call(inputs), rng-free?"""
    def __init__(self, gen, make, call, rngfree=True):
        self.gen, self.make, self.call = gen, make, call
        self.rngfree = rngfree


def _imp(path):
    mod, name = path.rsplit(".", 1)
    import importlib
    return getattr(importlib.import_module("turbustat." + mod), name)


def _simple(path, mk, order, gen=_gen2):
    return F(gen, mk, lambda inp: _imp(path)(
        *[inp[o] for o in order], **inp.get("opt", {})))


def _opts(opt):
    return lambda rng: dict(_gen2(rng), opt=opt(rng))


FUNCS = {
    "make_ppv": F(gen_ppv, make_ppv_inputs, call_ppv),
    "make_3dfield": F(
        lambda rng: {"opt": {"powerlaw": rng.choice([2.0, 3.7]),
                             "amp": rng.choice([1.0, 2.5]),
                             "ellip": 1.0, "return_fft": maybe(rng, .15),
                             "randomseed": _seed(rng)},
                     "n": rng.choice([8, 9, 12])},
        lambda kw: {"n": kw["n"], "opt": dict(
            (k, v) for k, v in kw["opt"].items() if k != "ellip")},
        lambda inp: _imp("simulator.make_3dfield")(inp["n"], **inp["opt"])),
    "make_extended": F(
        lambda rng: {"opt": {"powerlaw": rng.choice([2.0, 3.7]),
                             "ellip": rng.choice([1.0, 0.5]),
                             "theta": 0.7, "return_fft": maybe(rng, 0.2),
                             "full_fft": maybe(rng, .7),
                             "randomseed": _seed(rng)},
                     "n": rng.choice([16, 17, 24])},
        lambda kw: {"n": kw["n"], "opt": dict(kw["opt"])},
        lambda inp: _imp("simulator.make_extended")(inp["n"], **inp["opt"])),
    "threeD_pspec": F(
        lambda rng: {"seed": rng.randrange(10 ** 6), "shape": [10, 10, 10]},
        lambda kw: {"arr": np.random.RandomState(kw["seed"]).normal(
            size=kw["shape"])},
        lambda inp: _imp("simulator.threeD_pspec.threeD_pspec")(inp["arr"])),
    "input_data": F(
        lambda rng: dict(gen_data(rng, rng.choice([2, 3])),
                         need_copy=maybe(rng, 0.5), no_header=maybe(rng, .4)),
        lambda kw: {"data": make_data(kw), "opt":
                    {"need_copy": kw["need_copy"],
                     "no_header": kw["no_header"]}},
        lambda inp: _imp("io.input_data")(inp["data"], **inp["opt"])),
    "moment_errors": F(
        lambda rng: {"shape": [12, 8, 9], "seed": rng.randrange(10 ** 6),
                     "nans": rng.choice(["none", "scatter"]),
                     "which": rng.choice(["moment0_error", "moment1_error",
                                          "moment2_error",
                                          "linewidth_sigma_err"]),
                     "how": rng.choice(["slice", "cube", "auto"]),
                     "map": maybe(rng, .25)},
        lambda kw: {"cube": _cube(kw), "which": kw["which"],
                    "how": kw["how"], "scale":
                    _cube(dict(kw, nans="none")) * 0.05 if kw["map"]
                    else decode(Q(0.05, "K"))},
        lambda inp: _imp("moments._moment_errs." + inp["which"])(
            inp["cube"], inp["scale"], how=inp["how"])),
    "find_beam_width": F(
        lambda rng: {"beam": rng.choice([2.0, 4.0]), "shape": [12, 12],
                     "ndim": 2},
        lambda kw: {"hdr": make_header(kw)},
        lambda inp: _imp("io.find_beam_width")(inp["hdr"])),
    "intensity_data": F(
        lambda rng: {"shape": [8, 10, 10], "seed": rng.randrange(10 ** 6),
                     "ndim": 3, "nans": rng.choice(["none", "point"]),
                     "p": 0.3, "norm": maybe(rng, .5)},
        lambda kw: {"cube": raw_array(kw), "opt": {"p": kw["p"],
                                                   "norm": kw["norm"]}},
        lambda inp: _imp("statistics.threeD_to_twoD.intensity_data")(
            inp["cube"], **inp["opt"])),
    "var_cov_cube": F(
        lambda rng: {"shape": [9, 10, 10], "seed": rng.randrange(10 ** 6),
                     "ndim": 3, "nans": rng.choice(["none", "point"]),
                     "mean_sub": maybe(rng, .5)},
        lambda kw: {"cube": raw_array(kw), "opt":
                    {"mean_sub": kw["mean_sub"], "progress_bar": False}},
        lambda inp: _imp("statistics.threeD_to_twoD.var_cov_cube")(
            inp["cube"], **inp["opt"])),
    "pspec": F(
        lambda rng: _gen2(rng, nans="none", opt=compact(
            {"logspacing": maybe(rng, .5), "return_stddev": maybe(rng, .7),
             "theta_0": Q(rng.choice([.4, 1.5, 3.0]), "rad")
             if maybe(rng, .5) else None,
             "nbins": 9 if maybe(rng, .3) else None,
             "delta_theta": Q(1.2, "rad")})),
        lambda kw: {"psd": _arr2(kw), "opt": decode(kw["opt"])},
        lambda inp: _imp("statistics.psds.pspec")(inp["psd"], **inp["opt"])),
    "rfft_to_fft": F(
        lambda rng: _gen2(rng, nans="none", opt=compact(
            {"use_pyfftw": maybe(rng, .4), "keep_rfft": maybe(rng, .3)})),
        lambda kw: {"image": _arr2(kw), "opt": decode(kw["opt"])},
        lambda inp: _imp("statistics.rfft_to_fft.rfft_to_fft")(
            inp["image"], **inp["opt"])),
    "data_normalization": F(
        lambda rng: _gen2(rng, norm=rng.choice(
            ["standardize", "center", "normalize", "normalize_by_mean"])),
        lambda kw: {"x": _arr2(kw), "norm": kw["norm"]},
        lambda inp: _imp("statistics.stats_utils.data_normalization")(
            inp["x"], inp["norm"])),
    "common_histogram_bins": F(
        lambda rng: _gen2(rng, opt=compact(
            {"nbins": rng.choice([None, 9]), "return_centered": True,
             "logscale": True if maybe(rng, .3) else None,
             "min_val": 0.2 if maybe(rng, .3) else None,
             "max_val": 4.0 if maybe(rng, .3) else None})),
        lambda kw: {"a": _arr2(kw).ravel(), "b": _arr2(kw, 1).ravel(),
                    "opt": dict(kw["opt"])},
        lambda inp: _imp("statistics.stats_utils.common_histogram_bins")(
            inp["a"], inp["b"], **inp["opt"])),
    "hellinger": F(
        _gen2, lambda kw: {"a": _arr2(kw).ravel(), "b": _arr2(kw, 1).ravel()},
        lambda inp: _imp("statistics.stats_utils.hellinger")(inp["a"],
                                                             inp["b"])),
    "kl_divergence": F(
        lambda rng: _gen2(rng, nans="none"),
        lambda kw: {"a": _arr2(kw).ravel(), "b": _arr2(kw, 1).ravel()},
        lambda inp: _imp("statistics.stats_utils.kl_divergence")(inp["a"],
                                                                 inp["b"])),
    "fourier_shift": F(
        lambda rng: _gen2(rng, shift=rng.choice([1.0, 0.5, -2.3]),
                          axis=rng.choice([0, 1])),
        lambda kw: {"x": _arr2(kw), "s": kw["shift"], "axis": kw["axis"]},
        lambda inp: _imp("statistics.stats_utils.fourier_shift")(
            inp["x"], inp["s"], axis=inp["axis"])),
    "pixel_shift": F(
        lambda rng: _gen2(rng, shift=rng.choice([1, -2]),
                          axis=rng.choice([0, 1])),
        lambda kw: {"x": _arr2(kw), "s": kw["shift"], "axis": kw["axis"]},
        lambda inp: _imp("statistics.stats_utils.pixel_shift")(
            inp["x"], inp["s"], axis=inp["axis"])),
    "EllipseModel": F(
        lambda rng: {"seed": rng.randrange(10 ** 6)},
        lambda kw: {"xy": _ellipse(kw)},
        lambda inp: _ell(inp)),
    "residual_bootstrap": F(
        lambda rng: {"seed": rng.randrange(10 ** 6),
                     "model": rng.choice(["OLS", "WLS"]),
                     "opt": compact(
                         {"nboot": 8, "seed": rng.choice([0, 3, 38574895,
                                                          2 ** 32 - 1]),
                          "return_samps":
                          True if maybe(rng, .3) else None})},
        lambda kw: {"fit": _ols(kw), "opt": dict(kw["opt"])},
        lambda inp: _imp("statistics.fitting_utils.residual_bootstrap")(
            inp["fit"], **inp["opt"])),
    "leastsq_linear": F(
        lambda rng: {"seed": rng.randrange(10 ** 6)},
        lambda kw: _xy(kw),
        lambda inp: _imp("statistics.fitting_utils.leastsq_linear")(
            inp["x"], inp["y"], inp["xe"], inp["ye"])),
    "Lm_Seg": F(
        lambda rng: {"seed": rng.randrange(10 ** 6),
                     "brk": rng.choice([0.5, 0.2]),
                     "weights": maybe(rng, .4), "opt": compact(
                         {"tol": 1e-2 if maybe(rng, .3) else None,
                          "iter_max": 50 if maybe(rng, .3) else None})},
        lambda kw: _xybrk(kw),
        lambda inp: _lmseg(inp)),
    "TukeyWindow": F(
        lambda rng: {"shape": rng.choice([[12, 12], [13, 11]]),
                     "cls": rng.choice(["TukeyWindow", "CosineBellWindow"])},
        lambda kw: {"shape": tuple(kw["shape"]), "cls": kw["cls"]},
        lambda inp: _imp("statistics.apodizing_kernels." + inp["cls"])(
            0.3)(inp["shape"])),
    "spectral_regrid_cube": F(
        lambda rng: dict({"shape": [12, 8, 9], "seed": rng.randrange(10 ** 6),
                  "nans": rng.choice(["none", "scatter"])},
                 **rng.choice([
                     {"width": rng.choice([2, 3, Q(2., "pix"),
                                           Q(900., "m/s")]), "opt": {}},
                     {"width": rng.choice([Q(2., "pix"), Q(900., "m/s"),
                                           Q(1., "pix")]),
                      "opt": {"method": "regrid",
                              "allow_huge_operations": True}}])),
        lambda kw: _regrid(kw), lambda inp: _regridded(inp)),
    "create_image_header": F(
        lambda rng: {"shape": [6, 7], "w": rng.choice([1., 2.]),
                     "seed": rng.randrange(10 ** 6)},
        lambda kw: {"a": decode([Q(kw["w"], "arcmin"), Q(3., "arcmin")]) +
                    [tuple(kw["shape"])] + decode([Q(1.4, "GHz"),
                                                   {"__unit__": "K"}]),
                    "data": np.random.RandomState(kw["seed"]).normal(
                        size=kw["shape"])},
        lambda inp: _imghdr(inp)),
    "WidthEstimate": F(
        lambda rng: dict({"seed": rng.randrange(10 ** 6)}, **rng.choice(
            [{"which": "1D", "opt": {"method": rng.choice(
                ["walk-down", "fit", "interpolate"])}},
             {"which": "2D", "opt": {"method": rng.choice(
                 ["fit", "interpolate", "xinterpolate"]),
                 "brunt_beamcorrect": False}}])),
        lambda kw: _acfs(kw), lambda inp: _widths(inp)),
    "create_cube_header": F(
        lambda rng: {"shape": [5, 6, 7], "dv": rng.choice([0.5, 1.2])},
        lambda kw: {"a": decode([Q(1., "arcmin"), Q(kw["dv"], "km/s"),
                                 Q(3., "arcmin")]),
                    "shape": tuple(kw["shape"]),
                    "b": decode([Q(1.4, "GHz"), {"__unit__": "K"}])},
        lambda inp: _imp("io.sim_tools.create_cube_header")(
            *(inp["a"] + [inp["shape"]] + inp["b"]),
            v0=inp["a"][1] * 0)),
}


def _ellipse(kw):
    rs = np.random.RandomState(kw["seed"])
    t = np.linspace(0, 6, 24)
    return np.column_stack([4 * np.cos(t), 2 * np.sin(t)]) + \
        rs.normal(0, .05, (24, 2))


def _ell(inp):
    m = _imp("statistics.stats_utils.EllipseModel")()
    ok = m.estimate(inp["xy"])
    return [ok, list(m.params), m.residuals(inp["xy"]),
            m.predict_xy(np.linspace(0, 3, 7))]


def _xy(kw):
    rs = np.random.RandomState(kw["seed"])
    x = np.linspace(0.1, 2, 14)
    return {"x": x, "y": 1.4 * x + rs.normal(0, .05, 14),
            "xe": np.full(14, .05), "ye": np.full(14, .06)}


def _xybrk(kw):
    rs = np.random.RandomState(kw["seed"])
    x = np.linspace(-1, 2, 20)
    y = np.where(x < .5, -1. * x, -2.5 * (x - .5) - .5) + \
        rs.normal(0, .02, 20)
    return {"x": x, "y": y, "brk": kw["brk"], "opt": dict(kw["opt"]),
            "weights": rs.uniform(.5, 2., 20) if kw["weights"] else None}


def _lmseg(inp):
    m = _imp("statistics.lm_seg.Lm_Seg")(inp["x"], inp["y"], inp["brk"],
                                         weights=inp["weights"])
    m.fit_model(verbose=False, **inp["opt"])
    return [m.brk, m.brk_err, m.slopes, m.slope_errs, m.params,
            m.param_errs, m.model(np.linspace(-1, 2, 5))]


def _regrid(kw):
    return {"cube": _cube(kw), "width": decode(kw["width"]),
            "opt": dict(kw["opt"])}


def _regridded(inp):
    c = _imp("statistics.vca_vcs.slice_thickness.spectral_regrid_cube")(
        inp["cube"], inp["width"], **inp["opt"])
    return [c.filled_data[:], c.spectral_axis, c.header]


def _imghdr(inp):
    h = _imp("io.sim_tools.create_image_header")(*inp["a"])
    return [h, _imp("io.sim_tools.create_fits_hdu")(inp["data"], *inp["a"])]


def _widths(inp):
    f = _imp("statistics.pca.WidthEstimate" + inp["which"])
    return f(inp["arrays"], **inp["opt"])


def _acfs(kw):
    rs = np.random.RandomState(kw["seed"])
    if kw["which"] == "1D":
        x = np.arange(24.) - 12
        arrs = [np.exp(-(x / w) ** 2) * np.cos(x / w) +
                rs.normal(0, .01, 24) for w in (3., 4., 6.)]
        arrs = np.array([np.roll(a, 12) for a in arrs]).T
    else:
        yy, xx = np.indices((24, 24)) - 12
        arrs = [np.exp(-(yy / w) ** 2 - (xx / w / 1.2) ** 2) +
                rs.normal(0, .005, (24, 24)) for w in (3., 4., 5.)]
        arrs = [np.roll(np.roll(a, 12, 0), 12, 1) for a in arrs]
    return {"arrays": np.array(arrs), "which": kw["which"], "opt": dict(kw["opt"])}


def _dendro(kw):
    from astrodendro import Dendrogram
    a = _arr2(kw)
    return {"data": (a, make_header(dict(kw, ndim=2))),
            "dendro_obj": Dendrogram.compute(a, min_value=0.05, min_npix=2,
                                             min_delta=0.02, verbose=False)}


def _use_dendro(inp):
    st = _imp("statistics.Dendrogram_Stats")(
        inp["data"], min_deltas=np.linspace(0.02, 0.8, 6))
    st.compute_dendro(dendro_obj=inp["dendro_obj"])
    return [st.numfeatures, [np.sort(v) for v in st.values]]


# only used where named (the request edits the object it is given)
EXTRA = {"dendro_obj": F(lambda rng: _gen2(rng, nans="none", dtype="<f8"),
                         _dendro, _use_dendro)}


def _bayes(inp):
    return _imp("statistics.fitting_utils.bayes_linear")(
        inp["x"], inp["y"], inp["xe"], inp["ye"], nWalkers=6, nBurn=4,
        nSample=12)


# these draw from the caller's random stream
FUNCS_RNG = {
    "pspec_boot": F(
        lambda rng: _gen2(rng, nans="none", opt={
            "logspacing": maybe(rng, .5), "return_stddev": True,
            "boot_iter": 5}),
        lambda kw: {"psd": _arr2(kw), "opt": decode(kw["opt"])},
        lambda inp: _imp("statistics.psds.pspec")(inp["psd"], **inp["opt"])),
    "bayes_linear": F(lambda rng: {"seed": rng.randrange(10 ** 6)}, _xy,
                      _bayes),
}
FUNCS_ALL = dict(FUNCS, **EXTRA)
FUNCS_ALL.update(FUNCS_RNG)


# ------------------------------------------------------------------ interface
_S = ["stat:" + s for s in C.STAT_NAMES]
KINDS = _S + ["dist:" + d for d in DISTS] + ["func:" + f for f in FUNCS] + _S


KINDS_RNG = ["func:" + f for f in FUNCS_RNG]


def gen(rng, which=None, f=None):
    f = f or {}
    which = which or rng.choice(KINDS)
    kind, name = which.split(":")
    if kind == "stat":
        spec = C.gen_spec(rng, name, f)
        return {"kind": "stat", "spec": spec,
                "prog": C.gen_program(rng, spec, dict(f, oneshot=True))}
    if kind == "dist":
        return DISTS[name].gen(rng, f)
    return {"kind": "func", "func": name, "kw": FUNCS_ALL[name].gen(rng)}


def name(item):
    return {"stat": lambda: item["spec"]["stat"],
            "dist": lambda: item["dist"],
            "func": lambda: item["func"]}[item["kind"]]()


def make(item):
    if item["kind"] == "stat":
        inp = C.make_inputs(item["spec"])
        inp["prog"] = [[m, decode(kw)] for m, kw in item["prog"]]
        return inp
    if item["kind"] == "dist":
        return DISTS[item["dist"]].make(item)
    return FUNCS_ALL[item["func"]].make(item["kw"])


def run(item, inp, sides=False, last=None):
    """-> dict of canonical observations.  Exceptions propagate.  `last`: a
    context for the last call only."""
    from .work import ret_canon
    if item["kind"] == "stat":
        obj = C.build(item["spec"], inp)
        outs = []
        for i, (m, kw) in enumerate(inp["prog"]):
            with (last if last is not None and i == len(inp["prog"]) - 1
                  else contextlib.nullcontext()):
                o = C.call(obj, m, kw)
            outs.append(ret_canon(obj, ("ok", o)))
        return dict(U.observe(obj), **{"<returns>": tuple(outs)})
    if item["kind"] == "dist":
        d = DISTS[item["dist"]]
        obj = d.construct(item, inp)
        for _ in range(item.get("asks", 1)):
            d.ask(obj, item, inp)
        out = d.observe(obj)
        if sides:
            out.update(d.observe_sides(obj))
        return out
    return {"<returns>": U.canon(FUNCS_ALL[item["func"]].call(inp))}


def more(rng, item, f):
    """The same object used on: settings, another program, saving."""
    if item["kind"] == "dist":
        if rng.random() < .3:
            item["asks"] = 2
        return item
    if item["kind"] != "stat" or rng.random() < .6:
        return item
    spec = item["spec"]
    prog = list(item["prog"])
    if rng.random() < .5:
        prog += [[k[:-2], v] if k.endswith("()") else ["=" + k, {"value": v}]
                 for k, v in C.gen_sets(rng, spec)]
    if rng.random() < .7:
        prog += C.gen_program(rng, spec, f)
    if rng.random() < .4 and spec["stat"] in C.SAVABLE:
        prog.append(["save_results", {"output_name": "@s",
                                      "keep_data": rng.random() < .5}])
    return dict(item, prog=prog)


def brief(item):
    if item["kind"] == "stat":
        from .work import brief as b
        return b(item["spec"], item["prog"])
    return item
