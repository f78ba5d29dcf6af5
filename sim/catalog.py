"""Workload catalogue: every public statistic, with seeded random data,
constructor options and programs (sequences of public method calls).

A *spec* describes one statistic object:
    {"stat": name, "data": {role: data plan}, "init": {kw: encoded value}}
A *program* is a list of [method, {kw: encoded value}].
`rngfree` programs draw nothing from the caller's (unseeded) random stream.
"""
import numpy as np

from .data import (Q, decode, gen_cards, gen_data, make_data, make_weights, make_header,
                   raw_array, rng_of)

FLOATS = ["<f8", "<f8", "<f8", "<f4", ">f4", ">f8"]


def maybe(rng, p):
    return rng.random() < p


def compact(d):
    return dict((k, v) for k, v in d.items() if v is not None)


def _order(rng, vals, p=.25):
    """Most callers hand in ascending lists."""
    vals = list(vals)
    if maybe(rng, p):
        vals = vals[::-1]
        if maybe(rng, .5):
            vals = vals[1:] + vals[:1]
    return vals


# ---------------------------------------------------------------- options
APOD = [None, None, None, "hanning", "tukey", "cosinebell",
        "splitcosinebell"]


def _apod(rng):
    k = rng.choice(APOD)
    if k is None:
        return {}
    out = {"apodize_kernel": k}
    if k in ("tukey", "cosinebell"):
        out["alpha"] = rng.choice([0.2, 0.5])
    if k == "splitcosinebell":
        out["alpha"] = 0.3
        out["beta"] = rng.choice([0.1, 0.4])
    return out


def _fftw(rng, f):
    if f.get("nofftw") or not maybe(rng, 0.25):
        return {}
    out = {"use_pyfftw": True, "threads": rng.choice([1, 2])}
    if maybe(rng, 0.6):
        out["pyfftw_kwargs"] = rng.choice(
            [{"threads": 1}, {"planner_effort": "FFTW_ESTIMATE"},
             {"threads": 2, "planner_effort": "FFTW_ESTIMATE"}])
    return out


def _boot(rng):
    if maybe(rng, 0.3):
        return {"bootstrap": True,
                "bootstrap_kwargs": rng.choice([{"nboot": 8},
                                                {"nboot": 6, "seed": 11},
                                                {"nboot": 6, "seed": 0}])}
    return {}


def _fit_kwargs(rng):
    out = {}
    if maybe(rng, 0.35):
        out["brk"] = Q(rng.choice([0.12, 0.2, 0.3]), "1/pix")
        out["min_fits_pts"] = rng.choice([3, 10])
    if maybe(rng, 0.25):
        out["weighted_fit"] = True
    out.update(_boot(rng))
    return out


def _cuts(rng):
    out = {}
    if maybe(rng, 0.4):
        out["low_cut"] = Q(rng.choice([0.05, 0.08]), "1/pix")
    if maybe(rng, 0.4):
        out["high_cut"] = Q(rng.choice([0.4, 0.5, 0.3]), "1/pix")
    return out


def _fit2d(rng, f):
    if maybe(rng, 0.5):
        return {"fit_2D": False}
    kw = {"bootstrap": False}
    if not f.get("rngfree") and maybe(rng, 0.3):
        kw = {"bootstrap": True, "niters": 3}
    if kw["bootstrap"] and maybe(rng, 0.3):
        kw["fix_ellip_params"] = True
    if maybe(rng, 0.2):
        kw["radial_weighting"] = True
    return {"fit_2D": True, "fit_2D_kwargs": kw}


def _radial(rng):
    out = {}
    if maybe(rng, 0.3):
        out["logspacing"] = True
    if maybe(rng, 0.2):
        out["max_bin"] = 0.45
    if maybe(rng, 0.25):
        out["theta_0"] = Q(rng.choice([0.3, 1.0]), "rad")
        out["delta_theta"] = Q(1.2, "rad")
    if maybe(rng, 0.15):
        out["binsize"] = 1.5
    return out


def _pspec_run(rng, f, beam):
    kw = {}
    kw.update(_apod(rng))
    kw.update(_fftw(rng, f))
    kw.update(_cuts(rng))
    kw.update(_fit2d(rng, f))
    if beam and maybe(rng, 0.5):
        kw["beam_correct"] = True
    if maybe(rng, 0.3):
        kw["radial_pspec_kwargs"] = _radial(rng)
    fk = _fit_kwargs(rng)
    if fk:
        kw["fit_kwargs"] = fk
    if maybe(rng, 0.2):
        kw["fit_unbinned"] = True
        if "fit_kwargs" in kw:
            kw["fit_kwargs"].pop("weighted_fit", None)
    elif maybe(rng, 0.15):
        kw.setdefault("fit_kwargs", {})["fit_unbinned"] = False
    return kw


def _pspec_program(rng, f, beam):
    if maybe(rng, 0.6):
        return [["run", _pspec_run(rng, f, beam)]]
    ck = dict(_apod(rng))
    fw = _fftw(rng, f)
    pk = fw.pop("pyfftw_kwargs", {})
    ck.update(fw)
    ck.update(pk if "use_pyfftw" in fw else {})
    if "threads" in pk:
        ck["threads"] = pk["threads"]
    if beam and maybe(rng, 0.5):
        ck["beam_correct"] = True
    prog = [["compute_pspec", ck]]
    rk = _radial(rng)
    prog.append(["compute_radial_pspec", rk])
    fk = _fit_kwargs(rng)
    fk.update(_cuts(rng))
    prog.append(["fit_pspec", fk])
    if maybe(rng, 0.25):
        fk["fit_unbinned"] = True
        fk.pop("weighted_fit", None)
    if maybe(rng, 0.4):
        k2 = {"bootstrap": False}
        if not f.get("rngfree") and maybe(rng, 0.3):
            k2 = {"bootstrap": True, "niters": 3}
            if maybe(rng, 0.3):
                k2["fix_ellip_params"] = True
        if maybe(rng, 0.25):
            k2["radial_weighting"] = True
        k2.update(_cuts(rng))
        if "theta_0" in rk and maybe(rng, 0.6):
            k2["use_azimmask"] = True
        prog.append(["fit_2Dpspec", k2])
    return prog


def _beamopt(rng):
    return rng.choice([None, None, 3.0])


def _hasbeam(spec):
    d = spec["data"].get("data") or spec["data"]["centroid"]
    return d["beam"] or "beam" in spec["init"]


def _beaminit(rng, out):
    if maybe(rng, 0.2):
        out["beam"] = {"__beam__": rng.choice([2.0, 4.0])}
    return out


def _query(rng, x=None):
    if maybe(rng, 0.3):
        return [["fitted_model", {"xvals": x or {"__arr__": [0.3, 0.5,
                                                             0.8]}}]]
    return []


class Stat(object):
    ndim = 2
    name = None
    weights = False
    savable = True
    header_kw = False         # takes a bare array and header=

    def cls(self):
        import turbustat.statistics as S
        return getattr(S, self.name)

    # -- plans
    def gen_spec(self, rng, f=None):
        f = f or {}
        beam = _beamopt(rng)
        d = gen_data(rng, self.ndim, beam=beam, **self.data_opts(rng, f))
        if self.header_kw and maybe(rng, 0.12):
            d["container"] = "arrhdr"
        spec = {"stat": self.name, "data": {"data": d},
                "init": self.gen_init(rng, f, d)}
        if self.weights and maybe(rng, 0.35):
            spec["data"]["weights"] = {"seed": d["seed"], "shape": d["shape"],
                                       "wnans": maybe(rng, 0.4)}
        return spec

    def data_opts(self, rng, f):
        return {}

    def gen_init(self, rng, f, d):
        out = {}
        if maybe(rng, 0.3):
            out["distance"] = Q(250., "pc")
        return out

    def gen_program(self, rng, spec, f=None):
        raise NotImplementedError

    # -- live
    def make_inputs(self, spec):
        inp = {"data": make_data(spec["data"]["data"])}
        if "weights" in spec["data"]:
            inp["weights"] = make_weights(spec["data"]["weights"])
        if spec["data"]["data"]["container"] == "arrhdr":
            inp["header"] = make_header(spec["data"]["data"])
        inp["init"] = decode(spec["init"])
        return inp

    def build(self, spec, inp):
        kw = dict(inp["init"])
        if "weights" in inp:
            kw["weights"] = inp["weights"]
        if "header" in inp:
            kw["header"] = inp["header"]
        return self.cls()(inp["data"], **kw)


class PowerSpectrum(Stat):
    name = "PowerSpectrum"
    header_kw = True
    weights = True

    def gen_init(self, rng, f, d):
        return _beaminit(rng, Stat.gen_init(self, rng, f, d))

    def gen_program(self, rng, spec, f=None):
        return _pspec_program(rng, f or {}, _hasbeam(spec))


class MVC(Stat):
    name = "MVC"

    def gen_spec(self, rng, f=None):
        beam = _beamopt(rng)
        shape = rng.choice([(24, 24), (32, 32), (25, 25), (24, 28)])
        nans = rng.choice(["none", "none", "edge", "scatter"])
        cont = rng.choice(["hdu", "tuple", "list"])
        dt = rng.choice(["<f8", "<f8", "<f4", ">f4"])
        seed = rng.randrange(10 ** 6)
        data = {}
        for i, role in enumerate(("centroid", "moment0", "linewidth")):
            data[role] = {"ndim": 2, "shape": list(shape), "seed": seed + i,
                          "nans": nans, "container": cont, "dtype": dt,
                          "beam": beam, "slope": 3.0}
            # NaNs must coincide
        for role in ("moment0", "linewidth"):
            data[role]["nanseed"] = seed
        if maybe(rng, 0.3):
            cards = gen_cards(rng, data["centroid"])
            for role in data:
                data[role]["cards"] = cards
        init = {}
        if maybe(rng, 0.3):
            init["distance"] = Q(250., "pc")
        return {"stat": "MVC", "data": data, "init": _beaminit(rng, init)}

    def make_inputs(self, spec):
        from .data import apply_nans
        inp = {}
        for role, d in spec["data"].items():
            d0 = dict(d, nans="none")
            obj = make_data(d0)
            nanseed = spec["data"]["centroid"]["seed"]
            if d["nans"] != "none":
                arr = apply_nans(raw_array(d0), d["nans"], nanseed)
                obj = _with_array(obj, arr, d0)
            inp[role] = obj
        inp["init"] = decode(spec["init"])
        return inp

    def build(self, spec, inp):
        return self.cls()(inp["centroid"], inp["moment0"], inp["linewidth"],
                          **inp["init"])

    def gen_program(self, rng, spec, f=None):
        return _pspec_program(rng, f or {}, _hasbeam(spec))


def _with_array(obj, arr, d):
    from astropy.io import fits
    c = d["container"]
    if c == "hdu":
        return fits.PrimaryHDU(arr, make_header(d))
    if c == "tuple":
        return (arr, make_header(d))
    if c == "list":
        return [arr, make_header(d)]
    from spectral_cube import Projection
    return Projection.from_hdu(fits.PrimaryHDU(arr, make_header(d)))


class VCA(Stat):
    name = "VCA"
    header_kw = True
    ndim = 3

    def data_opts(self, rng, f):
        return {"containers": ["hdu", "hdu", "tuple", "list", "imagehdu",
                               "speccube"]}

    def gen_init(self, rng, f, d):
        out = Stat.gen_init(self, rng, f, d)
        if maybe(rng, 0.25) and d["nans"] == "none":
            out["channel_width"] = rng.choice([2, Q(800., "m/s")])
            if out["channel_width"] != 2 and maybe(rng, 0.4):
                out["downsample_kwargs"] = {"method": "regrid"}
        return _beaminit(rng, out)

    def gen_program(self, rng, spec, f=None):
        return _pspec_program(rng, f or {}, _hasbeam(spec))


class VCS(Stat):
    name = "VCS"
    header_kw = True
    ndim = 3

    def data_opts(self, rng, f):
        return {"shape": rng.choice([(40, 12, 12), (48, 10, 12)]),
                "containers": ["hdu", "hdu", "tuple", "list", "imagehdu"]}

    def gen_init(self, rng, f, d):
        return {}

    def gen_program(self, rng, spec, f=None):
        f = f or {}
        fk = {}
        if maybe(rng, 0.5):
            fk["breaks"] = Q(rng.choice([-0.7, -0.9]), "")
            fk["log_break"] = True
        if maybe(rng, 0.4):
            fk["low_cut"] = Q(0.05, "1/pix")
        if maybe(rng, 0.4):
            fk["high_cut"] = Q(rng.choice([0.4, 0.45]), "1/pix")
        if maybe(rng, 0.3):
            fk["bootstrap"] = True
            fk["nboot"] = 6
        fw = _fftw(rng, f)
        if maybe(rng, 0.6):
            kw = dict(fk)
            kw.update(fw)
            return [["run", kw]]
        ck = {}
        if "use_pyfftw" in fw:
            ck = {"use_pyfftw": True, "threads": fw["threads"]}
        if fk.get("bootstrap") and maybe(rng, 0.3):
            del fk["nboot"]
            fk["bootstrap_kwargs"] = {"nboot": 5, "seed": 9}
        return [["compute_pspec", ck], ["fit_pspec", fk]]


class Bispectrum(Stat):
    name = "Bispectrum"

    def data_opts(self, rng, f):
        return {"shape": rng.choice([(12, 12), (13, 13), (14, 12)]),
                "nans": rng.choice(["none", "none", "none", "point"])}

    def gen_init(self, rng, f, d):
        return {}

    def gen_program(self, rng, spec, f=None):
        f = f or {}
        kw = {"nsamples": rng.choice([10, 10, 20, 60, 110]),
              "show_progress": False}
        if maybe(rng, 0.6):
            kw["seed"] = rng.choice([1, 7, 1000, 424242, 0])
        if maybe(rng, 0.4):
            kw["mean_subtract"] = True
        if not kw.get("mean_subtract"):
            # (the log of the removed mean is rounding noise)
            fw = _fftw(rng, f)
            fw.pop("pyfftw_kwargs", None)
            kw.update(fw)
        prog = [[rng.choice(["run", "run", "compute_bispectrum"]), kw]]
        if maybe(rng, 0.3):
            kw = {"thetas": Q(rng.choice([[0.5, 1.0], [0.8], [1.0, 0.5]]),
                              "rad"),
                  "delta_thetas": Q(rng.choice([0.4, 0.5]), "rad"),
                  "bin_width": rng.choice([1.0, 2.0])}
            if maybe(rng, 0.3):
                kw["value"] = rng.choice(["bispectrum_logamp",
                                          "bicoherence"])
            if maybe(rng, 0.3):
                kw["return_masks"] = True
            prog.append(["radial_slice", kw])
        if maybe(rng, 0.3):
            kw = {"radii": {"__arr__": rng.choice([[3., 5.], [4.],
                                                   [5., 3.]])},
                  "delta_radii": rng.choice([2.0, 1.5]),
                  "bin_width": Q(rng.choice([20., 30.]), "deg")}
            if maybe(rng, 0.3):
                kw["value"] = rng.choice(["bispectrum_logamp",
                                          "bicoherence"])
            if maybe(rng, 0.3):
                kw["return_masks"] = True
            prog.append(["azimuthal_slice", kw])
        return prog


class DeltaVariance(Stat):
    name = "DeltaVariance"
    header_kw = True
    weights = True

    def data_opts(self, rng, f):
        return {"shape": rng.choice([(24, 24), (28, 26), (25, 25)] * 8 +
                                    [(70, 66)])}

    def gen_init(self, rng, f, d):
        out = Stat.gen_init(self, rng, f, d)
        c = rng.randrange(3)
        if c == 0:
            out["nlags"] = rng.choice([5, 8])
        elif c == 1:
            out["lags"] = Q(_order(rng, [3., 4., 6., 8.]), "pix")
        else:
            out["lags"] = Q(_order(rng, [3., 5., 7., 9.]), "arcmin")
        if maybe(rng, 0.3):
            out["diam_ratio"] = 1.8
        return out

    def gen_program(self, rng, spec, f=None):
        f = f or {}
        fk = {}
        if maybe(rng, 0.4):
            fk["xlow"] = Q(rng.choice([3., 4.]), "pix")
        if maybe(rng, 0.4):
            fk["xhigh"] = Q(rng.choice([8., 10.]), "pix")
        if maybe(rng, 0.25):
            fk["brk"] = Q(5., "pix")
        ck = {"show_progress": False,
              "boundary": rng.choice(["wrap", "wrap", "fill"]),
              "nan_treatment": rng.choice(["fill", "fill", "interpolate"])}
        if maybe(rng, 0.2):
            ck["preserve_nan"] = True
        fw = _fftw(rng, f)
        ck.update(fw)
        if maybe(rng, 0.6):
            kw = dict(ck)
            kw.update(fk)
            b = _boot(rng)
            if b:
                kw["fit_kwargs"] = b
            return [["run", kw]]
        if maybe(rng, 0.4):
            ck["keep_convolve_arrays"] = True
        if maybe(rng, 0.3):
            ck["min_weight_frac"] = 0.1
        if maybe(rng, 0.2):
            ck["allow_huge"] = True
        fk.update(_boot(rng))
        return [["compute_deltavar", ck], ["fit_plaw", fk]] + _query(rng)


class Wavelet(Stat):
    name = "Wavelet"
    header_kw = True

    def data_opts(self, rng, f):
        return {"shape": rng.choice([(24, 24), (28, 26), (25, 25)] * 8 +
                                    [(70, 66)])}

    def gen_init(self, rng, f, d):
        out = Stat.gen_init(self, rng, f, d)
        if maybe(rng, 0.5):
            out["num"] = rng.choice([6, 9])
        else:
            out["scales"] = Q(_order(rng, [1.5, 2.0, 3.0, 4.0, 6.0]),
                              rng.choice(["pix", "pix", "arcmin"]))
        return out

    def gen_program(self, rng, spec, f=None):
        f = f or {}
        fk = {}
        if maybe(rng, 0.4):
            fk["xlow"] = Q(2., "pix")
        if maybe(rng, 0.4):
            fk["xhigh"] = Q(8., "pix")
        if maybe(rng, 0.25):
            fk["brk"] = Q(4., "pix")
        extra = {}
        if maybe(rng, 0.3):
            extra["weighted_fit"] = True
        extra.update(_boot(rng))
        ck = {"show_progress": False,
              "scale_normalization": rng.choice([True, True, False])}
        ck.update(_fftw(rng, f))
        if maybe(rng, 0.25):
            ck["convolve_kwargs"] = {"allow_huge": True}
        if maybe(rng, 0.6):
            kw = dict(ck)
            kw.update(fk)
            if extra:
                kw["fit_kwargs"] = extra
            return [["run", kw]]
        if maybe(rng, 0.4):
            ck["keep_convolved_arrays"] = True
        fk.update(extra)
        if maybe(rng, 0.2):
            fk["min_fits_pts"] = 3
        return [["compute_transform", ck], ["fit_transform", fk]] + \
            _query(rng)


class SCF(Stat):
    name = "SCF"
    header_kw = True
    ndim = 3

    def data_opts(self, rng, f):
        return {"shape": rng.choice([(10, 14, 14), (12, 13, 15)])}

    def gen_init(self, rng, f, d):
        out = Stat.gen_init(self, rng, f, d)
        if maybe(rng, 0.7):
            out["size"] = rng.choice([5, 7, 6])
        else:
            out["roll_lags"] = rng.choice(
                [Q([-2., -1., 0., 1., 2.], "pix"),
                 {"__arr__": [-3., -1.5, 0., 1.5, 3.]},
                 Q([-3., -1.5, 0., 1.5, 3.], "arcmin")])
        return out

    def gen_program(self, rng, spec, f=None):
        f = f or {}
        b = rng.choice(["continuous", "continuous", "cut"])
        fk = {}
        if maybe(rng, 0.4):
            fk["xlow"] = Q(rng.choice([0.5, 1.0]), "pix")
        if maybe(rng, 0.4):
            fk["xhigh"] = Q(rng.choice([3., 4.]), "pix")
        rk = {}
        if maybe(rng, 0.25):
            rk = {"theta_0": Q(0.5, "rad"), "delta_theta": Q(1.5, "rad")}
        if maybe(rng, 0.25):
            rk["logspacing"] = True
        boot = {"bootstrap": True, "nboot": 6} if maybe(rng, 0.3) else {}
        k2 = {"bootstrap": False}
        if not f.get("rngfree") and maybe(rng, 0.3):
            k2 = {"bootstrap": True, "niters": 3}
        if maybe(rng, 0.6):
            kw = {"boundary": b, "show_progress": False}
            kw.update(fk)
            if boot:
                kw["fit_kwargs"] = boot
            if rk:
                kw["radialavg_kwargs"] = rk
            if maybe(rng, 0.5):
                kw["fit_2D"] = False
            else:
                kw["fit_2D_kwargs"] = k2
            return [["run", kw]]
        fk1 = dict(fk)
        fk1.update(boot)
        if boot and maybe(rng, 0.3):
            del fk1["nboot"]
            fk1["bootstrap_kwargs"] = {"nboot": 5, "seed": 9}
        prog = [["compute_surface", {"boundary": b, "show_progress": False}],
                ["compute_spectrum", rk], ["fit_plaw", fk1]]
        if maybe(rng, 0.4):
            k3 = dict(fk)
            k3.update(k2)
            if "theta_0" in rk and maybe(rng, 0.6):
                k3["use_azimmask"] = True
            prog.append(["fit_2Dplaw", k3])
        return prog + _query(rng, Q([1., 1.7, 2.2], "pix"))


class PCA(Stat):
    name = "PCA"
    ndim = 3

    def data_opts(self, rng, f):
        return {"shape": rng.choice([(14, 20, 20), (16, 18, 22)] * 12 +
                                    [(36, 24, 26)]),
                "containers": ["hdu", "hdu", "tuple", "list", "imagehdu"]}

    def gen_program(self, rng, spec, f=None):
        f = f or {}
        kw = {"show_progress": False}
        c = rng.randrange(3)
        if c == 0:
            kw.update(n_eigs="auto", min_eigval=rng.choice([0.99, 0.999]),
                      eigen_cut_method="proportion")
        elif c == 1:
            kw.update(n_eigs=rng.choice([4, 6, -1]))
        else:
            kw.update(n_eigs="auto", min_eigval=1e-3,
                      eigen_cut_method="value")
        if maybe(rng, 0.5):
            kw["mean_sub"] = True
        if maybe(rng, 0.35):
            if maybe(rng, 0.5):
                return [["compute_pca", kw]]
            kw["decomp_only"] = True
            return [["run", kw]]
        sm = ["fit", "interpolate", "xinterpolate"]
        if not f.get("rngfree"):
            sm.append("contour")
        m1 = rng.choice(sm)
        m2 = rng.choice(["walk-down", "fit", "interpolate"])
        xk = {}
        if maybe(rng, 0.3):
            xk["xlow"] = Q(0.5, "pix")
        if maybe(rng, 0.3):
            xk["xhigh"] = Q(12., "pix")
        bk = {"brunt_beamcorrect": False}
        if maybe(rng, 0.3):
            bk = {"beam_fwhm": Q(1.2, "arcmin")}
        if maybe(rng, 0.6):
            kw.update(spatial_method=m1, spectral_method=m2)
            kw.update(xk)
            kw.update(bk)
            return [["run", kw]] + self.queries(rng)
        if not f.get("rngfree") and maybe(rng, 0.1):
            xk = dict(xk, fit_method="bayes", nWalkers=6, nBurn=4, nSample=12)
        sk = dict(bk, method=m1)
        if maybe(rng, 0.2):
            sk["distance"] = Q(300., "pc")
        return [["compute_pca", kw],
                ["find_spatial_widths", sk],
                ["find_spectral_widths", {"method": m2}],
                ["fit_plaw", xk]] + self.queries(rng)

    def queries(self, rng):
        if not maybe(rng, 0.4):
            return []
        return rng.sample([
            ["spatial_width", {"unit": {"__unit__": "arcmin"}}],
            ["spatial_width_error", {}], ["spectral_width_error", {}],
            ["spectral_width", {"unit": {"__unit__": "km/s"}}],
            ["intercept", {}], ["intercept_error_range", {}],
            ["sonic_length", {"use_gamma": maybe(rng, .5)}],
            ["sonic_length", {"T_k": Q(20., "K")}],
            ["eigimages", {"n_eigs": rng.choice([2, 3, -2])}],
            ["autocorr_images", {"n_eigs": rng.choice([2, 3])}],
            ["autocorr_spec", {"n_eigs": rng.choice([2, 3])}],
            ["noise_ACF", {"n_eigs": rng.choice([-2, -5])}]],
            rng.choice([1, 2, 3]))


class Genus(Stat):
    name = "Genus"

    def gen_init(self, rng, f, d):
        out = Stat.gen_init(self, rng, f, d)
        out["numpts"] = rng.choice([10, 15])
        if maybe(rng, 0.15):
            out["thresholds"] = {"__arr__": _order(
                rng, [0.2, 0.5, 0.8, 1.0, 1.5, 2.0])}
        if maybe(rng, 0.15):
            out["min_value"] = 0.2
        if maybe(rng, 0.15):
            out["max_value"] = 4.0
        if maybe(rng, 0.4):
            out["lowdens_percent"] = 10
            out["highdens_percent"] = rng.choice([90, 80])
        c = rng.randrange(4)
        if c == 0:
            out["enable_smoothing"] = False
        elif c == 1:
            out["smoothing_radii"] = {"__arr__": _order(rng, [1.0, 2.0])}
        elif c == 2:
            out["smoothing_radii"] = Q(_order(rng, [1.5, 2.5]), "arcmin")
        return out

    def gen_program(self, rng, spec, f=None):
        kw = {}
        if maybe(rng, 0.3):
            kw["enable_small_removal"] = False
        if spec["data"]["data"]["beam"] and maybe(rng, 0.5):
            kw["use_beam"] = True
        if maybe(rng, 0.4):
            kw["min_size"] = rng.choice([2, 8])
        if maybe(rng, 0.3):
            kw["connectivity"] = 1
        if maybe(rng, 0.3):
            kw["match_kernel"] = True
        if maybe(rng, 0.3):
            kw["keep_smoothed_images"] = True
        if maybe(rng, 0.2):
            kw["nan_treatment"] = "interpolate"
        if maybe(rng, 0.15):
            kw["boundary"] = "wrap"
        prog = [[rng.choice(["run", "make_genus_curve"]), kw]]
        if maybe(rng, 0.3):
            prog.append(["make_genus_stats_table", {}])
        return prog


class StatMoments(Stat):
    name = "StatMoments"
    header_kw = True
    weights = True

    def data_opts(self, rng, f):
        return {"shape": rng.choice([(12, 12), (14, 12), (13, 13)])}

    def gen_init(self, rng, f, d):
        out = Stat.gen_init(self, rng, f, d)
        out["radius"] = rng.choice([Q(3., "pix"), Q(2., "pix"),
                                    Q(3.5, "arcmin")])
        if maybe(rng, 0.5):
            out["nbins"] = rng.choice([6, 9])
        return out

    def gen_program(self, rng, spec, f=None):
        kw = {"show_progress": False, "periodic": rng.choice([True, False])}
        if maybe(rng, 0.4):
            kw["radius"] = Q(rng.choice([2., 4.]), "pix")
        else:
            kw["radius"] = Q(3., "pix")
        if maybe(rng, 0.5):
            if maybe(rng, 0.3):
                kw.update(mean_bins=5, kurtosis_bins=7)
            return [["run", kw]]
        k2 = dict(kw)
        if maybe(rng, 0.5):
            k2["min_frac"] = rng.choice([0.5, 0.9])
        hk = {}
        if maybe(rng, 0.4):
            hk = rng.choice([{"mean_bins": 5, "kurtosis_bins": 7},
                             {"variance_bins": 6, "skewness_bins": 4}])
        return [["array_moments", {}], ["compute_spatial_distrib", k2],
                ["make_spatial_histograms", hk]]


class Tsallis(Stat):
    name = "Tsallis"
    header_kw = True

    def gen_init(self, rng, f, d):
        out = Stat.gen_init(self, rng, f, d)
        if maybe(rng, 0.6):
            out["lags"] = rng.choice([Q([1., 2., 4.], "pix"),
                                      Q([4., 1., 3.], "pix"),
                                      Q([1.5, 3.2], "arcmin"),
                                      Q([3.2, 1.5], "arcmin")])
        return out

    def gen_program(self, rng, spec, f=None):
        kw = {"periodic": rng.choice([True, False])}
        if maybe(rng, 0.5):
            kw["num_bins"] = rng.choice([20, 30, 30, 3, 5])
        s = {}
        if maybe(rng, 0.5):
            s["sigma_clip"] = rng.choice([3, None, 6])
        if maybe(rng, 0.6):
            kw.update(s)
            return [["run", kw]]
        return [["make_tsallis", kw], ["fit_tsallis", s]]


class PDF(Stat):
    name = "PDF"
    weights = True

    def data_opts(self, rng, f):
        return {"shape": rng.choice([(20, 20), (22, 18)] * 12 + [(66, 70)]),
                "containers": ["hdu", "tuple", "array", "imagehdu"],
                "dtypes": ["<f8", "<f8", "<f4"]}

    def gen_init(self, rng, f, d):
        out = {}
        if maybe(rng, 0.4):
            out["min_val"] = 0.3
        if maybe(rng, 0.4):
            out["normalization_type"] = rng.choice(
                ["standardize", "center", "normalize", "normalize_by_mean"])
        if maybe(rng, 0.4):
            out["bins"] = rng.choice(
                [12, {"__arr__": [0.0, 0.5, 1.0, 1.5, 2.0, 3.0, 4.5]}])
        return out

    def gen_program(self, rng, spec, f=None):
        kw = {"verbose": False}
        if maybe(rng, 0.5):
            kw["bins"] = rng.choice(
                [10, 15, {"__arr__": [0.1, 0.4, 0.8, 1.2, 2.0, 3.0]}])
        if maybe(rng, 0.55):
            kw["do_fit"] = False
        elif maybe(rng, 0.4):
            kw["floc"] = False
        if "do_fit" not in kw and maybe(rng, 0.3):
            kw["model"] = {"__model__": rng.choice(["gamma", "expon",
                                                    "lognorm"])}
        c = rng.randrange(3)
        prog = [["run", kw]]
        if c == 0:
            prog = [["make_pdf", {"bins": kw.get("bins")}], ["make_ecdf", {}]]
            if maybe(rng, 0.4):
                fk = rng.choice([{}, {"floc": False}, {"loc": -0.05},
                                 {"fscale": True, "scale": 1.1,
                                  "floc": False}])
                if maybe(rng, 0.3):
                    fk = dict(fk, model={"__model__": "gamma"})
                if not (f or {}).get("rngfree") and maybe(rng, 0.15):
                    fk = dict(fk, fit_type="mcmc", burnin=3, steps=8, thin=1)
                prog.append(["fit_pdf", fk])
        if maybe(rng, 0.3):
            prog.append(["find_percentile", {"values": 1.0}])
        if maybe(rng, 0.3):
            prog.append(["find_at_percentile", {"percentiles": 40.}])
        return prog


class Dendrogram_Stats(Stat):
    name = "Dendrogram_Stats"
    header_kw = True

    def gen_spec(self, rng, f=None):
        self.ndim = rng.choice([2, 2, 3])
        return Stat.gen_spec(self, rng, f)

    def data_opts(self, rng, f):
        return {"shape": (24, 26) if self.ndim == 2 else (8, 14, 14),
                "nans": rng.choice(["none", "none", "edge"]),
                "containers": ["hdu", "tuple"]}

    def gen_init(self, rng, f, d):
        out = {"dendro_params": {"min_npix": rng.choice([2, 3]),
                                 "min_value": 0.05, "min_delta": 0.02}}
        if maybe(rng, .2):
            # (without the first two nothing can be computed)
            del out["dendro_params"][rng.choice(["min_npix", "min_value",
                                                 "min_delta", "min_delta"])]
        c = rng.randrange(3)
        if c:
            n = rng.choice([8, 12])
            lo, hi = (0.02, 0.8) if c == 1 else (0.01, 0.5)
            out["min_deltas"] = {"__arr__": _order(rng, [
                float(x) for x in np.linspace(lo, hi, n)], .1)}
        else:
            out["num_deltas"] = 12
        return out

    def gen_program(self, rng, spec, f=None):
        per = rng.choice([False, False, True])
        fk = {"size": rng.choice([3, 5])}
        hk = {"min_number": rng.choice([3, 10])}
        if maybe(rng, 0.3):
            hk["bins"] = 6
        if maybe(rng, 0.6):
            kw = {"periodic_bounds": per, "show_progress": False,
                  "fit_kwargs": fk, "hist_kwargs": hk}
            if maybe(rng, 0.2):
                kw["make_hists"] = False
            return [["run", kw]]
        pre = []
        if (f or {}).get("oneshot") and maybe(rng, 0.15):
            pre = [["autoset_min_deltas", {"num": rng.choice([6, 10])}]]
        return pre + [["compute_dendro", {"periodic_bounds": per}],
                      ["fit_numfeat", fk], ["make_hists", hk]]


def _mask(rng, spec):
    sh = spec["data"]["data"]["shape"]
    return {"mask": {"__chans__": [sh, 2, sh[0] - rng.choice([1, 3])]}}


class MomentsStat(Stat):
    """turbustat.moments.Moments"""
    name = "Moments"
    ndim = 3
    savable = False

    def cls(self):
        import turbustat.moments as M
        return M.Moments

    def data_opts(self, rng, f):
        return {"shape": rng.choice([(14, 12, 12), (12, 11, 13)]),
                "containers": ["speccube"],
                "nans": rng.choice(["none", "none", "edge", "scatter"])}

    def gen_init(self, rng, f, d):
        out = {"moment_method": rng.choice(["slice", "cube"])}
        if maybe(rng, 0.7):
            out["scale"] = Q(0.05, "K")
        return out

    def gen_program(self, rng, spec, f=None):
        prog = [["make_moments", {}]]
        if (f or {}).get("oneshot") and maybe(rng, 0.2):
            prog.insert(0, ["apply_mask", _mask(rng, spec)])
        if maybe(rng, 0.8):
            prog.append(["make_moment_errors",
                         {"scale": Q(rng.choice([0.02, 0.1]), "K")}])
            if maybe(rng, 0.5):
                prog.append(["to_dict", {}])
            if maybe(rng, 0.3):
                prog += [["all_moments", {}], ["all_moment_errs", {}],
                         ["get_prop_hdrs", {}]]
        return prog


STATS = {}
for _c in (PowerSpectrum, MVC, VCA, VCS, Bispectrum, DeltaVariance, Wavelet,
           SCF, PCA, Genus, StatMoments, Tsallis, PDF, Dendrogram_Stats,
           MomentsStat):
    STATS[_c.name] = _c()

STAT_NAMES = list(STATS)
SAVABLE = [n for n in STAT_NAMES if STATS[n].savable]


def gen_spec(rng, stat=None, f=None):
    s = STATS[stat or rng.choice(STAT_NAMES)]
    return s.gen_spec(rng, f)


SETS = {
    "DeltaVariance": [("lags", [Q([3., 5., 8.], "pix"),
                                Q([8., 3., 5.], "pix"),
                                Q([3., 4., 6., 8.], "arcmin")])],
    "Wavelet": [("scales", [Q([1.5, 2.5, 4.0, 5.0], "pix"),
                            Q([2.0, 3.0, 4.0, 6.0], "arcmin")])],
    "SCF": [("roll_lags", [Q([-2., -1., 0., 1., 2.], "pix"),
                           Q([-3., -1.5, 0., 1.5, 3.], "arcmin")])],
    "Tsallis": [("lags", [Q([1., 3.], "pix"), Q([2., 4., 5.], "arcmin"),
                          Q([5., 2.], "pix")])],
    "StatMoments": [("radius", [Q(2., "pix"), Q(3.5, "arcmin")])],
    "Genus": [("smoothing_radii", [{"__arr__": [1.5]},
                                   {"__arr__": [1.0, 3.0]}])],
    "Dendrogram_Stats": [("min_deltas", [
        {"__arr__": [float(x) for x in np.linspace(0.02, 0.7, 7)]}]),
        ("autoset_min_deltas()", [{"num": 6}, {"num": 10}])],
    "Moments": [("scale", [Q(0.03, "K"), Q(0.2, "K")])],
}


def gen_sets(rng, spec):
    """Public settings changed on a live object."""
    c = list(SETS.get(spec["stat"], []))
    if "distance" in STATS[spec["stat"]].cls().__init__.__code__.co_varnames:
        c.append(("distance", [Q(300., "pc"), Q(0.1, "kpc")]))
    if spec["stat"] == "Moments":
        c.append(("apply_mask()", [_mask(rng, spec)]))
    if spec["stat"] == "DeltaVariance":
        d = spec["data"]["data"]
        c.append(("weights", [{"__w__": {"seed": d["seed"] + 3,
                                         "shape": d["shape"]}}]))
    return [[k, rng.choice(v)] for k, v in
            rng.sample(c, rng.randrange(1, len(c) + 1))] if c else []


def gen_program(rng, spec, f=None):
    f = dict(f or {})
    if not f.get("anyfftw") and any(d.get("dtype", "f8").endswith("f4")
                                    for d in spec["data"].values()):
        # single-precision FFTW rounds differently for every memory alignment
        f["nofftw"] = True
    return STATS[spec["stat"]].gen_program(rng, spec, f)


def make_inputs(spec):
    return STATS[spec["stat"]].make_inputs(spec)


def build(spec, inp):
    return STATS[spec["stat"]].build(spec, inp)


def call(obj, method, kwargs):
    """Call a public method with live kwargs ("=name" sets a property)."""
    if method.startswith("="):
        return setattr(obj, method[1:], kwargs["value"])
    return getattr(obj, method)(**kwargs)
