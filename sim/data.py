"""Seeded synthetic inputs, and the JSON encoding of values in plans."""
import random

import numpy as np
import astropy.units as u
from astropy.io import fits


# ----------------------------------------------------------------- encoding
def Q(v, unit):
    return {"__q__": [v, unit]}


def decode(v):
    """Plan value -> live value (fresh objects each time)."""
    if isinstance(v, dict):
        if "__q__" in v:
            val, unit = v["__q__"]
            return u.Quantity(np.array(val) if isinstance(val, list) else val,
                              u.Unit(unit))
        if "__unit__" in v:
            return u.Unit(v["__unit__"])
        if "__arr__" in v:
            return np.array(v["__arr__"], dtype=v.get("dtype", float))
        if "__w__" in v:
            return make_weights(v["__w__"])
        if "__chans__" in v:
            shape, lo, hi = v["__chans__"]
            m = np.zeros(shape, dtype=bool)
            m[lo:hi] = True
            return m
        if "__beam__" in v:
            from radio_beam import Beam
            return Beam(v["__beam__"] * u.arcmin)
        if "__model__" in v:
            import scipy.stats
            return getattr(scipy.stats, v["__model__"])
        return dict((k, decode(x)) for k, x in v.items())
    if isinstance(v, list):
        return [decode(x) for x in v]
    return v


# ----------------------------------------------------------------- headers
def header2d(shape, beam=None, scale_arcmin=1.0):
    h = fits.Header()
    h["SIMPLE"] = True
    h["BITPIX"] = -64
    h["NAXIS"] = 2
    h["NAXIS1"] = shape[1]
    h["NAXIS2"] = shape[0]
    h["CTYPE1"] = "RA---CAR"
    h["CTYPE2"] = "DEC--CAR"
    h["CDELT1"] = -scale_arcmin / 60.
    h["CDELT2"] = scale_arcmin / 60.
    h["CUNIT1"] = "deg"
    h["CUNIT2"] = "deg"
    h["CRPIX1"] = shape[1] / 2.
    h["CRPIX2"] = shape[0] / 2.
    h["CRVAL1"] = 0.0
    h["CRVAL2"] = 0.0
    h["BUNIT"] = "K"
    h["OBJECT"] = "SIM"
    if beam:
        h["BMAJ"] = beam / 60.
        h["BMIN"] = beam / 60.
        h["BPA"] = 0.0
    return h


def header3d(shape, beam=None, scale_arcmin=1.0, dv=0.4):
    h = header2d(shape[1:], beam, scale_arcmin)
    h["NAXIS"] = 3
    h.insert("NAXIS2", ("NAXIS3", shape[0]), after=True)
    h["CTYPE3"] = "VRAD"
    h["CUNIT3"] = "m / s"
    h["CDELT3"] = dv * 1000.
    h["CRPIX3"] = 1.0
    h["CRVAL3"] = -dv * 1000. * shape[0] / 2.
    h["RESTFRQ"] = 1.42e9
    h["SPECSYS"] = "LSRK"
    return h


# ----------------------------------------------------------------- fields
def _plaw(rs, shape, slope):
    ks = np.meshgrid(*[np.fft.fftfreq(n) for n in shape], indexing="ij")
    k = np.sqrt(sum(x ** 2 for x in ks))
    k[(0,) * len(shape)] = 1.0
    amp = k ** (-slope / 2.)
    amp[(0,) * len(shape)] = 0.0
    noise = np.fft.fftn(rs.normal(size=shape))
    f = np.fft.ifftn(noise * amp).real
    return f / f.std()


def field2d(seed, shape, slope=3.0):
    rs = np.random.RandomState(seed)
    return np.exp(0.6 * _plaw(rs, shape, slope)) + 0.05


def cube3d(seed, shape, slope=3.0):
    rs = np.random.RandomState(seed)
    nch, ny, nx = shape
    v = _plaw(rs, (ny, nx), slope) * nch * 0.08 + nch / 2.
    amp = np.exp(0.5 * _plaw(rs, (ny, nx), slope))
    ch = np.arange(nch)[:, None, None]
    w = 0.08 * nch * (1 + 0.3 * np.abs(_plaw(rs, (ny, nx), slope))) + 0.8
    c = amp * np.exp(-0.5 * ((ch - v) / w) ** 2)
    c += rs.normal(0, 0.02, size=shape)
    return c + 0.1


def apply_nans(arr, kind, seed):
    if kind == "none":
        return arr
    rs = np.random.RandomState(seed + 77)
    arr = arr.copy()
    sp = arr.shape[-2:]
    if kind == "edge":
        arr[..., 0, :] = np.nan
        arr[..., :, -1] = np.nan
    elif kind == "scatter":
        m = rs.uniform(size=sp) < 0.02
        arr[..., m] = np.nan
    elif kind == "point":
        idx = tuple(rs.randint(0, n) for n in arr.shape)
        arr[idx] = np.nan
    return arr


def gen_data(rng, ndim, shape=None, nans=None, containers=None,
             dtypes=None, beam=None):
    """Random data plan."""
    if shape is None:
        if ndim == 2:
            shape = rng.choice([(24, 24), (32, 32), (24, 30), (25, 25),
                                (31, 26)] * 6 + [(70, 66)])
        else:
            shape = rng.choice([(16, 16, 16), (18, 16, 20), (15, 17, 17),
                                (20, 18, 18)] * 8 + [(34, 30, 32)])
    if nans is None:
        nans = rng.choice(["none", "none", "none", "edge", "scatter",
                           "point"])
    if containers is None:
        containers = ["hdu", "hdu", "tuple", "list", "imagehdu"]
        containers += [] if ndim == 2 else ["speccube"]
    if dtypes is None:
        dtypes = ["<f8", "<f8", "<f8", "<f4", ">f4", ">f8"]
        if nans == "none" and rng.random() < 0.06:
            dtypes = ["<i4", ">i2"]
    d = {"ndim": ndim, "shape": list(shape), "seed": rng.randrange(10 ** 6),
         "nans": nans, "container": rng.choice(containers),
         "dtype": rng.choice(dtypes), "beam": beam,
         "slope": rng.choice([2.0, 3.0, 3.6])}
    if rng.random() < 0.3:
        d["cards"] = gen_cards(rng, d)
    return d


CARDS = ["history", "extra", "nobunit", "blank", "wcsaxes", "origin"]


def gen_cards(rng, d):
    """Ways headers differ in the wild."""
    c = list(CARDS)
    if d["beam"]:
        c += ["nobmin", "nobpa", "ellbeam"]
    if d["ndim"] == 3:
        c += ["kms", "reversed", "norest"]
    return sorted(rng.sample(c, rng.choice([1, 1, 2, 3])))


def raw_array(d):
    shape = tuple(d["shape"])
    f = field2d if d["ndim"] == 2 else cube3d
    arr = f(d["seed"], shape, d.get("slope", 3.0))
    arr = apply_nans(arr, d.get("nans", "none"), d["seed"])
    if d.get("jiggle"):
        # rounding-sized noise: how much do rounding errors matter here?
        rs = np.random.RandomState(d["jiggle"])
        arr = arr + 1e-15 * np.nanmax(np.abs(arr)) * rs.normal(size=shape)
    if d.get("dtype", "<f8")[1] == "i":
        arr = np.round(arr * 40)
    arr = np.ascontiguousarray(arr.astype(d.get("dtype", "<f8")))
    return place(arr, d.get("layout"))


LAYOUTS = ["F", "strided", "shifted", "unaligned", "reversed", "readonly"]


def place(arr, layout):
    """The same values somewhere else in memory."""
    if not layout:
        return arr
    if layout == "readonly":
        arr.flags.writeable = False
        return arr
    if layout == "F":
        return np.asfortranarray(arr)
    if layout == "strided":
        big = np.full(tuple(n * 2 for n in arr.shape), -7, dtype=arr.dtype)
        out = big[tuple(slice(None, None, 2) for _ in arr.shape)]
    elif layout == "reversed":
        out = np.empty_like(arr)[..., ::-1]
    else:
        off = {"shifted": arr.dtype.itemsize, "unaligned": 1}[layout]
        buf = np.zeros(arr.nbytes + 64, dtype=np.uint8)
        base = -buf.ctypes.data % 64
        out = buf[base + off:base + off + arr.nbytes].view(arr.dtype) \
            .reshape(arr.shape)
    out[...] = arr
    return out


def make_header(d):
    f = header2d if d["ndim"] == 2 else header3d
    h = f(tuple(d["shape"]), d.get("beam"), d.get("scale", 1.0))
    for c in d.get("cards", []):
        if c == "history":
            h["HISTORY"] = "reduced"
            h["HISTORY"] = "reduced again"
            h["COMMENT"] = "as observed"
        elif c == "extra":
            h["TELESCOP"] = "SIM"
            h["EQUINOX"] = 2000.0
            h["HIERARCH long keyword"] = 1.5
            h["DATAMAX"] = (12.0, "not really")
        elif c == "nobunit":
            h.remove("BUNIT")
        elif c == "blank":
            h[""] = "note"
        elif c == "wcsaxes":
            h.insert("CTYPE1", ("WCSAXES", d["ndim"]))
        elif c == "origin":
            h["CRVAL1"] = 83.8
            h["CRVAL2"] = -0.5
        elif c == "nobmin":
            h.remove("BMIN", ignore_missing=True)
            h.remove("BPA", ignore_missing=True)
        elif c == "nobpa":
            h.remove("BPA", ignore_missing=True)
        elif c == "ellbeam" and "BMIN" in h:
            h["BMIN"] = 0.8 * h["BMAJ"]
        elif c == "kms":
            h["CUNIT3"] = "km / s"
            h["CDELT3"] /= 1000.
            h["CRVAL3"] /= 1000.
        elif c == "reversed":
            h["CDELT3"] = -h["CDELT3"]
            h["CRVAL3"] = -h["CRVAL3"]
        elif c == "norest":
            h.remove("RESTFRQ")
            h.remove("SPECSYS")
    return h


def make_data(d):
    """Build the live input object described by a data plan."""
    arr = raw_array(d)
    hdr = make_header(d)
    c = d.get("container", "hdu")
    if c == "hdu":
        return fits.PrimaryHDU(arr, hdr)
    if c == "imagehdu":
        return fits.ImageHDU(arr, hdr)
    if c == "tuple":
        return (arr, hdr)
    if c == "list":
        return [arr, hdr]
    if c in ("array", "arrhdr"):
        return arr
    if c == "projection":
        from spectral_cube import Projection
        return Projection.from_hdu(fits.PrimaryHDU(arr, hdr))
    if c == "speccube":
        from spectral_cube import SpectralCube
        return SpectralCube.read(fits.PrimaryHDU(arr, hdr))
    raise ValueError(c)


def make_weights(d):
    rs = np.random.RandomState(d["seed"] + 5)
    w = rs.uniform(0.5, 1.5, size=tuple(d["shape"]))
    if d.get("wnans"):
        w[rs.uniform(size=w.shape) < 0.02] = np.nan
    return w


def rng_of(*parts):
    return random.Random(":".join(str(p) for p in parts))
