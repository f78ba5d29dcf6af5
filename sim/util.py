"""Canonical snapshots of what a caller can observe, fingerprints of inputs,
and tolerant comparison.  Nothing here looks at how TurbuStat is written: only
public attributes, public properties and return values are observed."""
import hashlib
import inspect
import math
import warnings

import numpy as np
import astropy.units as u
from astropy.io import fits
from astropy.table import Table

RTOL = 1e-6


class Raised(object):
    """An attribute or call that raised."""
    def __init__(self, exc):
        self.name = type(exc).__name__

    def __repr__(self):
        return "Raised(%s)" % self.name


def canon(value, depth=0):
    """Reduce a value to plain comparable python/numpy data."""
    if depth > 6:
        return ("deep",)
    if value is None or isinstance(value, (bool, str, bytes)):
        return value
    if isinstance(value, (int, np.integer)):
        return int(value)
    if isinstance(value, (float, np.floating)):
        return float(value)
    if isinstance(value, (complex, np.complexfloating)):
        return np.array(complex(value))
    if isinstance(value, Table):
        return ("table", [(c, canon(value[c].data, depth + 1))
                          for c in value.colnames])
    if isinstance(value, u.Quantity):
        return ("quantity", str(value.unit), np.array(value.value))
    if isinstance(value, (u.UnitBase,)):
        return ("unit", str(value))
    if isinstance(value, np.ma.MaskedArray):
        return ("masked", np.array(value.filled(np.nan) if
                                   value.dtype.kind == 'f' else value.data))
    if isinstance(value, np.ndarray):
        if value.dtype.kind in "biufc":
            return np.array(value)
        if value.dtype.kind in "SU":
            return ("strs", value.tolist())
        return ("objarr", [canon(v, depth + 1) for v in value.ravel()[:200]])
    if isinstance(value, fits.Header):
        return ("header", value.tostring(sep="\n"))
    if isinstance(value, (fits.PrimaryHDU, fits.ImageHDU)):
        return ("hdu", canon(value.data, depth + 1),
                canon(value.header, depth + 1))
    if isinstance(value, dict):
        return ("dict", [(str(k), canon(v, depth + 1))
                         for k, v in sorted(value.items(),
                                            key=lambda kv: str(kv[0]))])
    if isinstance(value, (list, tuple)):
        return ("seq", [canon(v, depth + 1) for v in value])
    if isinstance(value, Raised):
        return ("raised", value.name)
    mod = type(value).__module__ or ""
    if mod.startswith("turbustat"):
        return ("obj", type(value).__name__,
                [(k, canon(v, depth + 1)) for k, v in public_state(value)])
    if type(value).__name__ == "Beam":
        return ("beam", repr(value))
    return ("opaque", type(value).__name__)


# Names whose values are not results: raw data handles and unit-less internals
SKIP_NAMES = {"header"}


def public_state(obj):
    """Public, non-callable attributes and properties with their values.
    Attributes that raise are reported as Raised."""
    out = []
    cls = type(obj)
    names = set(k for k in getattr(obj, "__dict__", {})
                if not k.startswith("_"))
    for k in dir(cls):
        if k.startswith("_"):
            continue
        if isinstance(inspect.getattr_static(cls, k), property):
            names.add(k)
    for k in sorted(names):
        if k in SKIP_NAMES:
            continue
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                v = getattr(obj, k)
        except Exception as e:                      # noqa
            v = Raised(e)
        if callable(v) and not isinstance(v, np.ndarray):
            continue
        out.append((k, v))
    return out


def observe(obj):
    """dict name -> canonical value of everything a user can read."""
    return dict((k, canon(v)) for k, v in public_state(obj))


def _scale(a):
    with np.errstate(all="ignore"):
        f = np.abs(a[np.isfinite(a)])
        return float(f.max()) if f.size else 0.0


def arrays_equal(a, b, rtol=RTOL):
    if a.shape != b.shape:
        return False
    if a.dtype.kind in "biu" and b.dtype.kind in "biu":
        return bool((a == b).all())
    if a.dtype.kind not in "biufc" or b.dtype.kind not in "biufc":
        return bool(np.array_equal(a, b))
    a = a.astype(complex if "c" in a.dtype.kind + b.dtype.kind else float)
    b = b.astype(a.dtype)
    na, nb = np.isnan(a), np.isnan(b)
    if not (na == nb).all():
        return False
    ia, ib = np.isinf(a), np.isinf(b)
    if not (ia == ib).all():
        return False
    if not (a[ia] == b[ib]).all():
        return False
    fin = ~(na | ia)
    if not fin.any():
        return True
    a, b = a[fin], b[fin]
    if (a == b).all():
        return True
    atol = 1e-10 * max(_scale(a), _scale(b))
    return bool((np.abs(a - b) <= atol + rtol * np.maximum(np.abs(a),
                                                           np.abs(b))).all())


def same(a, b, rtol=RTOL):
    """Are two canonical values the same up to rounding?"""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not isinstance(a, np.ndarray):
            a = np.array(a) if isinstance(a, (int, float)) else None
        if not isinstance(b, np.ndarray):
            b = np.array(b) if isinstance(b, (int, float)) else None
        if a is None or b is None:
            return False
        return arrays_equal(a, b, rtol)
    num = (int, float)
    if isinstance(a, bool) or isinstance(b, bool):
        return a == b
    if isinstance(a, num) and isinstance(b, num):
        if isinstance(a, float) and math.isnan(a):
            return isinstance(b, float) and math.isnan(b)
        if a == b:
            return True
        if math.isinf(a) or math.isinf(b) or math.isnan(b):
            return False
        return abs(a - b) <= rtol * max(abs(a), abs(b)) + 1e-14
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(same(x, y, rtol)
                                        for x, y in zip(a, b))
    return type(a) == type(b) and a == b


def undefined(v):
    return v is None or (isinstance(v, tuple) and bool(v) and
                         isinstance(v[0], str) and v[0] == "raised")


class _All(object):
    def __contains__(self, k):
        return True


def diff(ref, got, rtol=RTOL, ignore=(), unset=_All()):
    """Names in ref whose value differs in got.  Names the reference does not
    have (or that raise in the reference) are not compared; None is compared
    unless the name is in `unset` (None before anything was computed)."""
    bad = []
    for k, v in ref.items():
        if k in ignore:
            continue
        if undefined(v):
            if v is None and k not in unset and not undefined(got.get(k)):
                bad.append((k, "None != " + short(got[k])))
            continue                # not (yet) defined in the reference
        if k not in got:
            bad.append((k, "missing"))
        elif not same(v, got[k], rtol):
            bad.append((k, short(v) + " != " + short(got[k])))
    return bad


def short(v, n=110):
    if isinstance(v, np.ndarray):
        h = hashlib.sha1(np.ascontiguousarray(v).tobytes()).hexdigest()[:8]
        s = "array%s#%s" % (v.shape, h)
        if v.size <= 6:
            s += np.array2string(v, precision=9, separator=",")
        return s
    if isinstance(v, (tuple, list)):
        return ("(" + ", ".join(short(x, 60) for x in v[:6]) + ")")[:n]
    return repr(v)[:n]


def digest(v):
    """Stable digest of a canonical value (exact, for determinism tests)."""
    h = hashlib.sha1()

    def rec(x):
        if isinstance(x, np.ndarray):
            h.update(str((x.shape, x.dtype.str)).encode())
            h.update(np.ascontiguousarray(x).tobytes())
        elif isinstance(x, (tuple, list)):
            h.update(b"(")
            for y in x:
                rec(y)
            h.update(b")")
        elif isinstance(x, dict):
            for k in sorted(x):
                h.update(str(k).encode())
                rec(x[k])
        else:
            h.update(repr(x).encode())
    rec(v)
    return h.hexdigest()


# ---------------------------------------------------------------------------
# fingerprints of caller-owned inputs

def fingerprint(value, depth=0):
    """Exact fingerprint of a caller-owned object (bitwise for arrays)."""
    h = hashlib.sha1()

    def rec(x, d):
        if d > 6:
            return
        if isinstance(x, np.ndarray):
            arr = x.view(np.ndarray) if not isinstance(
                x, np.ma.MaskedArray) else np.asarray(x.data)
            h.update(str((arr.shape, arr.dtype.str)).encode())
            if arr.dtype.kind == "O":
                for y in arr.ravel():
                    rec(y, d + 1)
            else:
                h.update(np.ascontiguousarray(arr).tobytes())
            if isinstance(x, u.Quantity):
                h.update(str(x.unit).encode())
            hdr = getattr(x, "_header", None)
            if isinstance(hdr, fits.Header):
                rec(hdr, d + 1)
        elif isinstance(x, fits.Header):
            h.update(x.tostring(sep="\n").encode())
        elif isinstance(x, (fits.PrimaryHDU, fits.ImageHDU)):
            rec(x.data, d + 1)
            rec(x.header, d + 1)
        elif isinstance(x, dict):
            h.update(b"{%d" % len(x))
            for k in sorted(x, key=str):
                h.update(str(k).encode())
                rec(x[k], d + 1)
        elif isinstance(x, (list, tuple)):
            h.update((type(x).__name__ + str(len(x))).encode())
            for y in x:
                rec(y, d + 1)
        elif type(x).__name__ in ("SpectralCube", "VaryingResolutionSpectralCube"):
            rec(np.asarray(x._data), d + 1)
            h.update(str(x.unit).encode())
            h.update(str(x.shape).encode())
            h.update(repr(getattr(x, "allow_huge_operations", None)).encode())
            rec(x.header, d + 1)
        elif type(x).__name__ == "Dendrogram":
            rec(dict(x.params), d + 1)
            rec(np.sort([s.vmax for s in x.all_structures]), d + 1)
            rec(np.asarray(x.index_map), d + 1)
        elif isinstance(x, (int, float, str, bool, complex, type(None))):
            h.update(repr(x).encode())
        elif isinstance(x, u.UnitBase):
            h.update(str(x).encode())
        else:
            h.update(type(x).__name__.encode())
    rec(value, depth)
    return h.hexdigest()
