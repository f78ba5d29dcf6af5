"""Sibling requests: a copy of a plan value with one thing changed, the kind
of neighbour that exposes state kept between requests (caches with too small
a key, buffers, defaults that stick)."""
import copy

SIZES = [1.25, 0.8, 1.1, 0.5]


def _paths(v, p=(), out=None):
    """Paths of the leaves worth changing."""
    if out is None:
        out = []
    if isinstance(v, dict):
        for k in sorted(v):
            if k in ("kind", "stat", "dist", "func", "ndim", "container",
                     "which", "cls", "model", "__unit__", "__beam__",
                     "__model__", "dtype", "nans", "shape", "op"):
                continue
            if k == "__q__":
                out.append(p + (k, 0))
            elif k == "__arr__":
                out.append(p + (k,))
            else:
                _paths(v[k], p + (k,), out)
    elif isinstance(v, list):
        for i, x in enumerate(v):
            _paths(x, p + (i,), out)
    elif isinstance(v, (bool, int, float)):
        out.append(p)
    return out


def _get(v, p):
    for k in p:
        v = v[k]
    return v


def _set(v, p, x):
    _get(v, p[:-1])[p[-1]] = x


def change(rng, v, key=None):
    if isinstance(v, bool):
        return not v
    if key == "seed" or key == "randomseed":
        return v + rng.choice([1, 7, 1000])
    if isinstance(v, int):
        return max(1, v + rng.choice([1, -1, 2, 3]))
    if isinstance(v, float):
        return v * rng.choice(SIZES + [1.0001, 1.004])
    if isinstance(v, list) and v and isinstance(v[0], (int, float)):
        if rng.random() < 0.3 and len(v) > 3:
            return v[:-1]
        s = rng.choice(SIZES + [1.0001, 1.004])
        if rng.random() < 0.3:          # same ends, other inside
            return v[:1] + [x * (0.9 if s < 1 else 1.1)
                            for x in v[1:-1]] + v[-1:]
        return [x * s for x in v]
    return v


def sibling(rng, value, roots=None):
    """A deep copy of `value` with one leaf changed (under `roots`)."""
    v = copy.deepcopy(value)
    paths = _paths(v)
    if roots:
        paths = [p for p in paths if p and p[0] in roots]
    if not paths:
        return v
    # a plan has many seeds and few options: pick the name first
    names = sorted(set(str(p[-1] if not isinstance(p[-1], int) and
                           not str(p[-1]).startswith("__") else
                           [k for k in p if isinstance(k, str) and
                            not k.startswith("__")][-1:]) for p in paths))
    nm = rng.choice(names)
    ok = [p for p in paths if str(p[-1] if not isinstance(p[-1], int) and
                                  not str(p[-1]).startswith("__") else
                                  [k for k in p if isinstance(k, str) and
                                   not k.startswith("__")][-1:]) == nm]
    p = rng.choice(ok)
    _set(v, p, change(rng, _get(v, p), p[-1]))
    return v


def other_data(rng, data):
    """The same kind of data: another field, another shape, other NaNs."""
    v = copy.deepcopy(data)
    r = rng.random()
    for d in v.values():
        if not isinstance(d, dict) or "shape" not in d:
            continue
        if r < 0.45:
            d["seed"] += 1
        elif r < 0.6:
            d["shape"] = list(d["shape"])
            d["shape"][-1] += 2
        elif r < 0.7:
            d["shape"] = list(d["shape"])
            d["shape"][0] += 1
        elif r < 0.8 and "nans" in d:
            d["nans"] = "none" if d["nans"] != "none" else "edge"
        elif r < 0.9 and "dtype" in d:
            d["dtype"] = "<f4" if d["dtype"] != "<f4" else "<f8"
        elif "scale" in d or r < 0.95:
            d["scale"] = 1.5 if d.get("scale", 1.0) == 1.0 else 1.0
        else:
            d["slope"] = 2.5
    return v


def swap_data(rng, data):
    """Transposed shapes: equal sizes, different layout."""
    v = copy.deepcopy(data)
    for d in v.values():
        if isinstance(d, dict) and "shape" in d:
            d["shape"] = list(d["shape"])
            d["shape"][-2:] = d["shape"][-2:][::-1]
    return v
