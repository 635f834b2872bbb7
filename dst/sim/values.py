"""Array specifications: JSON descriptions from which arguments are built.

A specification is either a plain JSON value or a dictionary

    {"k": kind, "s": seed, "sh": batch shape, "l": layout, "d": dtype,
     "q": quantum, "p": [[index, component, value], ...], "u": distance}

The values are a pure function of the specification.
"""
import copy
import numpy as np

TAIL = {"c0": 3, "c1": 3, "c2": 3, "vec": 3, "vecs": 3}
SPECIAL = {"nan": np.nan, "inf": np.inf, "-inf": -np.inf}


def rng_of(*key):
    return np.random.Generator(np.random.PCG64(list(key)))


def _sph(rng, n):
    return np.stack([
        rng.uniform(-86, 86, n), rng.uniform(-180, 180, n), rng.uniform(6400, 7200, n),
    ], -1)


def _base(kind, rng, n, spec):
    lo, hi = spec.get("lo"), spec.get("hi")
    if lo is not None:
        return rng.uniform(lo, hi, n)
    if kind == "lat":
        return rng.uniform(-86, 86, n)
    if kind == "lon":
        return rng.uniform(-180, 180, n)
    if kind == "rad":
        return rng.uniform(6400, 7200, n)
    if kind == "dlat":
        return rng.uniform(-0.3, 0.3, n)
    if kind == "c1":
        return _sph(rng, n)
    if kind == "c0":
        out = _sph(rng, n)
        out[:, 2] -= 6371.2
        return out
    if kind == "c2":
        sph = _sph(rng, n)
        lat, lon, rad = np.radians(sph[:, 0]), np.radians(sph[:, 1]), sph[:, 2]
        return np.stack([
            rad*np.cos(lat)*np.cos(lon), rad*np.cos(lat)*np.sin(lon), rad*np.sin(lat)
        ], -1)
    if kind in ("vec", "vecs"):
        return rng.normal(size=(n, 3)) * 1e4
    if kind == "mjd":
        return rng.uniform(-3000, 9000, n)
    if kind == "dy":
        return rng.uniform(1985, 2028, n)
    if kind == "hour":
        return rng.uniform(0, 24, n)
    if kind == "unit":
        return rng.uniform(0, 1, n)
    if kind == "f107":
        return rng.uniform(60, 200, n)
    if kind == "norm":
        return rng.normal(size=n)
    if kind == "sec":
        return rng.uniform(0, 70, n)
    raise KeyError(kind)


_LAT = [0.0, 0.0, 90.0, -90.0, 45.0, 30.0, -60.0]
_LON = [0.0, 0.0, 180.0, -180.0, 90.0, -90.0, 360.0, 270.0]
_RAD = [6371.2, 6400.0, 7000.0, 6371.2 + 110.0]
SNAP = {
    "mjd": [0.0, 0.0, 366.0, 1827.0, 1.0, -365.0, 3653.0, 5479.0, 6209.5], "dy": [2000.0, 2005.0, 2012.5, 2020.0, 1990.0],
    "lat": _LAT, "lon": _LON, "rad": _RAD, "norm": [0.0, 1.0, -1.0, 0.5], "f107": [0.0, 100.0, 80.0], "unit": [0.0, 0.5, 1.0],
    "c1": (_LAT, _LON, _RAD), "c0": (_LAT, _LON, [0.0, 110.0, 400.0, 500.0]),
    "c2": ([0.0, 0.0, 6500.0, -6800.0, 0.5], [0.0, 0.0, 6500.0, -6800.0, 0.5], [0.0, 6500.0, -6800.0]),
    "vec": ([0.0, 1.0, -1e4],)*3, "vecs": ([0.0, 1.0, -1e4],)*3,
}


def _snap(data, kind, spec):
    """ Replace some of the values by special ones. """
    if kind not in SNAP:
        return
    rng = rng_of(spec.get("s", 0), 23)
    where = rng.random(data.shape) < spec["snap"]
    pick = rng.random(data.shape)
    if kind == "c2":        # not the centre of the Earth
        where[np.linalg.norm(np.where(where, 0.0, data), axis=-1) < 6400.0] = False
    for idx in np.argwhere(where):
        idx = tuple(idx)
        items = SNAP[kind][idx[-1]] if isinstance(SNAP[kind], tuple) else SNAP[kind]
        if kind == "mjd" and "lo" in spec:
            items = [v for v in items if spec["lo"] <= v <= spec["hi"]]
        if kind != "mjd" and "lo" in spec:
            continue
        if items:
            data[idx] = items[int(pick[idx]*len(items))]


def values(spec):
    """ Plain contiguous double array of the specification. """
    kind = spec["k"]
    shape = tuple(spec.get("sh", ()))
    tail = tuple(spec.get("tail", ()))
    if kind in TAIL:
        tail = (TAIL[kind],)
    n = int(np.prod(shape, dtype=int)) if shape else 1
    rng = rng_of(spec.get("s", 0), 17)
    if kind in TAIL or not tail:
        data = _base(kind, rng, max(n, 1), spec)[:n]
    else:
        data = rng.normal(size=(n, *tail)) * spec.get("amp", 1.0)
    data = np.array(data, dtype="f8")
    if spec.get("sort"):
        data = np.sort(data, axis=0)
    if "u" in spec and n:  # distinct values far apart of each other (or equal)
        data = np.floor(data / spec["u"]) * spec["u"] + spec.get("uo", 0.0)
    if "q" in spec:
        data = np.round(data / spec["q"]) * spec["q"]
    if "rep" in spec and n:  # repeated samples
        data = data[np.arange(n) % max(1, spec["rep"])]
    if "neigh" in spec and n > 1:  # runs of equal values of one component
        comp = spec["neigh"]
        if data.ndim > 1:
            data[1::2, comp] = data[0:len(data) - (len(data) % 2):2, comp][:len(data[1::2])]
        else:
            data[1::2] = data[0:len(data) - (len(data) % 2):2][:len(data[1::2])]
    if "near" in spec and n > 1 and data.dtype.kind == "f":  # pairs of close values
        half = n // 2
        data[1:2*half:2] = data[0:2*half:2] + spec["near"]*np.maximum(1.0, np.abs(data[0:2*half:2]))
    if "snap" in spec and n:    # exact special values
        _snap(data, kind, spec)
    for idx, comp, value in spec.get("p", ()):
        if n == 0:
            break
        value = SPECIAL.get(value, value)
        if data.ndim > 1 and comp is not None:
            data.reshape(n, -1)[idx % n, comp % max(1, int(np.prod(tail)))] = value
        else:
            data[idx % n] = value
    return data.reshape(*shape, *tail) if (shape or tail) else data.reshape(())


def layout(data, how):
    """ The same values in a different memory layout. """
    if data.ndim == 0 and how in ("F", "T", "step", "neg", "neglast", "bcast"):
        return data
    if data.size == 0 and how in ("list", "tuple") and data.ndim > 1:
        return data
    if how in (None, "C"):
        return np.ascontiguousarray(data) if data.ndim else data
    if how == "F":
        return np.asfortranarray(data)
    if how == "T":
        return np.ascontiguousarray(data.T).T
    if how == "step":
        out = np.full(tuple(2*n + 1 for n in data.shape), 7e77)
        if data.dtype.kind != "f":
            out = np.full(tuple(2*n + 1 for n in data.shape), 99).astype(data.dtype)
        else:
            out = out.astype(data.dtype) if data.dtype.itemsize >= 8 else np.full(out.shape, 99, data.dtype)
        view = out[tuple(slice(1, 2*n + 1, 2) for n in data.shape)]
        view[...] = data
        return view
    if how == "neg":
        idx = (slice(None, None, -1),) * data.ndim
        return np.ascontiguousarray(data[idx])[idx]
    if how == "neglast":
        if data.ndim == 0:
            return data
        return np.ascontiguousarray(data[..., ::-1])[..., ::-1]
    if how == "off":
        buf = np.zeros(data.nbytes + 16, "u1")
        view = buf[3:3 + data.nbytes].view(data.dtype).reshape(data.shape)
        view[...] = data
        return view
    if how == "swap":
        return data.astype(data.dtype.newbyteorder())
    if how == "ro":
        out = data.copy()
        out.flags.writeable = False
        return out
    if how == "bcast":
        if data.ndim and data.shape[0] > 0 and bool(np.all(data == data[:1])):
            return np.broadcast_to(data[:1].copy(), data.shape)
        return data
    if how == "list":
        return data.tolist()
    if how == "tuple":
        def _tup(val):
            return tuple(_tup(item) for item in val) if isinstance(val, list) else val
        return _tup(data.tolist())
    if how == "obj":
        return data.astype(object)
    raise KeyError(how)


LAYOUTS = ["C", "F", "T", "step", "neg", "neglast", "off", "swap", "ro", "list", "tuple"]


def mk(spec):
    """ Build the value of the specification. """
    if not isinstance(spec, dict) or "k" not in spec:
        if isinstance(spec, str) and spec in SPECIAL:
            return SPECIAL[spec]
        return copy.deepcopy(spec)
    if spec["k"] == "raw":
        value = spec["v"]
        if spec.get("np"):
            return np.array([SPECIAL.get(v, v) if isinstance(v, str) else v for v in value]
                            if isinstance(value, list) and (not value or not isinstance(value[0], list)) else value,
                            dtype=spec["np"])
        return copy.deepcopy(value)
    data = values(spec)
    if spec.get("d") and spec["d"] != "f8":
        data = data.astype(spec["d"])
    if spec.get("py") and data.ndim == 0:
        return data.item()
    return layout(data, spec.get("l"))
