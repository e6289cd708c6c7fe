"""Canonical observations of CIS data objects: what a user can see through each accessor, in comparable form."""
import hashlib
import re

import numpy as np
import numpy.ma as ma


class Arr(object):
    """Masked array in canonical form; equality is exact (NaN equals NaN), masked values do not count."""
    __slots__ = ("shape", "dtype", "mask", "vals")

    def __init__(self, a):
        m = ma.getmaskarray(a) if isinstance(a, ma.MaskedArray) else np.zeros(np.shape(a), bool)
        v = np.array(ma.getdata(a))
        self.shape = tuple(int(x) for x in v.shape)
        self.dtype = v.dtype.str
        self.mask = np.array(m)
        if v.dtype.kind == "O":
            v = np.array([str(x) for x in v.ravel()], dtype=object).reshape(v.shape)
            if m.any():
                v[m] = ""
        elif m.any():
            v = v.copy()
            v[m] = np.zeros((), v.dtype)
        self.vals = v

    def same(self, o):
        if self.shape != o.shape or self.dtype != o.dtype or not np.array_equal(self.mask, o.mask):
            return False
        if self.vals.dtype.kind in "fc":
            return bool(np.array_equal(self.vals, o.vals, equal_nan=True))
        return bool(np.array_equal(self.vals, o.vals))

    def close(self, o, rtol=1e-9, atol=1e-9):
        return self.shape == o.shape and np.array_equal(self.mask, o.mask) and \
            bool(np.allclose(self.vals.astype("f8"), o.vals.astype("f8"), rtol=rtol, atol=atol, equal_nan=True))

    def digest(self):
        h = hashlib.sha256(str((self.shape, self.dtype)).encode())
        h.update(self.mask.tobytes())
        h.update(self.vals.tobytes() if self.vals.dtype.kind != "O" else str(list(self.vals.ravel())).encode())
        return h.hexdigest()[:12]

    def brief(self):
        f = self.vals.ravel()
        s = ", ".join(("--" if self.mask.ravel()[i] else "%s" % (f[i],)) for i in range(min(4, f.size)))
        return "%s%s[%s%s] masked=%d" % (self.dtype[1:], self.shape, s, ", ..." if f.size > 4 else "", int(self.mask.sum()))

    def __repr__(self):
        return self.brief()


def canon(x):
    if isinstance(x, Arr):
        return x
    if isinstance(x, np.ndarray):
        return Arr(x) if x.ndim or True else x
    if isinstance(x, dict):
        return {str(k): canon(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [canon(v) for v in x]
    if isinstance(x, np.generic):
        return x.item() if x.dtype.kind != "f" else float(x)
    return x


def diff(a, b, path="", close=False):
    """None if equal, else a short description of the first difference (a = expected, b = got)."""
    if isinstance(a, Arr) or isinstance(b, Arr):
        if not (isinstance(a, Arr) and isinstance(b, Arr)):
            return "%s: expected %r, got %r" % (path, a, b)
        if a.close(b) if close else a.same(b):
            return None
        extra = ""
        if a.shape == b.shape and not np.array_equal(a.mask, b.mask):
            extra = " (masks differ at %s)" % (np.argwhere(a.mask != b.mask)[:3].tolist(),)
        elif a.shape == b.shape and a.vals.dtype.kind != "O":
            bad = np.argwhere(~((a.vals == b.vals) | ((a.vals != a.vals) & (b.vals != b.vals))))[:3]
            extra = " (values differ first at %s)" % (bad.tolist(),)
        return "%s: expected %s, got %s%s" % (path, a.brief(), b.brief(), extra)
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a or k not in b:
                return "%s.%s: expected %s, got %s" % (path, k, repr(a.get(k, "<absent>"))[:200], repr(b.get(k, "<absent>"))[:200])
            d = diff(a[k], b[k], "%s.%s" % (path, k), close)
            if d:
                return d
        return None
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return "%s: expected %d items %s, got %d items %s" % (path, len(a), repr(a)[:150], len(b), repr(b)[:150])
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, "%s[%d]" % (path, i), close)
            if d:
                return d
        return None
    if isinstance(a, float) and isinstance(b, float):
        if a == b or (a != a and b != b) or (close and abs(a - b) <= 1e-9 + 1e-9 * abs(a)):
            return None
        return "%s: expected %r, got %r" % (path, a, b)
    if a != b:
        return "%s: expected %s, got %s" % (path, repr(a)[:300], repr(b)[:300])
    return None


def digest(x):
    if isinstance(x, Arr):
        return x.digest()
    if isinstance(x, dict):
        s = "{" + ",".join("%s:%s" % (k, digest(x[k])) for k in sorted(x)) + "}"
    elif isinstance(x, list):
        s = "[" + ",".join(digest(v) for v in x) + "]"
    else:
        s = repr(x)
    return hashlib.sha256(s.encode()).hexdigest()[:12]


# ------------------------------------------------------------------------------------------------ metadata

def meta(m, history=True):
    out = {"name": m._name, "standard_name": m.standard_name, "long_name": m.long_name, "units": str(m.units),
           "calendar": str(getattr(m.units, "calendar", None)), "missing": canon(m.missing_value),
           "misc": {str(k): attr(v) for k, v in m.misc.items()}}
    if history:
        out["history"] = text(m.history)
    return out


def text(s):
    """Histories name the kernel object they used, with its address."""
    return re.sub(r"0x[0-9a-f]{6,}", "0x", s) if isinstance(s, str) else s


def attr(v):
    if isinstance(v, str):
        return text(v)
    if isinstance(v, np.ndarray):
        out = [attr(x) for x in v.ravel().tolist()]
        return out[0] if len(out) == 1 else out
    if isinstance(v, np.generic):
        return v.item()
    if isinstance(v, (list, tuple)):
        return [attr(x) for x in v]
    return v


def rng(r):
    if r is None:
        return None
    return [str(x) if not isinstance(x, (int, float, np.generic)) else float(x) for x in r]


# ------------------------------------------------------------------------------------------------ ungridded

def points_view(v):
    return {"coords": [None if c is None else Arr(np.asarray(ma.getdata(c))) for c in v.coords],
            "n": len(v), "data": None if v.data is None else Arr(v.data)}


def u_coord(o, name):
    return o.coord(standard_name=name)


def mid_slice(n):
    return slice(n // 3, max(n // 3 + 1, (2 * n) // 3))


def snap_coord(c):
    return {"data": Arr(c.data), "flat": Arr(c.data_flattened), "points": Arr(c.points), "shape": list(c.shape or ()),
            "meta": meta(c.metadata), "axis": c.axis, "range": rng(c.metadata.range)}


U_ACCESS = {
    "data": lambda o: Arr(o.data),
    "flat": lambda o: Arr(o.data_flattened),
    "size": lambda o: int(o.size),
    "count": lambda o: int(o.count()),
    "shape": lambda o: [int(x) for x in o.shape],
    "coords": lambda o: [c.name() for c in o.coords()],
    "coords_data": lambda o: [Arr(c.data) for c in o.coords()],
    "coords_flat": lambda o: [None if c is None else Arr(c) for c in o.coords_flattened],
    "coords_shape": lambda o: [list(c.shape) for c in o.coords()],
    "coords_range": lambda o: [rng(c.metadata.range) for c in o.coords()],
    "lat": lambda o: Arr(o.lat.points),
    "lon": lambda o: Arr(o.lon.data),
    "time": lambda o: Arr(o.time.data_flattened),
    "all_points": lambda o: points_view(o.get_all_points()),
    "nonmasked": lambda o: points_view(o.get_non_masked_points()),
    "coord_points": lambda o: points_view(o.get_coordinates_points()),
    "slice": lambda o: snap_u(o[mid_slice(o.data.shape[0])]),
    "copy": lambda o: snap_u(o.copy()),
    "frame": lambda o: frame(o.as_data_frame()),
    "summary": lambda o: str(o),
    "points": lambda o: [list(map(str, p)) for p in list(iter_points(o))],
}


def iter_points(o, k=5):
    out = []
    for i, p in enumerate(o.get_non_masked_points()):
        if i >= k:
            break
        out.append((p.latitude, p.longitude, p.altitude, p.time, p.val[0] if p.val else None))
    return out


def frame(df):
    return {"columns": [str(c) for c in df.columns], "index": [str(x) for x in df.index[:5]], "n": len(df),
            "cols": [Arr(np.asarray(df[c].values)) for c in df.columns]}


def snap_u(o, history=True):
    cs = o.coords()                       # loads everything and drops points without coordinates
    return {"data": Arr(o.data), "flat": Arr(o.data_flattened), "shape": [int(x) for x in o.shape], "size": int(o.size),
            "meta": meta(o.metadata, history), "attrs": {k: attr(v) for k, v in o.attributes.items()},
            "coords": [snap_coord(c) for c in cs],
            "coords_flat": [None if c is None else Arr(c) for c in o.coords_flattened]}


# ------------------------------------------------------------------------------------------------ gridded

def g_coord(cube, c):
    return {"name": c.name(), "var": c.var_name, "std": c.standard_name, "units": str(c.units), "points": Arr(c.points),
            "bounds": None if c.bounds is None else Arr(c.bounds), "dims": [int(x) for x in cube.coord_dims(c)],
            "attrs": {k: attr(v) for k, v in c.attributes.items()}}


def snap_g(o, history=True):
    at = {k: attr(v) for k, v in o.attributes.items() if history or k != "history"}
    return {"data": Arr(o.data), "shape": list(o.shape), "var": o.var_name, "std": o.standard_name, "long": o.long_name,
            "units": str(o.units), "attrs": at, "cell_methods": [str(m) for m in o.cell_methods],
            "dim_coords": [g_coord(o, c) for c in o.dim_coords],
            "aux_coords": sorted((g_coord(o, c) for c in o.aux_coords), key=lambda d: (d["name"], d["var"] or ""))}


G_ACCESS = {
    "data": lambda o: Arr(o.data),
    "shape": lambda o: list(o.shape),
    "coords_data": lambda o: [Arr(c.points) for c in o.coords()],
    "lat": lambda o: Arr(o.coord("latitude").points),
    "lon": lambda o: Arr(o.coord("longitude").points),
    "bounds": lambda o: [None if c.bounds is None else Arr(c.bounds) for c in o.coords()],
    "all_points": lambda o: gpoints(o.get_all_points()),
    "nonmasked": lambda o: gpoints(o.get_non_masked_points()),
    "slice": lambda o: snap_g(o[tuple(mid_slice(n) for n in o.shape)]),
    "first": lambda o: snap_g(o[0]),
    "copy": lambda o: snap_g(o.copy()),
    "summary": lambda o: str(o),
}


def gpoints(v):
    return {"n": len(v), "data": Arr(v.data), "some": [[str(x) for x in (p.latitude, p.longitude, p.time, p.val[0] if p.val else None)]
                                                       for p in [v[i] for i in range(min(4, len(v)))]]}


def access_table(o):
    return G_ACCESS if o.is_gridded else U_ACCESS


def snap(o, history=True):
    if isinstance(o, list):
        return [snap(x, history) for x in o]
    return snap_g(o, history) if o.is_gridded else snap_u(o, history)
