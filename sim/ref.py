"""A small executable reference of what the operations of cis mean: plain numpy, point by point, no use of cis.

Data sets are U (points) and G (grids); every operation takes models and gives models.  Where the definition leaves a
choice (ties, weights of exactly zero) the cell is listed in `any` and its value is not compared.
"""
import math

import numpy as np
import numpy.ma as ma

EARTH = 6378.0                     # kilometres: the sphere the separations of cis are measured on


class Undefined(Exception):
    """The definition gives no result for these arguments (the operation may refuse them)."""


def f8(a):
    m = ma.getmaskarray(a)
    v = np.array(ma.getdata(a), dtype="f8")
    m = m | np.isnan(v) | np.isinf(v)
    v[m] = 0
    return ma.masked_array(v, mask=m)


class U(object):
    gridded = False

    def __init__(self, coords, vals, var=None, units=None, tol=1e-9, any=None, blur=False):
        self.blur = blur            # longitudes were moved by whole turns: rounded
        self.coords, self.vals, self.var, self.units, self.tol = dict(coords), f8(vals), var, units, tol
        self.any = np.zeros(self.vals.shape, bool) if any is None else any

    def like(self, **kw):
        d = dict(coords=self.coords, vals=self.vals, var=self.var, units=self.units, tol=self.tol, any=self.any, blur=self.blur)
        d.update(kw)
        return U(**d)

    def take(self, keep):
        return self.like(coords={k: v[keep] for k, v in self.coords.items()}, vals=self.vals[keep], any=self.any[keep])

    @property
    def n(self):
        return self.vals.size


class G(object):
    gridded = True

    def __init__(self, dims, pts, bnds, vals, var=None, units=None, circ=False, tol=1e-9, any=None, scal=None, blur=False):
        self.dims, self.pts, self.bnds, self.vals = list(dims), dict(pts), dict(bnds), f8(vals)
        self.var, self.units, self.circ, self.tol = var, units, circ, tol
        self.any = np.zeros(self.vals.shape, bool) if any is None else any
        self.scal, self.blur = dict(scal or {}), blur

    def like(self, **kw):
        d = dict(dims=self.dims, pts=self.pts, bnds=self.bnds, vals=self.vals, var=self.var, units=self.units, circ=self.circ,
                 tol=self.tol, any=self.any, scal=self.scal, blur=self.blur)
        d.update(kw)
        return G(**d)

    def ax(self, name):
        return self.dims.index(name)

    def take(self, name, idx, points=None, bounds=None):
        i = self.ax(name)
        p, b = dict(self.pts), dict(self.bnds)
        p[name] = self.pts[name][idx] if points is None else points
        b[name] = (None if self.bnds.get(name) is None else self.bnds[name][idx]) if bounds is None else bounds
        return self.like(pts=p, bnds=b, vals=self.vals.take(idx, axis=i), any=self.any.take(idx, axis=i),
                         circ=self.circ and name != "longitude")

    def around(self, name):
        """Whether the first position follows the last: yes, no, or perhaps (the grid covers the circle, but is not known to be one)."""
        p = self.pts[name]
        if name != "longitude" or p.size < 2 or abs(abs(p[1] - p[0]) * p.size - 360.0) > 1e-3 or np.ptp(np.diff(p)) > 1e-3:
            return "no"
        return "yes" if self.circ else "perhaps"

    def single(self, name, i):
        ax = self.ax(name)
        b = self.bnds.get(name)
        scal = dict(self.scal)
        scal[name] = (float(self.pts[name][i]),) * 2 if b is None else (float(b[i].min()), float(b[i].max()))
        dims = [d for d in self.dims if d != name]
        return self.like(dims=dims, pts={d: self.pts[d] for d in dims}, bnds={d: self.bnds.get(d) for d in dims},
                         vals=self.vals.take(i, axis=ax), any=self.any.take(i, axis=ax), scal=scal)


def wrap(lon, start):
    return np.where((lon >= start) & (lon < start + 360.0), lon, start + (lon - start) % 360.0)


# ------------------------------------------------------------------------------------------------ longitude ranges

def lon_range(m, start):
    if not m.gridded:
        if "longitude" not in m.coords:
            raise Undefined("no longitude")
        c = dict(m.coords)
        c["longitude"] = wrap(c["longitude"], start)
        return m.like(coords=c, blur=m.blur or bool((c["longitude"] != m.coords["longitude"]).any()))
    if "longitude" not in m.dims:
        raise Undefined("no longitude dimension")
    old = m.pts["longitude"]
    new = wrap(old, start)
    if m.blur and ((np.abs(new - start) < 1e-9) | (np.abs(new - start - 360.0) < 1e-9)).any():
        raise Undefined("points where the range starts, but for rounding")
    order = np.argsort(new, kind="stable")
    if old.size > 1 and old[1] < old[0]:
        order = order[::-1]
    b = m.bnds.get("longitude")
    if b is not None:
        b = (b + (new - old)[:, None])[order]
    return m.take("longitude", order, points=new[order], bounds=b).like(circ=m.circ, blur=m.blur or bool((new != old).any()))


def lon_start(m):
    """The 360 degrees a data set's longitudes are kept in by collocation."""
    lon = m.pts.get("longitude") if m.gridded else m.coords.get("longitude")
    if lon is None:
        return None
    st = -180.0 if lon.min() < 0 else 0.0
    if m.gridded and m.blur and min(abs(lon.min()), abs(lon.min() + 180.0), abs(lon.max() - st - 360.0)) < 1e-9:
        raise Undefined("limits of the usual range, but for rounding")
    if lon.min() < st or lon.max() >= st + 360.0:
        st = (lon.min() + lon.max()) / 2.0 - 180.0
    return st


# ------------------------------------------------------------------------------------------------ subsets

def inside_polygon(poly, x, y):
    out = np.zeros(x.shape, bool)
    for (x0, y0), (x1, y1) in zip(poly, poly[1:] + poly[:1]):
        if y0 == y1:
            continue
        cross = ((y0 > y) != (y1 > y)) & (x < (x1 - x0) * (y - y0) / (y1 - y0) + x0)
        out ^= cross
    return out


def on_edge(poly, x, y):
    for (x0, y0), (x1, y1) in zip(poly, poly[1:] + poly[:1]):
        off = np.abs((x - x0) * (y1 - y0) - (y - y0) * (x1 - x0)) / math.hypot(x1 - x0, y1 - y0)
        if ((off < 1e-7) & (x >= min(x0, x1) - 1e-7) & (x <= max(x0, x1) + 1e-7) & (y >= min(y0, y1) - 1e-7) &
                (y <= max(y0, y1) + 1e-7)).any():
            raise Undefined("points on the outline")


def subset_u(m, lims, poly=None):
    lims = dict(lims)
    if poly:
        lims["longitude"] = [min(p[0] for p in poly), max(p[0] for p in poly)]
        lims["latitude"] = [min(p[1] for p in poly), max(p[1] for p in poly)]
    if "longitude" in lims:
        lo, hi = lims["longitude"]
        lon = m.coords["longitude"]
        if hi - lo > 360:
            raise Undefined("more than the whole circle")
        keep = (lon >= lo) & (lon <= hi)
        moved = wrap(lon, lo)
        if grazes(lon, moved, lo, hi) or (m.blur and any((np.abs((lon - x + 180.0) % 360.0 - 180.0) < 1e-9).any() for x in (lo, hi))):
            raise Undefined("points on the limits, but for rounding")
        if (~keep & (moved <= hi)).any():         # longitudes are circular: -10 is 350
            c = dict(m.coords)
            c["longitude"] = moved
            m = m.like(coords=c, blur=True)
            keep = moved <= hi
    else:
        keep = np.ones(m.n, bool)
    for k, (lo, hi) in lims.items():
        if k != "longitude":
            keep &= (m.coords[k] >= lo) & (m.coords[k] <= hi)
    if poly:
        on_edge(poly, m.coords["longitude"][keep], m.coords["latitude"][keep])
        keep &= inside_polygon(poly, m.coords["longitude"], m.coords["latitude"])
    return m.take(np.flatnonzero(keep)) if keep.any() else None


def grazes(old, new, lo, hi):
    """Whether positions moved by whole turns are so close to a limit that rounding decides."""
    return (np.abs(new - lo - 360.0) < 1e-9).any() or any(((np.abs(new - x) < 1e-9) & (np.abs(old - x) > 1e-9)).any()
                                                          for x in (lo, hi))


def align(m, o):
    """A dimension with one position may be left as it is, or become a property of the whole."""
    if m.gridded and hasattr(o, "dim_coords"):
        have = {c.standard_name for c in o.dim_coords}
        for d in list(m.dims):
            if d not in have and m.pts[d].size == 1:
                m = m.single(d, 0)
    return m


def circle_cut(pts, bnds, lo, hi):
    """Indices of the cells which touch [lo, hi] on the circle, in order, with their points and bounds moved there."""
    if hi - lo > 360:
        raise Undefined("more than the whole circle")
    if bnds is None:
        new = wrap(pts, lo)
        if grazes(pts, new, lo, hi):
            raise Undefined("points on the limits, but for rounding")
        idx = np.flatnonzero(new <= hi)
        off = (new - pts)[idx]
    else:
        low, upp = bnds.min(axis=1), bnds.max(axis=1)
        if upp.max() > low.min() + 360.0:
            raise Undefined("cells overlap themselves")
        up2 = wrap(upp, lo)
        shift = up2 - upp
        if hi - lo == 360.0:
            shift = np.where(np.isclose(up2, lo), shift + 360.0, shift)
        if grazes(upp, upp + shift, lo, hi) or grazes(low, low + shift, lo, hi):
            raise Undefined("cells on the limits, but for rounding")
        idx = np.flatnonzero(low + shift <= hi)
        if idx.size == pts.size and (low + shift < lo).any():
            raise Undefined("whole circle, with a cell on the lower limit")
        off = shift[idx]
    p = pts[idx] + off
    order = np.argsort(p, kind="stable")
    if pts.size > 1 and pts[1] < pts[0]:
        order = order[::-1]
    idx = idx[order]
    return idx, p[order], None if bnds is None else (bnds[idx] + off[order][:, None])


def subset_g(m, lims, poly=None):
    lims = dict(lims)
    if poly:
        lims["longitude"] = [min(p[0] for p in poly), max(p[0] for p in poly)]
        lims["latitude"] = [min(p[1] for p in poly), max(p[1] for p in poly)]
    for k, (lo, hi) in lims.items():
        if k not in m.dims:
            raise Undefined("not a dimension")
        if k in ("latitude", "longitude"):
            if hi < lo:
                raise Undefined("upside down")
            edges = m.pts[k] if m.bnds.get(k) is None else m.bnds[k]
            if m.blur and any((np.abs((edges - x + 180.0) % 360.0 - 180.0) < 1e-9).any() for x in (lo, hi)):
                raise Undefined("on the limits, but for rounding")
            idx, p, b = circle_cut(m.pts[k], m.bnds.get(k), lo, hi)
            if not idx.size:
                return None
            m = m.take(k, idx, points=p, bounds=b).like(blur=True)
        else:
            off = m.pts[k] * 8 != np.round(m.pts[k] * 8)
            if k == "time" and any((off & (np.abs(m.pts[k] - x) < 1e-9)).any() for x in (lo, hi)):
                raise Undefined("on the limits, but for microseconds")
            keep = np.flatnonzero((m.pts[k] >= lo) & (m.pts[k] <= hi))
            if not keep.size:
                return None
            m = m.take(k, keep)
    if poly:
        i, j = m.ax("latitude"), m.ax("longitude")
        y, x = np.meshgrid(m.pts["latitude"], m.pts["longitude"], indexing="ij")
        on_edge(poly, x, y)
        out = ~inside_polygon(poly, x, y)
        if i > j:
            out = out.T
        m = m.like(vals=ma.masked_array(m.vals.data, mask=ma.getmaskarray(m.vals) | out))
    return m


# ------------------------------------------------------------------------------------------------ statistics

def stats(kind, x):
    """Plain statistics of a list of numbers (None: missing)."""
    x = np.asarray(x, dtype="f8")
    n = x.size
    if n == 0:
        return [None] * (3 if kind == "moments" else 1)
    mean = math.fsum(x) / n
    if kind == "mean":
        return [mean]
    if kind == "min":
        return [float(min(x))]
    if kind == "max":
        return [float(max(x))]
    if kind == "sum":
        return [math.fsum(x)]
    std = None if n < 2 else math.sqrt(math.fsum((v - mean) ** 2 for v in x) / (n - 1))
    if kind == "stddev":
        return [std]
    if kind == "moments":
        return [mean, std, float(n)]
    raise KeyError(kind)


def names(kind, var):
    return ([var, var and var + "_std_dev", var and var + "_num_points"]) if kind == "moments" else [var]


def units(kind, u):
    return [u, u, "any"] if kind == "moments" else [u]


def guess_bounds(name, p):
    p = np.asarray(p, "f8")
    d = np.diff(p)
    d = np.insert(d, 0, d[0])
    d = np.append(d, d[-1])
    b = np.stack([p - d[:-1] * .5, p + d[1:] * .5], axis=1)
    if name == "latitude" and (p >= -90).all() and (p <= 90).all():
        b = np.clip(b, -90, 90)
    return b


def cells_of(bnds, c):
    """Cell number of each point (lower edge included, upper edge excluded), -1 outside."""
    out = np.full(c.shape, -1)
    low, upp = bnds.min(axis=1), bnds.max(axis=1)
    for k in range(len(low)):
        out[(c >= low[k]) & (c < upp[k])] = k
    return out


def into_cells(m, dims, bnds, kind):
    """Statistics of the points of U model m in each cell."""
    shape = [len(bnds[d]) for d in dims]
    where = [cells_of(bnds[d], m.coords[d]) if bnds[d] is not True else np.zeros(m.n, int) for d in dims]
    ok = ~ma.getmaskarray(m.vals)
    for d in dims:
        e = np.unique(bnds[d])
        off = np.abs(m.coords[d][ok][:, None] - e[np.isfinite(e)][None, :])
        if ((off > 0) & (off < 1e-9 * (1 + np.abs(m.coords[d][ok][:, None])))).any():
            raise Undefined("points on the edges of cells, but for rounding")
    for w in where:
        ok &= w >= 0
    groups, unsure = {}, set()
    for i in np.flatnonzero(ok):
        cell = tuple(int(w[i]) for w in where)
        groups.setdefault(cell, []).append(float(m.vals.data[i]))
        if m.any[i]:
            unsure.add(cell)
    k = len(names(kind, "x"))
    vals = [ma.masked_all(shape, "f8") for _ in range(k)]
    any_ = np.zeros(shape, bool)
    for cell, x in groups.items():
        for v, s in zip(vals, stats(kind, x)):
            if s is not None:
                v[cell] = s
    for cell in unsure:
        any_[cell] = True
    return vals, any_


def on_cells(m, b):
    """The points spelled with the longitudes of the cells."""
    if b.max() - b.min() > 360.0 + 1e-9:
        raise Undefined("cells beyond the whole circle")
    return lon_range(m, b.min())


def aggregate(m, grid, kind):
    if not m.n:
        raise Undefined("no points")
    dims = list(m.coords)
    pts, bnds, use = {}, {}, {}
    for d in dims:
        if d in grid:
            a, b, s = grid[d]
            pts[d] = np.arange(a + s / 2, b + s / 2, s)
            if not pts[d].size:
                raise Undefined("empty grid")
            bnds[d] = np.array([[a, b]], "f8") if pts[d].size == 1 else guess_bounds(d, pts[d])
            use[d] = bnds[d]
        else:
            c = m.coords[d]
            lo, hi = float(c.min()), float(c.max())
            pts[d] = np.array([lo + (hi - lo) / 2.0])
            bnds[d] = np.array([[lo, hi]])
            use[d] = np.array([[-np.inf, np.inf]])
    if "longitude" in grid:
        m = on_cells(m, use["longitude"])
    vals, any_ = into_cells(m, dims, use, kind)
    return [G(dims, pts, bnds, v, var=n, units=u, tol=max(m.tol, 1e-9), any=any_.copy())
            for v, n, u in zip(vals, names(kind, m.var), units(kind, m.units))]


def into_grid(m, g, kind):
    """Collocation of points onto a grid."""
    dims = [d for d in g.dims if d in m.coords]
    if not dims:
        raise Undefined("nothing in common")
    bnds = {}
    for d in dims:
        b = g.bnds.get(d)
        if b is None:
            if g.pts[d].size < 2:
                raise Undefined("no bounds")
            b = guess_bounds(d, g.pts[d])
        bnds[d] = b
    if "longitude" in dims:
        m = on_cells(m, bnds["longitude"])
    vals, any_ = into_cells(m, dims, bnds, kind)
    return [G(dims, {d: g.pts[d] for d in dims}, bnds, v, var=n, units=u, tol=max(m.tol, 1e-9), any=any_.copy())
            for v, n, u in zip(vals, names(kind, m.var), units(kind, m.units))]


def area_weights(m):
    lat, lon = m.bnds.get("latitude"), m.bnds.get("longitude")
    if "latitude" not in m.dims or "longitude" not in m.dims:
        raise Undefined("no areas")
    for d in ("latitude", "longitude"):
        if m.bnds.get(d) is None and m.pts[d].size < 2:
            raise Undefined("no bounds")
    lat = guess_bounds("latitude", m.pts["latitude"]) if lat is None else lat
    lon = guess_bounds("longitude", m.pts["longitude"]) if lon is None else lon
    a = np.abs(np.sin(np.radians(lat[:, 1])) - np.sin(np.radians(lat[:, 0])))
    b = np.abs(np.radians(lon[:, 1] - lon[:, 0]))
    w = np.ones(m.vals.shape)
    sh = [1] * w.ndim
    sh[m.ax("latitude")] = -1
    w = w * a.reshape(sh)
    sh = [1] * w.ndim
    sh[m.ax("longitude")] = -1
    return w * b.reshape(sh) * 6367470.0 ** 2


def collapse(m, over, kind):
    if any(o not in m.dims for o in over):
        raise Undefined("not a dimension")
    axes = [m.ax(o) for o in over]
    keep = [i for i in range(len(m.dims)) if i not in axes]
    weighted = kind in ("mean", "sum", "RMS", "moments") and "latitude" in over
    w = area_weights(m) if weighted else np.ones(m.vals.shape)
    sh = [m.vals.shape[i] for i in keep]
    k = len(names(kind, "x"))
    out = [ma.masked_all(sh, "f8") for _ in range(k)]
    unsure = np.zeros(sh, bool)
    order = keep + axes
    v = m.vals.transpose(order).reshape(sh + [-1])
    w = w.transpose(order).reshape(sh + [-1])
    a = m.any.transpose(order).reshape(sh + [-1])
    for cell in np.ndindex(*sh):
        ok = ~ma.getmaskarray(v[cell])
        x, ww = v.data[cell][ok], w[cell][ok]
        unsure[cell] = a[cell].any()
        if kind == "moments":
            out[2][cell] = float(x.size)
        if not x.size:
            continue
        if math.fsum(ww) == 0.0:
            unsure[cell] = True
        elif kind in ("mean", "moments"):
            out[0][cell] = math.fsum(x * ww) / math.fsum(ww)
            if kind == "moments":
                s = stats("stddev", x)[0]
                if s is not None:
                    out[1][cell] = s
        elif kind == "sum":
            out[0][cell] = math.fsum(x * ww)
        elif kind == "RMS":
            out[0][cell] = math.sqrt(math.fsum(x * x * ww) / math.fsum(ww))
        elif kind == "median":
            out[0][cell] = float(np.median(x))
        elif kind in ("gmean", "hmean"):
            if (x <= 0).any():
                unsure[cell] = True
            elif kind == "gmean":
                out[0][cell] = math.exp(math.fsum(math.log(t) for t in x) / x.size)
            else:
                out[0][cell] = x.size / math.fsum(1.0 / t for t in x)
        else:
            out[0][cell] = stats(kind, x)[0]
    dims = [m.dims[i] for i in keep]
    scal = dict(m.scal)
    for o in over:
        b = m.bnds.get(o)
        if b is None:
            b = guess_bounds(o, m.pts[o]) if m.pts[o].size > 1 else m.pts[o][:, None]
        scal[o] = (float(b.min()), float(b.max()))
    tol = max(m.tol, 1e-9)
    bn = {d: m.bnds.get(d) if m.bnds.get(d) is not None else (guess_bounds(d, m.pts[d]) if m.pts[d].size > 1 else None) for d in dims}
    return [G(dims, {d: m.pts[d] for d in dims}, bn, o, var=n, units="any", tol=tol, any=unsure.copy(), scal=scal, circ=m.circ, blur=m.blur)
            for o, n in zip(out, names(kind, m.var))]


# ------------------------------------------------------------------------------------------------ collocation onto points

def distance(lat1, lon1, lat2, lon2):
    a = [np.radians(np.asarray(t, "f8")) for t in (lat1, lon1, lat2, lon2)]
    x = np.cos(a[0]) * np.cos(a[1]) * np.cos(a[2]) * np.cos(a[3]) + np.cos(a[0]) * np.sin(a[1]) * np.cos(a[2]) * np.sin(a[3]) + \
        np.sin(a[0]) * np.sin(a[2])
    # chord rather than arc cosine: exact for small separations too
    p = np.stack([np.cos(a[0]) * np.cos(a[1]), np.cos(a[0]) * np.sin(a[1]), np.sin(a[0])], -1)
    q = np.stack([np.cos(a[2]) * np.cos(a[3]), np.cos(a[2]) * np.sin(a[3]), np.sin(a[2])], -1)
    chord = np.sqrt(((p - q) ** 2).sum(-1))
    return np.where(x > -.9, 2 * EARTH * np.arcsin(np.clip(chord / 2, 0, 1)), EARTH * np.arccos(np.clip(x, -1, 1)))


def box(sample, data, seps, kind, mdms):
    """Each sample point gets the statistic of the data points within every separation; seps: name -> limit."""
    need = {"h_sep": ["latitude", "longitude"], "a_sep": ["altitude"], "t_sep": ["time"], "p_sep": ["air_pressure"],
            "nn_h": ["latitude", "longitude"], "nn_a": ["altitude"], "nn_t": ["time"], "nn_p": ["air_pressure"]}
    for s in list(seps) + [kind]:
        for c in need.get(s, []):
            if c not in sample.coords or c not in data.coords:
                raise Undefined("no " + c)
    st = lon_start(sample)
    if st is not None:
        sample = lon_range(sample, st)
        if "longitude" in data.coords:
            data = lon_range(data, st)
    have = ~ma.getmaskarray(data.vals)
    d, s = data.coords, sample.coords
    k = len(names(kind, "x"))
    out = [ma.masked_all(sample.n, "f8") for _ in range(k)]
    unsure = np.zeros(sample.n, bool)
    hold = ~ma.getmaskarray(sample.vals)
    for i in range(sample.n):
        if sample.any[i]:
            unsure[i] = mdms
        if mdms and not hold[i]:
            continue
        near = have.copy()
        edge = np.zeros(data.n, bool)
        if "h_sep" in seps:
            h = distance(s["latitude"][i], s["longitude"][i], d["latitude"], d["longitude"])
            near &= h < seps["h_sep"]
            edge |= np.abs(h - seps["h_sep"]) < 1e-6
        if "a_sep" in seps:
            h = np.abs(d["altitude"] - s["altitude"][i])
            near &= h < seps["a_sep"]
            edge |= np.abs(h - seps["a_sep"]) < 1e-9
        if "t_sep" in seps:
            h = np.abs(d["time"] - s["time"][i])
            near &= h < seps["t_sep"]
            edge |= np.abs(h - seps["t_sep"]) < 1e-9
        if "p_sep" in seps:
            r = d["air_pressure"] / s["air_pressure"][i]
            r = np.maximum(r, 1 / r)
            near &= r < seps["p_sep"]
            edge |= np.abs(r - seps["p_sep"]) < 1e-12
        if (edge & have).any():
            unsure[i] = True
        idx = np.flatnonzero(near)
        if data.any[idx].any():
            unsure[i] = True
        if kind.startswith("nn_"):
            if not idx.size:
                continue
            if kind == "nn_h":
                q = distance(s["latitude"][i], s["longitude"][i], d["latitude"][idx], d["longitude"][idx])
            elif kind == "nn_a":
                q = np.abs(d["altitude"][idx] - s["altitude"][i])
            elif kind == "nn_t":
                q = np.abs(d["time"][idx] - s["time"][i])
            else:
                q = d["air_pressure"][idx] / s["air_pressure"][i]
                q = np.maximum(q, 1 / q)
            o = np.argsort(q, kind="stable")
            if idx.size > 1 and q[o[1]] - q[o[0]] < 1e-9:
                unsure[i] = True
            out[0][i] = data.vals.data[idx[o[0]]]
        else:
            for v, x in zip(out, stats(kind, data.vals.data[idx])):
                if x is not None:
                    v[i] = x
    return [sample.like(vals=v, var=n, units=u, tol=max(data.tol, 1e-9), any=unsure.copy())
            for v, n, u in zip(out, names(kind, data.var), units(kind, data.units))]


def axis_weights(p, x, circ, how, blur=False):
    """Positions and weights on one grid axis: (i0, w0, i1, w1, outside, unsure, gap, the next position if at a point)."""
    n = p.size
    idx = np.arange(n)
    gap = np.zeros(x.shape, bool)
    if n > 1 and p[1] < p[0]:
        idx = idx[::-1]
    q = p[idx]
    if circ != "no":
        gap = (circ == "perhaps") & ~((x >= q[0]) & (x <= q[-1]))
        q = np.append(q, q[0] + 360.0)
        idx = np.append(idx, idx[0])
        x = wrap(x, q[0])
    if n < 2:
        raise Undefined("one grid point")
    out = (x < q[0]) | (x > q[-1])
    edge = ((np.abs(x - q[0]) < 1e-7) & ((x != q[0]) | blur)) | ((np.abs(x - q[-1]) < 1e-7) & ((x != q[-1]) | blur))
    j = np.clip(np.searchsorted(q, x, side="left") - 1, 0, q.size - 2)
    t = (x - q[j]) / (q[j + 1] - q[j])
    if how == "nn":
        unsure = np.abs(t - .5) < 1e-7
        near = t > .5
        gap = gap | edge
        return idx[j], np.where(near, 0., 1.), idx[j + 1], np.where(near, 1., 0.), out, unsure, gap, idx[j]
    unsure = (np.abs(t) < 1e-7) | (np.abs(t - 1) < 1e-7)
    gap = gap | edge
    other = np.where(np.abs(t - 1) < 1e-7, np.minimum(j + 2, q.size - 1), np.where(np.abs(t) < 1e-7, np.maximum(j - 1, 0), j))
    return idx[j], 1 - t, idx[j + 1], t, out, unsure, gap, idx[other]


def at_points(data, names_, xs, how):
    """Value of grid `data` at points given by one coordinate array per dimension."""
    from itertools import product
    n = xs[0].size
    aw = [axis_weights(data.pts[d], x, data.around(d), how, data.blur) for d, x in zip(names_, xs)]
    val = np.zeros(n)
    bad = np.zeros(n, bool)
    free = np.zeros(n, bool)
    out = np.zeros(n, bool)
    close = np.zeros(n, bool)
    for a in aw:
        out |= a[4]
        close |= a[5]
    mask = ma.getmaskarray(data.vals)
    for pick in product((0, 1), repeat=len(aw)):
        w = np.ones(n)
        ii = []
        for a, b in zip(aw, pick):
            w = w * a[2 * b + 1]
            ii.append(a[2 * b])
        m = mask[tuple(ii)]
        v = data.vals.data[tuple(ii)]
        used = w > 0
        bad |= m & (used if how == "nn" else np.ones(n, bool))
        free |= data.any[tuple(ii)] & used
        val = val + np.where(m, 0, v) * w
    beside = bad.copy()
    for pick in product((0, 2, 7), repeat=len(aw)):
        at = tuple(a[b] for a, b in zip(aw, pick))
        beside |= mask[at] | data.any[at]
    free |= close & ((how == "nn") | beside)          # ties; a missing neighbour of weight nought
    edge = np.zeros(n, bool)
    for a in aw:
        edge |= a[6]
    return ma.masked_array(val, mask=bad | out), (free & ~out) | edge


def grid_to_points(sample, data, how, mdms):
    if any(d not in sample.coords for d in data.dims):
        raise Undefined("sample does not fix every dimension")
    st = lon_start(sample)
    if st is not None:
        sample = lon_range(sample, st)
        data = lon_range(data, st) if "longitude" in data.dims else data
    v, free = at_points(data, data.dims, [sample.coords[d] for d in data.dims], how)
    if mdms:
        v = ma.masked_array(v.data, mask=ma.getmaskarray(v) | ma.getmaskarray(sample.vals))
        free |= sample.any
    return [sample.like(vals=v, var=data.var, units=data.units, tol=max(data.tol, 1e-7), any=free)]


def grid_to_grid(sample, data, how):
    st = lon_start(sample)
    if st is not None and "longitude" in data.dims:
        data = lon_range(data, st)
    dims = [d for d in sample.dims if d in data.dims]
    if not dims:
        raise Undefined("nothing in common")
    rest = [d for d in data.dims if d not in dims]
    if any(d in sample.scal for d in data.dims) or any(d in data.scal for d in sample.dims):
        raise Undefined("single positions")
    order = [data.ax(d) for d in dims + rest]
    src = data.vals.transpose(order)
    anyt = data.any.transpose(order)
    shape = [sample.pts[d].size for d in dims]
    mesh = [x.ravel() for x in np.meshgrid(*[sample.pts[d] for d in dims], indexing="ij")]
    rs = list(src.shape[len(dims):])
    out = ma.masked_all([int(np.prod(shape))] + rs, "f8")
    free = np.zeros(out.shape, bool)
    for r in np.ndindex(*rs):
        part = data.like(blur=data.blur or sample.blur, dims=dims, vals=src[(Ellipsis,) + r], any=anyt[(Ellipsis,) + r])
        v, fr = at_points(part, dims, mesh, how)
        out[(slice(None),) + r] = v
        free[(slice(None),) + r] = fr
    pts = {d: sample.pts[d] for d in dims}
    pts.update({d: data.pts[d] for d in rest})
    return [G(dims + rest, pts, {}, out.reshape(shape + rs), var=data.var, units=data.units, tol=max(data.tol, 1e-6),
              any=free.reshape(shape + rs), circ=sample.circ, scal=data.scal, blur=data.blur or sample.blur)]


# ------------------------------------------------------------------------------------------------ point by point

def arith(m, f, k):
    v = m.vals
    out = {"add": lambda: v + k, "mul": lambda: v * k, "sub": lambda: v - k, "div": lambda: v / k, "self": lambda: v + v,
           "pow": lambda: v ** 2}[f]()
    return m.like(vals=out, var=None, units="any")


def evaluate(m, expr):
    v = m.vals
    if expr == "a * 2 + 1":
        out = v * 2 + 1
    elif expr == "a + numpy.sqrt(a)":
        neg = ma.getmaskarray(v) | (v.data < 0)
        out = ma.masked_array(v.data + np.sqrt(np.where(neg, 0, v.data)), mask=neg)
    else:
        out = ma.masked_array(v.data, mask=ma.getmaskarray(v) | (v.data < 4))
    return m.like(vals=out, var="calc", units="1")


# ------------------------------------------------------------------------------------------------ comparison with the real thing

def compare(m, o):
    """None, or what is different between the model and the cis object."""
    if m.gridded != bool(getattr(o, "is_gridded", o.__class__.__name__ == "Cube")):
        return "kind of data: expected %s" % ("a grid" if m.gridded else "points")
    if m.var is not None and o.var_name != m.var:
        return "name: expected %r, got %r" % (m.var, o.var_name)
    if m.units not in (None, "any") and str(o.units) != m.units:
        return "units: expected %r, got %r" % (m.units, str(o.units))
    if not m.gridded:
        got = {c.standard_name: c for c in o.coords()}
        if set(got) != set(m.coords):
            return "coordinates: expected %s, got %s" % (sorted(m.coords), sorted(got))
        for c, want in m.coords.items():
            d = near(want, got[c].data, 1e-9)
            if d:
                return "coordinate %s: %s" % (c, d)
        return values(m.vals, o.data, m.tol, m.any)
    dims = [c.standard_name for c in o.dim_coords]
    where = {c.standard_name: o.coord_dims(c)[0] for c in o.dim_coords}
    if set(dims) != set(m.dims):
        return "dimensions: expected %s, got %s" % (sorted(m.dims), sorted(map(str, dims)))
    for d in m.dims:
        c = [c for c in o.dim_coords if c.standard_name == d][0]
        r = near(m.pts[d], c.points, 1e-7)
        if r:
            return "coordinate %s: %s" % (d, r)
        if m.bnds.get(d) is not None and c.bounds is not None:
            r = near(np.sort(m.bnds[d], axis=1), np.sort(c.bounds, axis=1), 1e-7)
            if r:
                return "bounds of %s: %s" % (d, r)
    for d, (lo, hi) in m.scal.items():
        c = o.coords(standard_name=d)
        if len(c) != 1 or c[0].shape != (1,):
            return "single position %s: %s" % (d, c)
        b = c[0].points if lo == hi or c[0].bounds is None else c[0].bounds
        turn = 360.0 * np.round((b.min() - lo) / 360.0) if d == "longitude" else 0.0
        if abs(b.min() - lo - turn) > 1e-6 or abs(b.max() - hi - turn) > 1e-6:
            return "collapsed %s: expected %r to %r, got %r to %r" % (d, lo, hi, float(b.min()), float(b.max()))
    v = o.data
    if m.dims:
        v = ma.asanyarray(v).transpose([where[d] for d in m.dims])
    return values(m.vals, v, m.tol, m.any)


def near(want, got, tol):
    got = np.asarray(ma.getdata(got), "f8")
    if want.shape != got.shape:
        return "expected %d values %s, got %d %s" % (want.size, want[:4], got.size, got.ravel()[:4])
    bad = np.abs(want - got) > tol * (1 + np.abs(want))
    if bad.any():
        i = tuple(np.argwhere(bad)[0])
        return "expected %r at %s, got %r (%d of %d differ)" % (float(want[i]), i, float(got[i]), bad.sum(), want.size)


def values(want, got, tol, free):
    got = f8(ma.asanyarray(got))
    if want.shape != got.shape:
        return "shape of the values: expected %s, got %s" % (want.shape, got.shape)
    wm, gm = ma.getmaskarray(want), ma.getmaskarray(got)
    bad = (wm != gm) & ~free
    if bad.any():
        i = tuple(int(x) for x in np.argwhere(bad)[0])
        return "value at %s: expected %s, got %s (%d differ)" % (i, "missing" if wm[i] else repr(float(want.data[i])),
                                                                  "missing" if gm[i] else repr(float(got.data[i])), bad.sum())
    bad = (np.abs(want.data - got.data) > tol * (1 + np.abs(want.data))) & ~wm & ~gm & ~free
    if bad.any():
        i = tuple(int(x) for x in np.argwhere(bad)[0])
        return "value at %s: expected %r, got %r (%d of %d differ)" % (i, float(want.data[i]), float(got.data[i]), bad.sum(), bad.size)
