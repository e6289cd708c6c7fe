"""Operations a user performs on data sets, as small JSON dicts, and the inputs they work on.

Shared by the properties about saving, history, failure, sessions, batches and references.  Everything goes through the
public interface of cis.
"""
import numpy as np

from sim import fixtures, obs

T_REF = 149184.0                        # 2008-06-13 in days since 1600-01-01: where the cis fixtures' times are, roughly
U_KERNELS = ["mean", "moments", "stddev", "min", "max", "sum"]
G_KERNELS = ["mean", "moments", "min", "max", "sum", "median", "gmean", "hmean", "RMS"]


def u_ranges(spec):
    k = int(spec.get("nfiles", 1))
    return {"latitude": (-85.0, 85.0), "longitude": (spec.get("lon0", -180.0), spec.get("lon0", -180.0) + 360.0),
            "altitude": (0.0, 12000.0), "time": (149000.0, 149000.0 + 2.0 * k), "air_pressure": (100.0, 1010.0)}


def u_coords(spec):
    if spec["product"] == "cis":
        return [fixtures.COORD_LETTERS[c] for c in spec.get("coords", "lLat")]
    return ["latitude", "longitude"]


def g_coords(spec):
    n = len(spec.get("shape", [2, 4, 6]))
    return (["time"] if n >= 3 else []) + (["altitude"] if n >= 4 else []) + ["latitude", "longitude"]


def g_ranges(spec):
    sh = spec.get("shape", [2, 4, 6])
    out = {"latitude": (-80.0, 80.0), "longitude": (float(spec.get("lon0", 0.0)), float(spec.get("lon0", 0.0)) + 359.0)}
    if len(sh) >= 3:
        out["time"] = (0.0, float(sh[0] * int(spec.get("nfiles", 1))))
    if len(sh) >= 4:
        out["altitude"] = (0.0, 500.0 * (sh[1] - 1))
    return out


def is_g(inp):
    return inp["fixture"]["product"] in ("gridded", "modis_l3")


# ------------------------------------------------------------------------------------------------ inputs

def gen_u(rng, n=None, product="cis", **over):
    sp = {"product": product, "seed": rng.int(1, 10 ** 6), "nfiles": rng.weighted([(1, 4), (2, 3), (3, 1)]),
          "n": n or rng.int(4, 30), "vars": rng.int(1, 3)}
    if product == "cis":
        sp["coords"] = rng.pick(["lLat", "lLat", "lLt", "lLatp", "lL", "lLa"])
        if rng.chance(.25):
            sp["ints"] = True
        if rng.chance(.15):
            sp["packed"] = rng.pick([True, 2])
        if rng.chance(.15):
            sp["vrange"] = rng.pick([1, 2])
        if rng.chance(.3):
            sp["lon0"] = 0.0
    if rng.chance(.6):
        sp["miss"] = rng.pick([.1, .4])
    if rng.chance(.4):
        sp["cmiss"] = rng.pick([.05, .2])
    sp.update(over)
    return sp


def gen_g(rng, **over):
    sp = {"product": "gridded", "seed": rng.int(1, 10 ** 6), "nfiles": rng.weighted([(1, 3), (2, 2)]), "vars": rng.int(1, 3),
          "shape": rng.weighted([([rng.int(2, 3), rng.int(3, 6), rng.int(4, 8)], 5), ([rng.int(3, 6), rng.int(4, 8)], 3),
                                 ([2, 2, 3, 4], 1)]),
          "lon0": rng.pick([0.0, -180.0, 5.0])}
    if len(sp["shape"]) == 2:
        sp["nfiles"] = 1
    if rng.chance(.6):
        sp["miss"] = rng.pick([.1, .4])
    for k, p in (("bounds", .4), ("aux", .25), ("latdesc", .25), ("vrange", .15)):
        if rng.chance(p):
            sp[k] = rng.pick([1, 2]) if k == "vrange" else True
    if rng.chance(.2):
        sp["dtype"] = "f4"
    sp.update(over)
    return sp


def gen_input(rng, kind, as_list=None, **over):
    sp = gen_u(rng, **over) if kind == "u" else gen_g(rng, **over)
    lst = rng.chance(.25) if as_list is None else as_list
    if lst:
        sp["vars"] = max(2, sp["vars"])
    return {"fixture": sp, "list": lst, "var": 0 if lst else rng.int(0, sp["vars"] - 1)}


class Inputs(object):
    """The fabricated files of a program's inputs, and how to open them (lazily) as cis data sets."""

    def __init__(self, env, inputs, sub="in"):
        self.inputs = inputs
        self.fx = [fixtures.make(env, i["fixture"], "%s%d" % (sub, k)) for k, i in enumerate(inputs)]

    def open(self, k):
        import cis
        i, fx = self.inputs[k], self.fx[k]
        if i["list"]:
            return cis.read_data_list(list(fx["files"]), list(fx["vars"]), fx["product"])
        return cis.read_data(list(fx["files"]), fx["vars"][i["var"] % len(fx["vars"])], fx["product"])

    def open_all(self):
        return [self.open(k) for k in range(len(self.inputs))]


# ------------------------------------------------------------------------------------------------ operations

def gen_limits(rng, names, ranges, p=.6):
    out = {}
    for n in names:
        if n in ranges and (rng.chance(p) or (not out and n == names[-1])):
            lo, hi = ranges[n]
            a, b = sorted((rng.random(), rng.random()))
            if b - a < .25:
                a, b = max(0, a - .2), min(1, b + .2)
            out[n] = [round(lo + a * (hi - lo), 3), round(lo + b * (hi - lo), 3)]
    return out


def gen_grid(rng, names, ranges, p=.6, most=6):
    out = {}
    for n in names:
        if n in ranges and (rng.chance(p) or (not out and n == names[-1])):
            lo, hi = ranges[n]
            k = rng.int(2, most)
            out[n] = [round(lo, 3), round(hi, 3), round((hi - lo) / k, 6)]
    return out


SHAPES = ["POLYGON((-100 -50, 80 -60, 120 40, -20 70, -100 -50))", "POLYGON((-150 -70, 150 -70, 0 75, -150 -70))",
          "POLYGON((10 -60, 170 -60, 170 60, 10 60, 10 -60))"]


def u_box_args(rng, coords):
    args = {"h_sep": "%dkm" % rng.pick([800, 2500, 6000])}
    if "altitude" in coords and rng.chance(.3):
        args["a_sep"] = "%dm" % rng.pick([2000, 6000])
    if "time" in coords and rng.chance(.3):
        args["t_sep"] = rng.pick(["P1D", "PT12H", "P3D"])
    if "air_pressure" in coords and rng.chance(.3):
        args["p_sep"] = rng.pick([1.5, 3.0])
    if len(args) > 1 and rng.chance(.3):
        del args["h_sep"]
    return args


def gen_op(rng, inputs, target=0, only=None, allow=None):
    """One operation on input `target`; collocations take their partner from the other inputs."""
    inp = inputs[target]
    sp = inp["fixture"]
    others = [k for k in range(len(inputs)) if k != target]
    if not is_g(inp):
        names, rg = u_coords(sp), u_ranges(sp)
        ops = [("subset", 4), ("slice", 1), ("copy", 1), ("frame", 1), ("aggregate", 4), ("arith", 2), ("lonrange", 1),
               ("units", 1), ("evaluate", 1), ("history", 1), ("save", 1), ("points", 1)]
        for k in others:
            if not inp["list"]:
                ops.append((("col_gu" if is_g(inputs[k]) else "col_uu", k), 4))
            elif not inputs[k]["list"]:
                ops.append((("col_ug" if is_g(inputs[k]) else "col_uu", k), 4))
    else:
        names, rg = g_coords(sp), g_ranges(sp)
        ops = [("subset", 4), ("slice", 1), ("copy", 1), ("collapse", 4), ("arith", 2), ("lonrange", 2), ("units", 1), ("evaluate", 1),
               ("history", 1), ("save", 1), ("points", 1)]
        for k in others:
            if not inp["list"]:
                ops.append((("col_gg" if is_g(inputs[k]) else "col_ug", k), 4))
            elif not inputs[k]["list"]:
                ops.append((("col_gg" if is_g(inputs[k]) else "col_gu", k), 4))
    if inp["list"]:
        ops = [(o, w) for o, w in ops if (o if isinstance(o, str) else o[0]) in
               ("subset", "copy", "frame", "aggregate", "collapse", "lonrange", "history", "save", "col_uu", "col_gu", "col_gg", "col_ug",
                "points")]
        if is_g(inp):
            ops = [(o, w) for o, w in ops if o not in ("copy", "frame", "points")]
    if allow:
        ops = [(o, w) for o, w in ops if (o if isinstance(o, str) else o[0]) in allow]
    pick = rng.weighted(ops)
    name, other = pick if isinstance(pick, tuple) else (pick, None)
    if other is not None and inp["list"]:        # a list can only be the data of a collocation, not its sampling
        target, other = other, target
        inp, sp = inputs[target], inputs[target]["fixture"]
        names, rg = (g_coords(sp), g_ranges(sp)) if is_g(inp) else (u_coords(sp), u_ranges(sp))
    op = {"op": name, "on": target}
    if name == "subset":
        op["lims"] = gen_limits(rng, names, rg)
        if rng.chance(.12) and (not is_g(inp) or (len(sp.get("shape", [1, 1, 1])) == 2 and not inp["list"])):
            op["shape"] = rng.pick(SHAPES)
            op["lims"] = {}
    elif name == "slice":
        op["frac"] = [round(rng.random() * .4, 3), round(.6 + rng.random() * .4, 3)]
    elif name == "aggregate":
        op["grid"] = gen_grid(rng, names, rg)
        op["how"] = rng.pick(U_KERNELS)
    elif name == "collapse":
        op["over"] = rng.some([n for n in names], rng.int(1, max(1, len(names) - 1)))
        op["how"] = rng.pick(G_KERNELS)
    elif name == "arith":
        op["f"] = rng.pick(["add", "mul", "sub", "div", "self", "pow"] if not is_g(inp) else ["add", "mul", "sub", "div", "self"])
        op["k"] = rng.pick([2.0, 0.5, 3.0])
    elif name == "lonrange":
        op["start"] = rng.pick([-180, 0, -90, 30, 180])
    elif name == "units":
        op["to"] = rng.pick(["g m-3", "mg m-3"]) if not is_g(inp) else "g m-2"
    elif name == "evaluate":
        op["expr"] = rng.pick(["a * 2 + 1", "a + numpy.sqrt(a)", "numpy.ma.masked_less(a, 4)"])
    elif name == "history":
        op["text"] = rng.pick(["first note", "second note"])
    elif name == "col_uu":
        op["data"] = other
        op["args"] = u_box_args(rng, [c for c in names if c in u_coords(inputs[other]["fixture"])])
        op["kernel"] = rng.pick(["mean", "moments", "stddev", "min", "max", "sum", "nn_h", "nn_h"] +
                                (["nn_a"] if "altitude" in names and "altitude" in u_coords(inputs[other]["fixture"]) else []) +
                                (["nn_t"] if "time" in names and "time" in u_coords(inputs[other]["fixture"]) else []))
        op["mdms"] = rng.chance(.5)
    elif name in ("col_gu", "col_gg"):
        op["data"] = other
        op["how"] = rng.pick(["lin", "nn", "nn"])
        op["mdms"] = rng.chance(.5) and name == "col_gu"
    elif name == "col_ug":
        op["data"] = other
        op["how"] = rng.pick(["bin", "box"])
        op["kernel"] = rng.pick(U_KERNELS)
        op["mdms"] = False
        if op["how"] == "box":
            op["args"] = {"h_sep": "%dkm" % rng.pick([1500, 4000])}
    return op


def mid(n, frac):
    a, b = int(frac[0] * n), int(frac[1] * n)
    return slice(a, max(a + 1, b))


def limits(x, name, v):
    if name == "time" and x.is_gridded:          # gridded times can only be limited by dates
        import datetime
        return [datetime.datetime(2008, 6, 1) + datetime.timedelta(days=d) for d in v]
    return list(v)


def apply(op, data, env=None, out="out.nc"):
    """Perform the operation on the list of data sets; returns its result."""
    import cis
    x = data[op["on"]]
    name = op["op"]
    if name == "subset":
        if op.get("shape"):
            return x.subset(shape=op["shape"])
        return x.subset(**{k: limits(x, k, v) for k, v in op["lims"].items()})
    if name == "slice":
        return x[mid(x.shape[0], op["frac"])]
    if name == "copy":
        return x.copy()
    if name == "frame":
        return x.as_data_frame()
    if name == "points":
        return [v for v in x.get_non_masked_points()] if isinstance(x, list) else x.get_non_masked_points()
    if name == "aggregate":
        return x.aggregate(how=op["how"], **{k: list(v) for k, v in op["grid"].items()})
    if name == "collapse":
        return x.collapsed(list(op["over"]), how=op["how"])
    if name == "arith":
        k = op["k"]
        return {"add": lambda: x + k, "mul": lambda: x * k, "sub": lambda: x - k, "div": lambda: x / k, "self": lambda: x + x,
                "pow": lambda: x ** 2}[op["f"]]()
    if name == "lonrange":
        x.set_longitude_range(op["start"])
        return x
    if name == "units":
        x.convert_units(op["to"])
        return x
    if name == "evaluate":
        from cis.evaluate import Calculator
        x.alias = "a"
        return Calculator().evaluate([x], op["expr"], output_var="calc", units="1")
    if name == "history":
        x.add_history(op["text"])
        return x
    if name == "save":
        x.save_data(env.path(out))
        return Saved(env.path(out))
    y = data[op["data"]]
    kw = dict(op.get("args") or {})
    if name == "col_uu":
        return y.collocated_onto(x, how="box", kernel=op["kernel"], missing_data_for_missing_sample=op["mdms"], **kw)
    if name in ("col_gu", "col_gg"):
        return y.collocated_onto(x, how=op["how"], missing_data_for_missing_sample=op["mdms"])
    if name == "col_ug":
        return y.collocated_onto(x, how=op["how"], kernel=op["kernel"], missing_data_for_missing_sample=op["mdms"], **kw)
    raise KeyError(name)


class Saved(object):
    def __init__(self, path):
        self.path = path


IN_PLACE = ("lonrange", "units", "history")
LONGITUDE_EFFECT = ("col_uu", "col_gu", "col_gg", "col_ug")    # may leave the inputs in another longitude range


def raw_file(path, history=True):
    """A netCDF file as netCDF4 sees it, without cis."""
    import netCDF4
    out = {"dims": {}, "vars": {}, "attrs": {}}
    with netCDF4.Dataset(path) as nc:
        nc.set_auto_scale(False)
        for d in nc.dimensions:
            out["dims"][d] = [len(nc.dimensions[d]), bool(nc.dimensions[d].isunlimited())]
        for a in nc.ncattrs():
            if history or a != "history":
                out["attrs"][a] = obs.attr(nc.getncattr(a))
        for n in nc.variables:
            v = nc.variables[n]
            out["vars"][n] = {"dims": list(v.dimensions), "data": obs.Arr(v[...]) if v.dtype != str else [str(x) for x in v[...]],
                              "attrs": {a: obs.attr(v.getncattr(a)) for a in v.ncattrs() if history or a != "history"}}
    return out


def result(r):
    """What the user can see of an operation's result."""
    import pandas
    if r is None:
        return None
    if isinstance(r, Saved):
        return {"file": raw_file(r.path)}
    if isinstance(r, pandas.DataFrame):
        return obs.frame(r)
    if r.__class__.__name__ == "Cube":           # iris turns some results into plain cubes
        return obs.snap_g(r)
    if hasattr(r, "get_coordinates_points") or (isinstance(r, list) and r and hasattr(r[0], "get_coordinates_points")):
        return obs.snap(r)
    if isinstance(r, list):
        return [result(x) for x in r]
    if r.__class__.__name__ == "UngriddedHyperPointView":
        return obs.points_view(r)
    if r.__class__.__name__ == "GriddedHyperPointView":
        return obs.gpoints(r)
    raise TypeError("unexpected result %r" % type(r))


def describe(op):
    return " ".join([op["op"]] + ["%s=%s" % (k, op[k]) for k in sorted(op) if k != "op"])


# ------------------------------------------------------------------------------------------------ a reader that shares nothing

class Helper(object):
    """A process forked before the run did any I/O; every request is served by a fresh fork of it."""

    def __init__(self):
        import os
        import pickle
        self.pickle, self.os = pickle, os
        a, b = os.pipe()
        c, d = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(b), os.close(c)
                self._serve(a, d)
            finally:
                os._exit(0)
        os.close(a), os.close(d)
        self.w, self.r = b, c

    def _read(self, fd, n):
        buf = b""
        while len(buf) < n:
            c = self.os.read(fd, n - len(buf))
            if not c:
                return None
            buf += c
        return buf

    def _send(self, fd, blob):
        blob = len(blob).to_bytes(8, "big") + blob
        off = 0
        while off < len(blob):
            off += self.os.write(fd, blob[off:off + 65536])

    def _serve(self, r, w):
        os = self.os
        while True:
            h = self._read(r, 8)
            if h is None:
                return
            fn, args = self.pickle.loads(self._read(r, int.from_bytes(h, "big")))
            p = os.fork()
            if p == 0:
                try:
                    try:
                        out = ("ok", fn(*args))
                    except BaseException as e:
                        out = ("exc", type(e).__name__, str(e)[:300])
                    self._send(w, self.pickle.dumps(out))
                finally:
                    os._exit(0)
            _, st = os.waitpid(p, 0)
            if st != 0:
                self._send(w, self.pickle.dumps(("died", st, "")))

    def __call__(self, fn, *args):
        self._send(self.w, self.pickle.dumps((fn, args)))
        n = int.from_bytes(self._read(self.r, 8), "big")
        return self.pickle.loads(self._read(self.r, n))

    def close(self):
        self.os.close(self.w)
        self.os.close(self.r)
        self.os.waitpid(self.pid, 0)


def read_back(path, var, product=None, as_list=False):
    """In a fresh process: what a user reading the file gets."""
    import cis
    if as_list:
        return [obs.snap(o) for o in cis.read_data_list(path, var, product)]
    return obs.snap(cis.read_data(path, var, product))


def read_raw(path):
    return raw_file(path)
