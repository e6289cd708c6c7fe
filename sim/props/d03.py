"""D03: a save that reports success can be read back exactly, whatever happened on the way."""
import os

import numpy as np
import numpy.ma as ma

from sim import core, obs, ops, seam
from sim import gen as G
from sim.core import Violation

LEVEL = "exploration"
RUNS = {"quick": 450, "thorough": 7000}
RULE = ("one run = one seeded data set or list (lazily read from 1-3 files, the result of a seeded operation, or built in memory with "
        "a seeded dtype, shape, mask and attributes), 0-3 save attempts each with 1-2 storage or allocation faults placed within the "
        "undisturbed save's calls (errors while opening, reading lazily, writing, truncating, closing, renaming; a full disk after N "
        "bytes), then a save under short and interrupted writes that has to succeed; every reported success is read back in a process "
        "forked before any of it; non-trivial when a fault fired")
REAL = ["cis.data_io.write_netcdf", "UngriddedData/List.save_data", "GriddedData/List.save_data, iris.save", "cis readers", "netCDF4/HDF5"]
STUBS = ["system calls on files below the scratch directory (libsim)", "allocator failures (libsim)", "dask scheduler: synchronous"]
ASSUMPTIONS = ["values equal to the file format's default fill value, or to the data's own missing value, are missing by definition and are not generated",
               "attributes that describe packing in the source file (scale_factor, add_offset, valid range) and its missing value have no meaning in the new file",
               "a store that reports success for a failed write is not modelled"]
NOTE = ("seeded histories of failing saves; the reference is an identically built object that never met a fault, the reader a separate process")

PACKING = ("scale_factor", "add_offset", "missing_value", "_FillValue", "_Unsigned", "valid_min", "valid_max", "valid_range")
DTYPES = ["f8", "f4", "i4", "i8", "i2", "u1", "i1", "u2"]
TRANSFORMS = ["subset", "slice", "copy", "aggregate", "collapse", "arith", "lonrange", "units", "evaluate", "history",
              "col_uu", "col_gu", "col_gg", "col_ug"]


def gen_mem(rng):
    m = {"mem": True, "seed": rng.int(1, 10 ** 6), "n": rng.int(1, 40), "dtype": rng.pick(DTYPES), "vars": rng.weighted([(1, 3), (2, 1), (3, 1)]),
         "two_d": rng.chance(.25), "miss": rng.pick([0, 0, .2, .9, 1]), "missing_value": rng.pick([None, None, -9999.0, 0.0, "nan"]),
         "cmiss": rng.pick([0, 0, .2]), "coords": rng.pick(["lL", "lLt", "lLat", "lLatp"]), "special": rng.chance(.3),
         "cdtype": rng.pick(["f8", "f8", "f4"]), "units": rng.pick(["1", "kg m-3", "K", "strange units"]),
         "standard_name": rng.pick(["", "", "air_temperature"]), "dtype2": rng.pick(DTYPES), "text": rng.pick(["", "plain", "two\nlines", "\u00e9\u00df"])}
    return m


def write_fault(rng):
    k = rng.weighted([("write", 6), ("read", 2), ("open_w", 1), ("open_r", 1), ("close", 1), ("trunc", 1), ("rename", 1), ("alloc", 1),
                      ("budget", 2), ("fsync", .2)])
    if k == "budget":
        return {"budget_frac": round(rng.random() * .98, 4)}
    f = {"kind": k, "frac": round(rng.random(), 4), "repeat": rng.weighted([(1, 5), (2, 1), (-1, 2)]), "action": "errno"}
    if k == "write":
        f["arg"] = rng.pick(["ENOSPC", "EIO", "EDQUOT"])
    elif k in ("open_w", "rename"):
        f["arg"] = rng.pick(["EACCES", "ENOSPC", "EMFILE", "EROFS"]) if k == "open_w" else rng.pick(["EIO", "ENOSPC", "EACCES"])
    elif k == "alloc":
        f["arg"], f["threshold"] = "ENOMEM", 1200
    elif k == "open_r":
        f["arg"] = "EMFILE"
    else:
        f["arg"] = "EIO"
    return f


def benign_fault(rng):
    a = rng.pick(["short", "eintr"])
    return {"kind": "write" if a == "eintr" else rng.pick(["write", "write", "read"]), "frac": round(rng.random(), 4), "repeat": rng.pick([1, 3]) if a == "eintr" else rng.pick([1, -1]),
            "action": a, "arg": rng.int(1, 4000)}


def gen(rng, tier, index):
    if rng.chance(.35):
        p = {"mem": gen_mem(rng)}
    else:
        kind = rng.pick("ug")
        inputs = [ops.gen_input(rng, kind)]
        op = None
        if rng.chance(.6):
            if rng.chance(.4):
                inputs.append(ops.gen_input(rng, rng.pick("ug"), as_list=False))
            op = ops.gen_op(rng, inputs, allow=TRANSFORMS)
        if inputs[0]["fixture"].get("vrange") and rng.chance(.6):
            inputs[0]["var"] = 0
            op = {"op": "units", "on": 0, "to": "g m-2" if kind == "g" else "g m-3"}
        p = {"inputs": inputs, "op": op}
    p["saves"] = [{"faults": [write_fault(rng) for _ in range(rng.weighted([(1, 4), (2, 1)]))]} for _ in range(rng.weighted([(0, 2), (1, 5), (2, 3), (3, 1)]))]
    p["last"] = [benign_fault(rng) for _ in range(rng.int(0, 2))]
    p["over"] = rng.chance(.3)             # something is at the output path already
    return p


def shrink(p):
    import json
    for key in ("saves", "last"):
        for i in range(len(p[key])):
            c = json.loads(json.dumps(p))
            del c[key][i]
            yield c
    if p.get("op"):
        c = dict(p, op=None)
        yield c
    for i, s in enumerate(p["saves"]):
        for j in range(len(s["faults"])):
            c = json.loads(json.dumps(p))
            del c["saves"][i]["faults"][j]
            yield c
    if p["over"]:
        yield dict(p, over=False)


# ------------------------------------------------------------------------------------------------ building the data set

def build_mem(m):
    from cis.data_io.Coord import Coord
    from cis.data_io.ungridded_data import Metadata, UngriddedData, UngriddedDataList
    from sim import fixtures
    r = np.random.RandomState(m["seed"])
    n = m["n"]
    shape = (n, 2) if m["two_d"] else (n,)
    size = int(np.prod(shape))
    coords = []
    for c in m["coords"]:
        name = fixtures.COORD_LETTERS[c]
        a = fixtures._cis_coord(r, name, size, {}, 0).reshape(shape)
        a = a.astype(m["cdtype"] if name in ("latitude", "longitude", "altitude") else "f8")
        if m["cmiss"] and name in ("latitude", "altitude"):
            k = r.rand(*shape) < m["cmiss"]
            k.flat[0] = False
            a = ma.masked_array(a, mask=k)
        coords.append(Coord(a, Metadata(name=name, standard_name=name, units=fixtures.CIS_UNITS[name], long_name="the " + name), axis=""))
    out = []
    mv = m["missing_value"]
    for j in range(m["vars"]):
        dt = np.dtype(m["dtype"] if j == 0 else m["dtype2"])
        if dt.kind == "f":
            a = np.round(r.uniform(-1e4, 1e4, size), 3).astype(dt)
            if m["special"]:
                for k, v in enumerate((np.inf, -np.inf, np.finfo(dt).tiny, -0.0, np.finfo(dt).max / 4)):
                    if k + 1 < size:
                        a[k + 1] = v
        else:
            info = np.iinfo(dt)
            hi, lo = min(30000, info.max), max(-30000, info.min)
            a = r.randint(lo, hi + 1, size).astype(dt)
            if m["special"] and size > 2 and info.bits == 8:
                a[0], a[1] = info.min, info.max
        missing = None
        if mv == "nan":
            missing = float("nan") if dt.kind == "f" else None
        elif mv is not None:
            missing = mv if dt.kind == "f" else int(np.clip(mv, np.iinfo(dt).min, np.iinfo(dt).max))
            a[a == missing] = 7
        if missing is None and m["miss"] and dt.kind in "iu" and dt.itemsize == 1:
            a[(a == 255) | (a == -127)] = 7           # netCDF's default fill values for bytes
        a = a.reshape(shape)
        if m["miss"]:
            a = ma.masked_array(a, mask=r.rand(*shape) < m["miss"])
        elif r.rand() < .5:
            a = ma.masked_array(a)
        md = Metadata(name="v%d" % j, standard_name=m["standard_name"], long_name="memory %d" % j, units=m["units"], missing_value=missing,
                      history="2000-01-01T00:00:00Z %s" % m["text"], misc={"note": m["text"] or "x", "level": np.int32(j), "factors": np.array([1.5, 2.5])})
        d = UngriddedData(a, md, coords)
        d.add_attributes({"added": "a%d" % j})
        out.append(d)
    return out[0] if m["vars"] == 1 else UngriddedDataList(out)


def build(p, ins, env):
    """The data set to save, lazily loaded as far as the operation allows; None if the operation gives none."""
    if "mem" in p:
        return build_mem(p["mem"])
    data = ins.open_all()
    if not p["op"]:
        return data[0]
    r = env.attempt(ops.apply, p["op"], data, env)
    if r[0] == "exc" or r[1] is None:
        return None
    x = r[1]
    if not hasattr(x, "save_data") or (isinstance(x, list) and not len(x)):
        return None
    return x


# ------------------------------------------------------------------------------------------------ comparison

def norm_attr(v):
    v = obs.attr(v)
    if isinstance(v, list) and len(v) == 1:
        return v[0]
    return v


def attrs(d, skip=()):
    return {k: norm_attr(v) for k, v in d.items() if k not in PACKING and k not in skip and v is not None and not (isinstance(v, list) and not v)}


def flat(a):
    b = obs.Arr.__new__(obs.Arr)
    b.shape, b.dtype, b.mask, b.vals = (int(np.prod(a.shape)),), a.dtype, a.mask.ravel(), a.vals.ravel()
    return b


def u_view(s, written):
    """What of an ungridded snapshot a file has to preserve."""
    m = s["meta"]
    misc = dict(m["misc"])
    misc.update(s["attrs"])
    out = {"data": flat(s["data"]), "name": m["name"], "standard_name": m["standard_name"] or "", "long_name": m["long_name"] or "",
           "units": m["units"], "history": m["history"] or "", "misc": attrs(misc, ("standard_name", "long_name", "units", "history", "calendar")), "coords": {}}
    for c in s["coords"]:
        cm = c["meta"]
        out["coords"][cm["standard_name"]] = {"data": flat(c["data"]), "units": cm["units"], "long_name": cm["long_name"] or "",
                                              "history": cm["history"] or ""}
    return out


SKIP_G = ("Conventions", "um_stash_source")


def as_float(a):
    """Whole-numbered times are delivered as integers after the conversion to standard time."""
    return obs.Arr(ma.masked_array(a.vals.astype("f8"), mask=a.mask)) if a is not None and a.vals.dtype.kind in "iu" else a


def deg(u):
    return "degrees" if u in ("degrees_north", "degrees_east", "degrees_N", "degrees_E", "degree_north", "degree_east") else u


def g_view(s, written):
    def co(c):
        return {"points": as_float(c["points"]), "bounds": as_float(c["bounds"]), "units": deg(c["units"]), "std": c["std"], "dims": c["dims"],
                "name": c["name"], "attrs": attrs(c["attrs"])}
    return {"data": s["data"], "var": s["var"], "std": s["std"], "long": s["long"], "units": s["units"], "cell_methods": s["cell_methods"],
            "attrs": attrs(s["attrs"], SKIP_G), "dim": [co(c) for c in s["dim_coords"]],
            "aux": {c["name"]: co(c) for c in s["aux_coords"]}}


def view(s, written=False):
    if isinstance(s, list):
        return {str(v.get("name") or v.get("var")): v for v in (view(x, written) for x in s)}
    return g_view(s, written) if "dim_coords" in s else u_view(s, written)


def names(x):
    """Variable names in the file, as the user would ask for them."""
    items = x if isinstance(x, list) else [x]
    return [(i.var_name or i.name()).replace(" ", "_") for i in items]


def plain(s):
    return "dim_coords" in (s[0] if isinstance(s, list) else s)


def run(p, env):
    helper = ops.Helper()
    try:
        _run(p, env, helper)
    finally:
        helper.close()


def _run(p, env, helper):
    ins = None if "mem" in p else ops.Inputs(env, p["inputs"])
    ref = build(p, ins, env)
    if ref is None:
        env.count("no_data_set")
        return
    before = env.must("observing", obs.snap, ref)
    expected = view(before)
    var = names(ref)
    gridded = plain(before)
    # undisturbed save of another copy: how many calls there are
    out = env.path("out.nc")
    x = build(p, ins, env)
    counts = {}
    with env.window([], alloc_threshold=1200) as w:
        r = env.attempt(x.save_data, out)
    counts = dict(w.counts, alloc1200=w.counts["alloc"])
    if r[0] == "exc":
        raise Violation("undisturbed-failure", "saving failed with no fault injected: %s: %s" % (r[1], r[2]))
    counts["bytes"] = os.path.getsize(out)
    check_file(env, helper, out, var, gridded, expected, ref, "an undisturbed save", x)
    os.remove(out)
    if p["over"]:
        with open(out, "w") as f:
            f.write("something else")

    def history(env):
        x = build(p, ins, env)
        fired = 0
        for i, s in enumerate(p["saves"]):
            with env.window(G.resolve(s["faults"], counts)) as w:
                r = env.attempt(x.save_data, out)
            fired += w.fired
            env.log("save", i, r[0], "" if r[0] == "ok" else r[1], "fired", w.fired)
            env.count("%s.%s" % ("faulted" if w.fired else "clean", r[0]))
            if r[0] == "exc" and not w.fired:
                raise Violation("not-retryable", "save %d failed although nothing was disturbed: %s: %s" % (i, r[1], r[2]))
            if r[0] == "ok":
                check_file(env, helper, out, var, gridded, expected, ref, "save %d (%d faults fired) reported success; its file" % (i, w.fired), x)
        with env.window(G.resolve(p["last"], counts)) as w:
            r = env.attempt(x.save_data, out)
        fired += w.fired
        env.log("last", r[0], "" if r[0] == "ok" else r[1], "fired", w.fired)
        env.nontrivial = fired > 0
        if r[0] == "exc":
            raise Violation("not-retryable", "with the faults gone (only short or interrupted calls) the save failed: %s: %s" % (r[1], r[2]))
        check_file(env, helper, out, var, gridded, expected, ref, "after %d failed attempts the final save" % len(p["saves"]), x)
        d = obs.diff(before, env.must("observing", obs.snap, x), "object")
        if d:
            raise Violation("memory-changed", "saving changed the data set in memory:\n%s" % d)

    r = core.in_child(env, history)
    if r[0] == "died":
        # HDF5 and netCDF4 do not always survive a write that fails; then the next process has to be able to save
        if not sum(seam.fired().values()):
            raise Violation("process-died", "saving killed the process (%s) although nothing was disturbed" % (r[1],))
        env.count("native_death")
        env.nontrivial = True

        def again(env):
            r = env.attempt(build(p, ins, env).save_data, out)
            if r[0] == "exc":
                raise Violation("not-retryable", "in a new process, with the faults gone, the save failed: %s: %s" % (r[1], r[2]))
            return True
        r = core.in_child(env, again)
        if r[0] == "died":
            raise Violation("process-died", "in a new process, with the faults gone, the save killed the process (%s)" % (r[1],))
        check_file(env, helper, out, var, gridded, expected, ref, "after a failure that killed the process the next save", None)
    else:
        left = [f for f in os.listdir(env.dir) if f not in ("in0", "in1", "out.nc")]
        if left:
            raise Violation("left-over", "files left behind by saving: %s" % sorted(left))
    env.sample = {"events": env.events[-4:]}


def check_file(env, helper, out, var, gridded, expected, ref, what, saved):
    as_list = isinstance(ref, list)
    # naming the variable by its name in the file, and the product by what the file is
    product = None if gridded else "cis"
    r = helper(ops.read_back, out, var if as_list else var[0], product, as_list)
    if r[0] != "ok":
        raise Violation("unreadable-after-success", "%s cannot be read back: %s: %s" % (what, r[1], r[2]))
    got = view(r[1], True)
    d = obs.diff(expected, got, "read back")
    if d:
        raise Violation("not-what-was-saved", "%s does not give back what was saved:\n%s" % (what, d))
