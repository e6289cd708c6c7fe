"""D13: sequences of analysis steps, any of which may fail and be repeated, equal their plain definition."""
import contextlib
import datetime

import numpy as np
import numpy.ma as ma

from sim import core, fixtures, obs, ops, ref, sched
from sim import gen as G
from sim.core import Violation
from sim.ref import Undefined

LEVEL = "exploration"
RUNS = {"quick": 700, "thorough": 16000}
RULE = ("one run = 1-3 fabricated data sets (points and grids, lists of variables, missing values, coordinates on limits and cell edges) "
        "and 1-6 steps (subset by limits or shape, aggregate, collapse, box / nearest / linear / bin collocation, arithmetic, evaluate, "
        "longitude range, slice, copy, save and reload), each on any earlier result; a third of the steps suffer read errors, short reads "
        "or failed allocations and are repeated; after every step the result, and at the end every data set, is compared point by point "
        "with a numpy reference that shares no code with cis; non-trivial when at least one step's result was compared")
REAL = ["cis.subsetting, cis.aggregation, cis.collocation, cis.evaluate, cis.data_io (data sets, readers, writers)", "netCDF4, iris, pandas, dask"]
STUBS = ["read system calls and allocations fail on schedule (libsim)", "order of dask tasks (seeded, one at a time)"]
ASSUMPTIONS = ["the data files are stored in chunks, and steps which follow a save suffer failing opens and allocations only: after a failed "
               "read of a contiguous data set the HDF5 library itself delivers zeros from its sieve buffer when asked again"]
NOTE = "seeded analysis sequences with failing and repeated steps against a point-by-point reference model"

POLYS = [[(-100, -50), (80, -60), (120, 40), (-20, 70)], [(-150, -70), (150, -70), (0, 75)], [(10, -60), (170, -60), (170, 60), (10, 60)]]


def gen(rng, tier, index):
    inputs = []
    for k in range(rng.weighted([(1, 3), (2, 5), (3, 2)])):
        inp = ops.gen_input(rng, rng.pick("ug"))
        sp = inp["fixture"]
        sp["chunks"] = 3                         # see ASSUMPTIONS
        if sp["product"] == "cis":
            sp["t0"] = 149171.0
            sp["coords"] = rng.pick(["lLat", "lLat", "lLt", "lLatp", "lL", "lLa", "lLap"])
            if rng.chance(.3):
                sp["whole"] = True
            if rng.chance(.4):
                sp["coords"] = "".join(rng.shuffled(list(sp["coords"])))
        elif sp["product"] == "gridded" and not sp.get("aux") and rng.chance(.25):      # iris refuses to interpolate with both
            sp["lonfirst"] = True
        inputs.append(inp)
    steps = []
    for _ in range(rng.int(1, 6)):
        st = {"seed": rng.int(1, 10 ** 9), "on": rng.int(0, 20), "faults": []}
        if rng.chance(.35):
            st["faults"] = [G.read_fault(rng) for _ in range(rng.weighted([(1, 4), (2, 1)]))]
        steps.append(st)
    return {"inputs": inputs, "steps": steps, "order": rng.int(1, 10 ** 6)}


def shrink(p):
    import json
    for i in range(len(p["inputs"])):
        if len(p["inputs"]) > 1:
            c = json.loads(json.dumps(p))
            del c["inputs"][i]
            yield c
        sp = p["inputs"][i]["fixture"]
        for k in ("nfiles", "n", "vars"):
            if isinstance(sp.get(k), int) and sp[k] > 1:
                c = json.loads(json.dumps(p))
                c["inputs"][i]["fixture"][k] = max(1, sp[k] // 2)
                yield c
        for k in ("miss", "cmiss", "ints", "packed", "vrange", "bounds", "aux", "latdesc", "dtype", "whole"):
            if sp.get(k):
                c = json.loads(json.dumps(p))
                del c["inputs"][i]["fixture"][k]
                yield c


# ------------------------------------------------------------------------------------------------ models of the inputs

def models_of(inp, fx):
    out = []
    sp = inp["fixture"]
    names = list(fx["vars"]) if inp["list"] else [fx["vars"][inp["var"] % len(fx["vars"])]]
    for v in names:
        j = fx["vars"].index(v)
        vals = fixtures.truth(fx, v)
        if not fx["gridded"]:
            cs = {c: fixtures.truth(fx, c) for c in fx["coords"]}
            keep = np.ones(vals.shape[0], bool)
            for c in cs.values():
                keep &= ~ma.getmaskarray(c)
            out.append(ref.U({c: np.array(ma.getdata(a)[keep], "f8") for c, a in cs.items()}, vals[keep], var=v,
                             units="kg m-3" if j % 2 == 0 else "1"))
            continue
        dims = list(fx["coords"])
        pts = {d: np.array(ma.getdata(fixtures.truth(fx, d)), "f8") for d in dims}
        if "time" in pts:
            pts["time"] = pts["time"] + 149171.0
        bnds = {}
        if sp.get("bounds"):
            for d in ("latitude", "longitude"):
                a = pts[d]
                h = abs(a[1] - a[0]) / 2 if a.size > 1 else 1.0
                b = np.stack([a - h, a + h], axis=1) if a.size < 2 or a[1] > a[0] else np.stack([a + h, a - h], axis=1)
                bnds[d] = np.clip(b, -90, 90) if d == "latitude" else b
        out.append(ref.G(dims, pts, bnds, vals, var=v, units="kg m-2" if j % 2 == 0 else "1", circ=bool(sp.get("bounds")) or pts["longitude"].min() >= 0,
                         tol=1e-5 if sp.get("dtype") == "f4" else 1e-9))
    return out


class Slot(object):
    def __init__(self, live, models, name):
        self.live, self.models, self.name = live, models, name

    @property
    def gridded(self):
        return self.models[0].gridded

    @property
    def many(self):
        return isinstance(self.live, list)

    @property
    def m(self):
        return self.models[0]

    def same_points(self):
        """Variables on a list have to share their coordinates to be a list at all."""
        return all(x.vals.shape == self.m.vals.shape for x in self.models)


# ------------------------------------------------------------------------------------------------ choice of a step

def spread(rng, a, lo, hi):
    """A limit: anywhere, or exactly on a value."""
    if rng.chance(.35) and len(a):
        return float(rng.pick(list(a)))
    return round(lo + rng.random() * (hi - lo), 3)


def limits_for(rng, m):
    cs = m.pts if m.gridded else m.coords
    names = [c for c in (m.dims if m.gridded else sorted(m.coords))]
    out = {}
    for c in names:
        if not rng.chance(.5) and not (c == names[-1] and not out):
            continue
        a = cs[c]
        lo, hi = float(a.min()), float(a.max())
        pad = .1 * (hi - lo) + .5
        x, y = sorted((spread(rng, a, lo - pad, hi + pad), spread(rng, a, lo - pad, hi + pad)))
        if rng.chance(.1):
            y = x
        if c == "longitude":
            if rng.chance(.3):                    # the same meridians, spelled differently
                s = rng.pick([-360.0, 360.0, -180.0, 180.0])
                x, y = x + s, y + s
            y = min(y, x + 360.0)
        if m.gridded and c == "longitude" and m.bnds.get(c) is not None:
            y = min(y, x + 300.0)
        out[c] = [x, y]
    return out


def grid_for(rng, m):
    names = sorted(m.coords)
    out = {}
    for c in names:
        if not rng.chance(.5) and not (c == names[-1] and not out):
            continue
        a = m.coords[c]
        lo, hi = float(a.min()), float(a.max())
        k = rng.int(1, 5)
        if rng.chance(.5):                        # round edges, so that points may lie exactly on them
            step = {"latitude": 20.0, "longitude": 30.0, "altitude": 1000.0, "time": 0.5, "air_pressure": 100.0}[c] * rng.pick([1, 2])
            s = np.floor(lo / step) * step
            out[c] = [float(s), float(s + step * rng.int(1, 7)), step]
        else:
            st = round((hi - lo) / k + .01, 4)
            out[c] = [round(lo - .005, 4), round(lo - .005 + k * st, 4), st]
    return out


def choose(rng, slots, on):
    """One applicable operation: (description dict)."""
    i = on % len(slots)
    s = slots[i]
    m = s.m
    many = s.many
    cand = [("subset", 4), ("save", 2), ("lonrange", 1)]
    if not many:
        cand += [("slice", 1), ("copy", 1), ("arith", 2), ("evaluate", 1)]
    if s.gridded:
        if m.dims:
            cand.append(("collapse", 4))
    elif m.n:
        cand.append(("aggregate", 4))
    for j, o in enumerate(slots):
        if j == i or o.many:
            continue
        if s.gridded and not o.gridded:
            cand.append((("col_gu", j), 3))
        elif s.gridded:
            cand.append((("col_gg", j), 3))
        elif o.gridded:
            cand.append((("col_ug", j), 3))
        else:
            cand.append((("col_uu", j), 3))
    name = rng.weighted(cand)
    name, j = name if isinstance(name, tuple) else (name, None)
    op = {"op": name, "on": i}
    if name == "subset":
        if rng.chance(.12) and (not s.gridded or set(m.dims) == {"latitude", "longitude"}) and \
                (s.gridded or {"latitude", "longitude"} <= set(m.coords)):
            op["poly"] = rng.int(0, len(POLYS) - 1)
        else:
            op["lims"] = limits_for(rng, m)
    elif name == "slice":
        op["frac"] = [round(rng.random() * .4, 3), round(.6 + rng.random() * .4, 3)]
    elif name == "aggregate":
        op["grid"], op["how"] = grid_for(rng, m), rng.pick(ops.U_KERNELS)
    elif name == "collapse":
        op["over"] = rng.some(m.dims, rng.int(1, len(m.dims)))
        op["how"] = rng.pick(ops.G_KERNELS)
    elif name == "arith":
        op["f"] = rng.pick(["add", "mul", "sub", "div", "self"] + ([] if s.gridded else ["pow"]))
        op["k"] = rng.pick([2.0, .5, 3.0])
    elif name == "evaluate":
        op["expr"] = rng.pick(["a * 2 + 1", "a + numpy.sqrt(a)", "numpy.ma.masked_less(a, 4)"])
    elif name == "lonrange":
        op["start"] = rng.pick([-180.0, 0.0, -90.0, 30.0])
    elif j is not None:
        op["sample"] = j
        if name == "col_uu":
            common = [c for c in m.coords if c in slots[j].m.coords]
            seps = {}
            if rng.chance(.8):
                seps["h_sep"] = rng.pick([800.0, 2500.0, 6000.0])
            for key, c, v in (("a_sep", "altitude", [1000.0, 4000.0]), ("t_sep", "time", [.5, 1.0, 3.0]), ("p_sep", "air_pressure", [1.5, 3.0])):
                if c in common and rng.chance(.35):
                    seps[key] = rng.pick(v)
            if not seps:
                seps["h_sep"] = 2500.0
            op["seps"] = seps
            op["kernel"] = rng.pick(ops.U_KERNELS + ["nn_h"] + [k for k, c in (("nn_a", "altitude"), ("nn_t", "time"), ("nn_p", "air_pressure"))
                                                                 if c in common])
            op["mdms"] = rng.chance(.5)
        elif name == "col_ug":
            op["kernel"] = rng.pick(ops.U_KERNELS)
        else:
            op["how"] = rng.pick(["lin", "nn"])
            op["mdms"] = name == "col_gu" and rng.chance(.5)
    return op


SEP = {"h_sep": lambda v: "%gkm" % v, "a_sep": lambda v: "%gm" % v, "t_sep": lambda v: {.5: "PT12H", 1.0: "P1D", 3.0: "P3D"}[v],
       "p_sep": lambda v: "%g" % v}


def wanted(op, slots):
    """The result by definition: list of models, or None for no points.  Raises Undefined."""
    s = slots[op["on"]]
    n = op["op"]
    if n == "subset":
        f = ref.subset_g if s.gridded else ref.subset_u
        poly = POLYS[op["poly"]] if "poly" in op else None
        out = [f(m, op.get("lims", {}), poly) for m in s.models]
        return None if any(x is None for x in out) else out
    if n == "copy":
        return list(s.models)
    if n == "save":
        if len({o.var_name for o in flat(s.live)}) < len(s.models):
            raise Undefined("variables of the same name")
        return [m.like(circ=False) if m.gridded else m for m in s.models]
    if n == "slice":
        out = []
        for m in s.models:
            size = m.vals.shape[0]
            idx = np.arange(size)[ops.mid(size, op["frac"])]
            out.append(m.take(m.dims[0], idx) if m.gridded else m.take(idx))
        return out
    if n == "lonrange":
        return [ref.lon_range(m, op["start"]) for m in s.models]
    if n == "arith":
        return [ref.arith(m, op["f"], op["k"]) for m in s.models]
    if n == "evaluate":
        return [ref.evaluate(m, op["expr"]) for m in s.models]
    if n == "aggregate":
        return sum((ref.aggregate(m, op["grid"], op["how"]) for m in s.models), [])
    if n == "collapse":
        return sum((ref.collapse(m, op["over"], op["how"]) for m in s.models), [])
    sample = slots[op["sample"]].m
    if n == "col_uu":
        return sum((ref.box(sample, m, op["seps"], op["kernel"], op["mdms"]) for m in s.models), [])
    if n == "col_ug":
        return sum((ref.into_grid(m, sample, op["kernel"]) for m in s.models), [])
    if n == "col_gu":
        return sum((ref.grid_to_points(sample, m, op["how"], op["mdms"]) for m in s.models), [])
    if n == "col_gg":
        return sum((ref.grid_to_grid(sample, m, op["how"]) for m in s.models), [])
    raise KeyError(n)


def perform(op, slots, env, out):
    s = slots[op["on"]]
    x = s.live
    n = op["op"]
    if n == "subset":
        if "poly" in op:
            p = POLYS[op["poly"]]
            return x.subset(shape="POLYGON((%s))" % ", ".join("%g %g" % q for q in p + p[:1]))
        lims = dict(op["lims"])
        if s.gridded and "time" in lims:
            t0 = datetime.datetime(2008, 6, 1)
            lims["time"] = [t0 + datetime.timedelta(days=v - 149171.0) for v in lims["time"]]
        return x.subset(**lims)
    if n == "copy":
        return x.copy()
    if n == "slice":
        return x[ops.mid(x.shape[0], op["frac"])]
    if n == "lonrange":
        for o in (x if s.many else [x]):
            o.set_longitude_range(op["start"])
        return x
    if n == "save":
        import cis
        x.save_data(out)
        names = [o.var_name for o in x] if s.many else x.var_name
        r = cis.read_data_list(out, names) if s.many else cis.read_data(out, names)
        return r
    if n == "aggregate":
        return x.aggregate(how=op["how"], **{k: list(v) for k, v in op["grid"].items()})
    if n == "collapse":
        return x.collapsed(list(op["over"]), how=op["how"])
    if n == "arith" or n == "evaluate":
        return ops.apply(dict(op, on=0), [x])
    y = slots[op["sample"]].live
    if n == "col_uu":
        return x.collocated_onto(y, how="box", kernel=op["kernel"], missing_data_for_missing_sample=op["mdms"],
                                 **{k: SEP[k](v) for k, v in op["seps"].items()})
    if n == "col_ug":
        return x.collocated_onto(y, how="bin", kernel=op["kernel"], missing_data_for_missing_sample=False)
    return x.collocated_onto(y, how=op["how"], missing_data_for_missing_sample=op["mdms"])


def flat(r):
    return list(r) if isinstance(r, list) else [r]


def settle(slot):
    """Collocation keeps a data set's longitudes in another 360 degrees: the same places."""
    o = flat(slot.live)[0]
    try:
        lon = np.asarray(ma.getdata(o.coord(standard_name="longitude").points), "f8")
    except Exception:
        return
    if not lon.size:
        return
    try:
        ms = [ref.lon_range(m, (lon.min() + lon.max()) / 2.0 - 180.0) for m in slot.models]
    except Undefined:
        return
    m = ms[0]
    want = m.pts["longitude"] if m.gridded else m.coords["longitude"]
    if want.shape == lon.shape and np.allclose(want, lon, rtol=0, atol=1e-6):
        slot.models = ms


def verify(slot, what):
    os_ = flat(slot.live)
    if len(os_) != len(slot.models):
        raise Violation("wrong-result", "%s: expected %d variables, got %d" % (what, len(slot.models), len(os_)))
    for m, o in zip(slot.models, os_):
        d = ref.compare(m, o)
        if d:
            raise Violation("wrong-result", "%s: %s" % (what, d))


def usable(live, models):
    """Results with a single value, without points or with dimensions iris gave up are not worked on further."""
    for m in models:
        if m.gridded and (len(m.dims) == 0 or m.any.all()):
            return False
        if not m.gridded and m.n < 1:
            return False
    return all(hasattr(o, "get_all_points") for o in flat(live))


def NATIVE_DEATHS(program):
    """NumPy's sort, among others, does not check what it allocates."""
    return core.has_alloc(program)


def run(p, env):
    """The disturbed calls are placed by an undisturbed execution of the same steps in a process of its own."""
    ins = ops.Inputs(env, p["inputs"])
    counts = None
    if any(st["faults"] for st in p["steps"]):
        r = core.in_subprocess(lambda: placed(p, env, ins))
        counts = r[1] if r[0] == "ok" else []
    steps(p, env, ins, counts, None)


def placed(p, env, ins):
    counts = []
    try:
        steps(p, env, ins, None, counts)
    except Violation:
        pass
    return counts


def steps(p, env, ins, counts, record):
    """Perform the steps; with `record` only to count the calls each of them makes."""
    from sim import seam
    order, rng0 = [], core.rng_for(p["order"], "chunks")
    slots = []
    for k, inp in enumerate(p["inputs"]):
        live = env.must("reading", ins.open, k)
        slots.append(Slot(live, models_of(inp, ins.fx[k]), "input %d" % k))
    slots = [s for s in slots if s.m.gridded or s.m.n]
    if not slots:
        return
    done, saved = [], False
    for n, st in enumerate(p["steps"]):
        rng = core.rng_for(st["seed"], "step")
        op = choose(rng, slots, st["on"])
        out = env.path("out%d%s.nc" % (n, "" if record is None else "dry"))
        if record is not None:
            record.append({})
        try:
            want = wanted(op, slots)
        except Undefined as e:
            env.log(n, op["op"], "undefined", e)
            env.count("undefined")
            continue
        what = "step %d (%s) on %s" % (n, ops.describe(op), slots[op["on"]].name)
        faults = [f for f in st["faults"] if op["op"] != "save" and not (saved and f["kind"] == "read")]
        saved = saved or op["op"] == "save"
        got = None
        with (contextlib.nullcontext() if op["op"] == "save" else sched.seeded(rng0, order)):
            if faults and record is not None:
                with seam.window((), alloc_threshold=150) as w:
                    got = env.attempt(perform, op, slots, env, out)
                record[-1] = dict(w.counts, alloc150=w.counts["alloc"])
            elif faults and counts and n < len(counts):
                faults = [dict(f, threshold=150) if f["kind"] == "alloc" else f for f in faults]
                plan = G.placed(faults, counts[n])
                with env.window(plan) as w:
                    a = env.attempt(perform, op, slots, env, out)
                env.log(n, op["op"], "disturbed", w.fired, a[0], a[1] if a[0] == "exc" else "")
                if w.fired:
                    env.count("disturbed_steps")
                    if a[0] == "exc":
                        env.count("failed_steps")
                if a[0] == "ok":
                    got = a
            if got is None:
                got = env.attempt(perform, op, slots, env, out)
        if got[0] == "exc":
            if refused(op, slots, got):
                env.log(n, op["op"], "refused", got[1])
                env.count("refused")
                if op["op"].startswith("col_"):
                    settle(slots[op["on"]])
                    settle(slots[op["sample"]])
                continue
            raise Violation("undefined-failure", "%s raises %s: %s\n%s" % (what, got[1], got[2], core.tail_tb(got[3])))
        r = got[1]
        env.count("steps")
        env.nontrivial = True
        if op["op"].startswith("col_"):
            settle(slots[op["on"]])
            settle(slots[op["sample"]])
        if want is None:
            if r is not None and not (isinstance(r, list) and len(r) == 0):
                raise Violation("wrong-result", "%s: expected no data, got %s" % (what, r))
            env.log(n, op["op"], "nothing")
            continue
        if r is None:
            raise Violation("wrong-result", "%s: expected %d variables, got nothing" % (what, len(want)))
        new = Slot(r, want, "the result of step %d (%s)" % (n, op["op"]))
        if len(flat(r)) == 1 and isinstance(r, list) and not slots[op["on"]].many:
            new.live = r[0]
        if op["op"] == "subset" and len(want) == len(flat(new.live)):
            new.models = want = [ref.align(m, o) for m, o in zip(want, flat(new.live))]
        verify(new, what)
        settle(new)
        env.log(n, op["op"], op["on"], [obs.digest(ops.result(o)) for o in flat(r)])
        done.append(ops.describe(op))
        if op["op"] == "lonrange":
            slots[op["on"]].models = want
        elif usable(new.live, want):
            slots.append(new)
    for s in slots:
        verify(s, "at the end, after %s: %s" % (done, s.name))
    env.log("end", len(slots), len(order))
    env.sample = {"steps": done[:5]}


def refused(op, slots, got):
    """Refusals that the definition leaves open."""
    # iris does not interpolate auxiliary fields whose dimensions are in another order than the data's
    return op["op"] == "col_gg" and got[1] == "NotImplementedError" and "increasing data_dims" in got[2]
