"""D11: batches of variables and reused operators carry nothing over."""
import json
import os

import numpy as np

from sim import core, obs, ops
from sim import gen as G
from sim.core import Violation

LEVEL = "exploration"
RUNS = {"quick": 500, "thorough": 9000}
RULE = ("one run = seeded input data sets and either one list of 2-3 variables (in a seeded order, with different missing values, given "
        "to a subset, aggregation, collapse, collocation, longitude change, data frame, note or save, after 0-2 attempts that fail on "
        "storage or memory), or one set of operators (a reader, collocator, constraint, kernel, aggregator, collapsor, subset "
        "constraint, calculator) used 2-5 times on seeded data, some of the uses failing; every result is compared with that of fresh "
        "operators on the variable alone, computed by a separate process that never met the batch, the other uses or a fault; "
        "non-trivial when at least two results are compared")
REAL = ["cis data lists, collocators, constraints, kernels, aggregators, subset constraints, DataReader, Calculator, save_data"]
STUBS = ["system calls on files below the scratch directory (libsim)", "allocator failures (libsim)", "dask scheduler: synchronous"]
NOTE = "seeded batches and sequences of uses, each use compared with a fresh one in another process"
BATCH = ["subset", "aggregate", "collapse", "col_uu", "col_gu", "col_gg", "col_ug", "lonrange", "frame", "history", "save", "copy", "points"]


def NATIVE_DEATHS(p):
    return core.has_alloc(p)


# ------------------------------------------------------------------------------------------------ programs

def gen_inputs(rng, kinds, n_list):
    """`n_list` leading inputs are lists."""
    out = []
    for i, k in enumerate(kinds):
        over = {}
        if k == "u":
            over["coords"] = rng.pick(["lLat", "lLat", "lLt", "lLa"])
            over["n"] = rng.int(3, 24)
        if i < n_list:
            over["vars"] = rng.int(2, 3)
            over["miss"] = rng.pick([.2, .4, .6])
        out.append(ops.gen_input(rng, k, as_list=i < n_list, **{k_: v for k_, v in over.items()}))
        # chunked: after a failed read of a contiguous variable the HDF5 library may answer the next one with zeros
        out[-1]["fixture"]["chunks"] = rng.int(2, 5) if k == "u" else True
    return out


def gen(rng, tier, index):
    if rng.chance(.5):
        kind = rng.pick("ug")
        inputs = gen_inputs(rng, [kind] + ([rng.pick("ug")] if rng.chance(.6) else []), 1)
        op = None
        while op is None or op.get("how") == "box":
            op = ops.gen_op(rng, inputs, allow=BATCH)
        if op["op"] == "collapse":               # iris averages single precision differently once the values are loaded
            inputs[op["on"]]["fixture"].pop("dtype", None)
        return {"mode": "batch", "inputs": inputs, "op": op, "order": rng.shuffled(list(range(inputs[0]["fixture"]["vars"]))),
                "faults": [[G.read_fault(rng) for _ in range(rng.int(1, 2))] for _ in range(rng.weighted([(0, 3), (1, 2), (2, 1)]))]}
    what = rng.weighted([("uu", 4), ("gu", 4), ("gg", 2), ("ug", 3), ("agg", 3), ("subu", 3), ("subg", 2), ("collapse", 2), ("reader", 2),
                         ("points", 2), ("calc", 1), ("sampled", 2)])
    first = "u" if what in ("uu", "gu", "agg", "subu", "points", "calc", "sampled") else rng.pick("ug") if what == "reader" else "g"
    second = {"uu": "u", "gu": "g", "gg": "g", "ug": "u", "points": "u", "sampled": "u"}.get(what, first)
    kinds = [first, first] + ([second, second] if what in ("uu", "gu", "gg", "ug", "points", "sampled") else [])
    inputs = gen_inputs(rng, kinds, 0)
    for i in inputs:
        if what in ("uu", "gu", "points", "sampled", "ug", "agg", "subu") and not ops.is_g(i):
            i["fixture"]["coords"] = "lLat"
        if ops.is_g(i) and i["fixture"].get("shape") and what in ("gg", "gu", "ug", "subg"):
            if len(i["fixture"]["shape"]) == 4:
                i["fixture"]["shape"] = [2, 3, 4]
    if what in ("gg", "subg", "gu"):           # grids that agree on which coordinates there are
        for i in inputs:
            if ops.is_g(i):
                if len(i["fixture"]["shape"]) == 2:
                    i["fixture"]["shape"] = [2] + i["fixture"]["shape"]
    p = {"mode": "reuse", "what": what, "inputs": inputs, "kernel": rng.pick(ops.U_KERNELS + (["nn_h", "nn_t"] if what == "uu" else [])),
         "mdms": rng.chance(.5), "steps": []}
    if what in ("uu", "points", "sampled"):
        p["args"] = ops.u_box_args(rng, ["latitude", "longitude", "altitude", "time"])
    if what in ("gu", "gg"):
        p["how"] = rng.pick(["lin", "nn"])
        p["extrapolate"] = rng.chance(.3)
    if what == "agg":
        p["grid"] = ops.gen_grid(rng, ops.u_coords(inputs[0]["fixture"]), ops.u_ranges(inputs[0]["fixture"]))
    if what in ("subu", "subg"):
        f = inputs[0]["fixture"]
        p["lims"] = ops.gen_limits(rng, [c for c in (ops.g_coords(f) if first == "g" else ops.u_coords(f)) if c != "time" or first == "u"],
                                   ops.g_ranges(f) if first == "g" else ops.u_ranges(f))
    if what == "collapse":
        p["over"] = rng.some(ops.g_coords(inputs[0]["fixture"]), rng.int(1, 2))
    for _ in range(rng.int(2, 5)):
        s = {"a": rng.int(0, 1), "b": 2 + rng.int(0, 1) if len(kinds) > 2 else None, "list": rng.chance(.25)}
        if what == "collapse":
            s["a"] = 0
            s["kernel"] = rng.pick(ops.G_KERNELS)
        if what == "calc":
            s["expr"] = rng.pick(["a * 2 + 1", "a + numpy.sqrt(a)", "a - b" if False else "a ** 2", "undefined + a"])
        if rng.chance(.3):
            s["faults"] = [G.read_fault(rng)]
        p["steps"].append(s)
    return p


def shrink(p):
    if p["mode"] == "batch":
        for i in range(len(p["faults"])):
            c = json.loads(json.dumps(p))
            del c["faults"][i]
            yield c
    else:
        for i, s in enumerate(p["steps"]):
            for k in ("faults", "list"):
                if s.get(k):
                    c = json.loads(json.dumps(p))
                    c["steps"][i].pop(k) if k == "faults" else c["steps"][i].__setitem__(k, False)
                    yield c


# ------------------------------------------------------------------------------------------------ batches

def items(r):
    """A result as {variable name: snapshot}."""
    import pandas
    r = r if isinstance(r, list) else [r]
    if r and r[0].__class__.__name__.endswith("HyperPointView"):
        return {str(i): ops.result(x) for i, x in enumerate(r)}
    out = {}
    for x in r:
        if isinstance(x, pandas.DataFrame):
            f = obs.frame(x)
            for i, c in enumerate(f["columns"]):
                out["%s" % c] = f["cols"][i]
            out["index"] = f["index"]
            out["n"] = f["n"]
            continue
        s = obs.snap(x, False) if not x.__class__.__name__ == "Cube" else obs.snap_g(x, False)
        n = s["var"] if "dim_coords" in s else s["meta"]["name"]
        while n in out:
            n += "'"
        out[n] = s
    return out


def open_list(ins, k, order):
    import cis
    fx = ins.fx[k]
    return cis.read_data_list(list(fx["files"]), [fx["vars"][i] for i in order], fx["product"])


def alone(ins, p, v, path):
    """In another process: the operation on variable v of the list by itself."""
    i = dict(ins.inputs[0], list=False, var=v)
    ins.inputs = [i] + list(ins.inputs[1:])
    data = ins.open_all()
    r = ops.apply(p["op"], data, core.Env(path), "alone%d.nc" % v)
    if isinstance(r, ops.Saved):
        name = data[0].var_name
        s = obs.snap(__import__("cis").read_data(r.path, name, None if data[0].is_gridded else "cis"), False)
        return {name: strip(s)}
    return None if r is None else items(r)


def strip(s):
    return s


def read_saved(path, names, gridded):
    import cis
    return {n: strip(obs.snap(cis.read_data(path, n, None if gridded else "cis"), False)) for n in names}


def batch(p, env, helper):
    ins = ops.Inputs(env, p["inputs"])
    nv = len(p["order"])
    expected = []
    for v in range(nv):
        r = helper(alone, ins, p, v, env.dir)
        if r[0] != "ok":
            env.count("refused.%s" % p["op"]["op"])
            env.log("alone", v, r[0], r[1])
            return
        expected.append(r[1])

    def data():
        return [open_list(ins, 0, p["order"])] + [ins.open(k) for k in range(1, len(p["inputs"]))]
    counts = G.measure(env, [f for fs in p["faults"] for f in fs], lambda x: ops.apply(p["op"], x, env), data) if p["faults"] else {}
    if os.path.exists(env.path("out.nc")):
        os.remove(env.path("out.nc"))
    x = data()
    if not (isinstance(x[0], list) and len(x[0]) == nv):
        raise Violation("batch-lost", "reading %d variables gave %r" % (nv, x[0]))
    for i, fs in enumerate(p["faults"]):
        with env.window(G.placed(fs, counts)) as w:
            r = env.attempt(ops.apply, p["op"], x, env)
        env.log("attempt", i, r[0], "" if r[0] == "ok" else r[1], w.fired)
        env.count("attempt.%s" % r[0])
        if r[0] == "ok" and not (p["op"]["op"] in ops.IN_PLACE):
            compare(p, env, helper, r[1], expected, "after %d attempts and %d faults" % (i, w.fired), x)
        if p["op"]["op"] == "history":        # the note would be there twice
            x = data()
    r = env.attempt(ops.apply, p["op"], x, env)
    if r[0] == "exc":
        raise Violation("batch-fails", "%s fails for the variables together (order %s), but not for each alone: %s: %s\n%s" % (
            ops.describe(p["op"]), p["order"], r[1], r[2], core.tail_tb(r[3])))
    compare(p, env, helper, r[1], expected, "together", x)
    env.nontrivial = True


def compare(p, env, helper, r, expected, what, data):
    if r is None:
        if any(e is not None for e in expected):
            raise Violation("batch-differs", "%s: nothing for the variables together (%s), something for each alone" % (ops.describe(p["op"]), what))
        return
    if isinstance(r, ops.Saved):
        names = [n for e in expected for n in e]
        got = helper(read_saved, r.path, names, data[0].is_gridded)
        if got[0] != "ok":
            raise Violation("batch-unreadable", "the file of the list cannot be read: %s %s" % (got[1], got[2]))
        got = got[1]
    else:
        got = items(r)
    want, order = {}, []
    for k, v in enumerate(p["order"]):
        e = expected[v]
        if e is None:
            continue
        for n in e:
            m = str(k) if n == "0" and p["op"]["op"] == "points" else n
            want[m] = e[n]
            order.append(m)
    env.log("compared", obs.digest(want))
    d = obs.diff(want, got, "result", close=True)
    if d:
        raise Violation("batch-differs", "%s gives something else for the variables together (%s, order %s) than for each alone:\n%s" % (
            ops.describe(p["op"]), what, p["order"], d))
    if p["op"]["op"] not in ("save", "frame") and list(got) != order:
        raise Violation("batch-order", "%s: the results come in the order %s instead of %s" % (ops.describe(p["op"]), list(got), order))


# ------------------------------------------------------------------------------------------------ reuse

class Operators(object):
    """The operators a program uses, made once."""

    def __init__(self, p):
        from cis.collocation import col_implementations as ci
        from cis.collocation.col import get_kernel
        self.p = p
        w = p["what"]
        kw = {"missing_data_for_missing_sample": p["mdms"]}
        self.con, self.kernel = None, None
        if w in ("uu", "ug", "agg", "sampled"):
            self.kernel = get_kernel(p["kernel"])
        if w == "uu":
            self.col, self.con = ci.GeneralUngriddedCollocator(**kw), ci.SepConstraintKdtree(**p["args"])
        elif w == "points":
            self.con = ci.SepConstraintKdtree(**p["args"])
        elif w == "gu":
            self.col, self.kernel = ci.GriddedUngriddedCollocator(extrapolate=p["extrapolate"], **kw), p["how"]
        elif w == "gg":
            self.col = ci.GriddedCollocator(extrapolate=p["extrapolate"], **kw)
            self.kernel = ci.gridded_gridded_li() if p["how"] == "lin" else ci.gridded_gridded_nn()
        elif w == "ug":
            self.col, self.con = ci.GeneralGriddedCollocator(**kw), ci.BinnedCubeCellOnlyConstraint()
        elif w == "agg":
            from cis.aggregation.ungridded_aggregator import UngriddedAggregator
            self.agg = UngriddedAggregator({k: slice(*v) for k, v in p["grid"].items()})
        elif w == "subu":
            from cis.subsetting.subset import UngriddedSubsetConstraint
            self.sub = UngriddedSubsetConstraint({k: slice(*v) for k, v in p["lims"].items()})
        elif w == "subg":
            from cis.subsetting.subset import GriddedSubsetConstraint
            self.sub = GriddedSubsetConstraint({k: slice(*v) for k, v in p["lims"].items()})
        elif w == "reader":
            from cis.data_io.data_reader import DataReader
            self.reader = DataReader()
        elif w == "calc":
            from cis.evaluate import Calculator
            self.calc = Calculator()
        self.collapsor = None

    def use(self, s, ins):
        """One use on freshly opened data; returns what the user gets."""
        w, p = self.p["what"], self.p

        def get(k):
            if s["list"] and k == (s["b"] if s["b"] is not None else s["a"]):
                return open_list(ins, k, range(ins.inputs[k]["fixture"]["vars"]))
            return ins.open(k)
        if w == "reader":
            k = s["a"]
            fx = ins.fx[k]
            r = self.reader.read_data_list(list(fx["files"]), list(fx["vars"]) if s["list"] else fx["vars"][0], fx["product"])
        elif w in ("uu", "ug", "gu", "gg"):
            r = self.col.collocate(ins.open(s["a"]), get(s["b"]), self.con, self.kernel)
        elif w == "sampled":
            r = ins.open(s["a"]).sampled_from(get(s["b"]), how="box", kernel=self.kernel, **p["args"])
        elif w == "points":
            from cis.collocation import data_index
            a = ins.open(s["a"])
            pts = a.as_data_frame(time_index=False, name="vals")
            d = ins.open(s["b"]).as_data_frame(time_index=False, name="vals").dropna(axis=0)
            data_index.create_indexes(self.con, a, d, None)
            return [obs.Arr(np.sort(self.con.constrain_points(pts.iloc[i], d).vals.values)) for i in range(min(6, len(pts)))]
        elif w == "agg":
            r = self.agg.aggregate(get(s["a"]) if not s["list"] else ins.open(s["a"]), self.kernel)
        elif w in ("subu", "subg"):
            r = self.sub.constrain(get(s["a"]))
        elif w == "collapse":
            from cis.aggregation.gridded_collapsor import GriddedCollapsor
            from cis.aggregation.collapse_kernels import aggregation_kernels
            if self.collapsor is None:
                x = ins.open(s["a"])
                self.collapsor = GriddedCollapsor(x, [x._get_coord(c) for c in p["over"]])
            r = self.collapsor(aggregation_kernels[s["kernel"]])
        elif w == "calc":
            x = ins.open(s["a"])
            x.alias = "a"
            r = self.calc.evaluate([x], s["expr"], output_var="calc", units="1")
        return None if r is None else items(r)


def fresh(p, s, ins):
    try:
        return ["ok", Operators(p).use(s, ins)]
    except Exception as e:
        return ["exc", type(e).__name__]


def reuse(p, env, helper):
    ins = ops.Inputs(env, p["inputs"])
    o = Operators(p)
    done = 0
    for i, s in enumerate(p["steps"]):
        want = helper(fresh, p, s, ins)
        if want[0] != "ok":
            if want[0] == "died" and core.has_alloc(p):
                env.count("native_death")
                return
            raise RuntimeError("fresh operators: %r" % (want,))
        want = want[1]
        if s.get("faults"):
            counts = G.measure(env, s["faults"], lambda x: x.use(s, ins), lambda: Operators(p))
            with env.window(G.placed(s["faults"], counts)) as w:
                r = env.attempt(o.use, s, ins)
            env.log("use", i, r[0], "" if r[0] == "ok" else r[1], w.fired)
            env.count("faulted_use.%s" % r[0])
        r = env.attempt(o.use, s, ins)
        env.log("use", i, r[0], r[1] if r[0] == "exc" else obs.digest(r[1]))
        if r[0] == "exc":
            if want[0] == "exc" and want[1] == r[1]:
                env.count("both_refuse.%s" % p["what"])
                continue
            raise Violation("reuse-fails", "use %d of the same %s operators fails, fresh ones %s: %s: %s\n%s" % (
                i, p["what"], "work" if want[0] == "ok" else "raise " + want[1], r[1], r[2], core.tail_tb(r[3])))
        if want[0] == "exc":
            raise Violation("reuse-differs", "use %d of the same %s operators works, fresh ones raise %s" % (i, p["what"], want[1]))
        d = obs.diff(want[1], r[1], "result", close=True)
        if d:
            raise Violation("reuse-differs", "use %d of the same %s operators gives something else than fresh ones:\n%s" % (i, p["what"], d))
        done += 1
    env.nontrivial = done > 1
    env.count("uses.%s" % p["what"], done)


def run(p, env):
    helper = ops.Helper()
    try:
        (batch if p["mode"] == "batch" else reuse)(p, env, helper)
    finally:
        helper.close()
    env.sample = {"events": env.events[-4:]}
