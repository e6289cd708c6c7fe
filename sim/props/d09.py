"""D09: a failed operation leaves its input data intact."""
import json
import os

from sim import core, obs, ops, seam
from sim import gen as G
from sim.core import Violation

LEVEL = "exploration"
RUNS = {"quick": 550, "thorough": 9000}
RULE = ("one run = 1-2 seeded data sets (or lists), lazy, partly or fully loaded, one operation on them (subset, aggregation, collapse, "
        "collocation, arithmetic, slice, copy, data frame, points, units, longitude range, evaluation, note, save), 1-3 attempts each hit by "
        "1-2 read, write, open or allocation faults placed within the undisturbed operation's calls, then an undisturbed one; after "
        "each (or, as seeded, only the last) the inputs are compared with their state before and after an undisturbed operation, and "
        "each result with the undisturbed one, all computed in another process; non-trivial when an attempt failed")
REAL = ["cis data sets, lists, lazy loading, subsetting, aggregation, collapse, collocation, evaluation, saving", "netCDF4/HDF5, pyhdf, iris, dask"]
STUBS = ["system calls on files below the scratch directory (libsim)", "allocator failures (libsim)", "dask scheduler: synchronous"]
NOTE = "seeded failing attempts; the inputs and results of undisturbed operations in another process are the reference"
OPS = ["subset", "slice", "copy", "frame", "points", "aggregate", "collapse", "arith", "lonrange", "units", "evaluate", "history", "save",
       "col_uu", "col_gu", "col_gg", "col_ug"]
LOADS = ["none", "none", "none", "data", "coords", "all"]


def NATIVE_DEATHS(p):
    return core.has_alloc(p)


def gen(rng, tier, index):
    kinds = [rng.pick("ug")] + ([rng.pick("ug")] if rng.chance(.6) else [])
    inputs = []
    for k in kinds:
        if k == "u" and rng.chance(.25):
            inputs.append(ops.gen_input(rng, "u", product=rng.pick(["aerosol_cci", "cloud_cci", "modis_l2", "gassp"]), n=rng.int(20, 120)))
            if inputs[-1]["fixture"]["product"] == "gassp":
                inputs[-1]["fixture"]["kind"] = rng.pick(["plane", "ship", "station"])
        else:
            over = {"n": rng.pick([rng.int(5, 30), rng.int(100, 250), rng.int(100, 250)])} if k == "u" else {}
            if k == "g" and rng.chance(.5):
                over["shape"] = rng.pick([[2, rng.int(8, 12), rng.int(12, 16)], [rng.int(8, 12), rng.int(12, 20)]])
            inputs.append(ops.gen_input(rng, k, **over))
            if len(inputs[-1]["fixture"].get("shape", [1, 1, 1])) == 2:
                inputs[-1]["fixture"]["nfiles"] = 1
    if rng.chance(.5):
        for i in inputs:
            i["fixture"]["chunks"] = rng.int(2, 5) if i["fixture"]["product"] == "cis" else True
    op = None
    while op is None or op.get("how") == "box":
        op = ops.gen_op(rng, inputs, allow=OPS)
    if op["op"] == "collapse":                   # iris averages single precision differently once the values are loaded
        inputs[op["on"]]["fixture"].pop("dtype", None)
        if rng.chance(.6):                       # coordinates that are collapsed in part, values that are needed at once
            inputs[op["on"]]["fixture"]["aux"] = True
            op["over"], op["how"] = [rng.pick(["latitude", "longitude"])], rng.pick(["median", "gmean", "hmean", "mean", "moments"])
    hdf4 = next((i["fixture"]["product"] for i in inputs if i["fixture"]["product"] in G.HDF4), None)

    def fault():
        if op["op"] == "save" and rng.chance(.6):
            return {"kind": rng.pick(["write", "write", "open_w", "rename", "close"]), "frac": round(rng.random(), 4), "repeat": rng.pick([1, -1]),
                    "action": "errno", "arg": rng.pick(["EIO", "ENOSPC"])}
        f = G.read_fault(rng, product=hdf4, alloc=not hdf4)
        if f["kind"] != "alloc" and rng.chance(.35) and not hdf4:
            f = dict(f, kind="alloc", action="errno", arg="ENOMEM", threshold=rng.pick([150, 300, 700, 1200]))
        return f
    tries = [{"faults": [fault() for _ in range(rng.weighted([(1, 4), (2, 1)]))], "peek": rng.chance(.6)}
             for _ in range(rng.weighted([(2, 4), (3, 2), (5, 1)]))]
    if any(f["kind"] == "read" for t in tries for f in t["faults"]):
        for i in inputs:        # after a failed read of a contiguous variable the HDF5 library may answer the next one with zeros
            i["fixture"]["chunks"] = i["fixture"].get("chunks") or (3 if i["fixture"]["product"] == "cis" else True)
    return {"inputs": inputs, "op": op, "load": [rng.pick(LOADS) for _ in inputs], "tries": tries}


def shrink(p):
    for i in range(len(p["tries"])):
        c = json.loads(json.dumps(p))
        del c["tries"][i]
        yield c
    for i, s in enumerate(p["tries"]):
        for j in range(len(s["faults"])):
            if len(s["faults"]) > 1:
                c = json.loads(json.dumps(p))
                del c["tries"][i]["faults"][j]
                yield c
    for i, v in enumerate(p["load"]):
        if v != "none":
            c = json.loads(json.dumps(p))
            c["load"][i] = "none"
            yield c


def open_inputs(p, ins):
    data = ins.open_all()
    for d, how in zip(data, p["load"]):
        for x in (d if isinstance(d, list) else [d]):
            if how in ("data", "all"):
                x.data
            if how in ("coords", "all"):
                for c in x.coords():
                    c.points
    return data


def names(x):
    return {"filenames": [os.path.basename(f) for f in x.filenames], "var_name": x.var_name}


def state(data):
    """The inputs one by one: [[snapshot, ...], ...]"""
    out = []
    for d in data:
        out.append([dict(obs.snap(x), files=names(x)) for x in (d if isinstance(d, list) else [d])])
    return out


def reference(p, ins, times, d, load):
    """In another process: the states of the inputs before and after 1..times undisturbed operations, and their results."""
    os.chdir(d)
    env = core.Env(d)
    p = dict(p, load=load)
    states, results = [state(open_inputs(p, ins))], []
    data = open_inputs(p, ins)
    for k in range(times):
        try:
            r = ops.apply(p["op"], data, env, "ref%d.nc" % k)
        except Exception as e:
            return ["refused", type(e).__name__]
        if p["op"]["op"] not in ops.IN_PLACE:
            results.append(ops.result(r))
        states.append(None)
        if k == times - 1 or p["op"]["op"] == "history":
            states[-1] = state(data)
    for k in range(times - 1, 0, -1):         # only notes accumulate; observing every time would load everything
        if states[k] is None:
            states[k] = states[times]
    return ["ok", states, results]


def _run(p, env, helper):
    ins = ops.Inputs(env, p["inputs"])
    times = len(p["tries"]) + 1
    r = helper(reference, p, ins, times, env.dir, p["load"])
    if r[0] != "ok":
        raise RuntimeError("reference: %r" % (r,))
    r = r[1]
    if r[0] == "refused":
        env.count("refused.%s" % p["op"]["op"])
        return
    states, results = r[1], r[2]
    counts = G.measure(env, [f for s in p["tries"] for f in s["faults"]], 
                       lambda x: ops.apply(p["op"], x, env, "dry.nc"), lambda: open_inputs(p, ins))
    for f in [f for f in os.listdir(env.dir) if f.startswith(("ref", "dry"))]:
        os.remove(env.path(f))

    def attempts(env):
        data = open_inputs(p, ins)
        at = [[{0} for _ in (d if isinstance(d, list) else [d])] for d in data]     # which states each data set can be in

        def check(what):
            got = state(data)
            for i, g in enumerate(got):
                for j, s in enumerate(g):
                    ok = [k for k in sorted(at[i][j]) if obs.diff(states[k][i][j], s, "") is None]
                    if not ok:
                        k = sorted(at[i][j])
                        raise Violation("input-damaged", "%s: input %d, item %d is neither as before nor as %s would leave it:\n%s\n%s" % (
                            what, i, j, ops.describe(p["op"]), obs.diff(states[k[0]][i][j], s, "before"), obs.diff(states[k[-1]][i][j], s, "after")))
                    at[i][j] = set(ok)
        failed = 0
        for n, s in enumerate(p["tries"] + [{"faults": [], "peek": True}]):
            with env.window(G.placed(s["faults"], counts)) as w:
                r = env.attempt(ops.apply, p["op"], data, env, "out.nc")
            env.log("try", n, r[0], "" if r[0] == "ok" else r[1], w.fired)
            env.count("try.%s" % r[0])
            what = "after %d failed attempts, attempt %d (%d faults fired) %s" % (failed, n, w.fired, "succeeded" if r[0] == "ok" else "raised %s" % r[1])
            if r[0] == "exc":
                failed += 1
                env.count("failed.%s" % p["op"]["op"])
                if not w.fired:
                    raise Violation("not-repeatable", "%s although nothing was disturbed: %s\n%s" % (what, r[2], core.tail_tb(r[3])))
                at = [[k | {min(j + 1, times) for j in k} for k in a] for a in at]
            else:
                at = [[{min(j + 1, times) for j in k} for k in a] for a in at]
                if p["op"]["op"] not in ops.IN_PLACE:
                    got = env.attempt(ops.result, r[1])
                    if got[0] == "exc":
                        raise Violation("result-broken", "%s, but its result cannot be used: %s: %s\n%s" % (what, got[1], got[2], core.tail_tb(got[3])))
                    d = obs.diff(results[0], got[1], "result", close=True)
                    if d:
                        raise Violation("result-differs", "%s with another result than undisturbed:\n%s" % (what, d))
            if s["peek"]:
                check(what)
        env.nontrivial = failed > 0
        return True
    r = core.in_child(env, attempts)
    if r[0] == "died":
        if not sum(seam.fired().values()):
            raise Violation("process-died", "the process was killed (%s) although nothing was disturbed" % (r[1],))
        env.count("native_death")
    env.sample = {"events": env.events[-4:]}


def run(p, env):
    helper = ops.Helper()
    try:
        _run(p, env, helper)
    finally:
        helper.close()
