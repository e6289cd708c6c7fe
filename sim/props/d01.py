"""D01: a failed lazy read is all-or-nothing and retryable."""
import gc

from sim import gen as G
from sim import obs
from sim.core import Violation

LEVEL = "exploration"
RUNS = {"quick": 700, "thorough": 12000}
RULE = ("one run = one fabricated data set of a seeded product (11 products, 1-3 files, missing values and coordinates) read "
        "lazily, a seeded sequence of 1-5 accessor calls each with 0-2 faults placed at a seeded fraction of the storage and "
        "allocation calls the undisturbed access makes, then a fault-free pass over every accessor; non-trivial when at least one "
        "fault fired")
REAL = ["cis.data_io (readers, LazyData, products, gridded loading)", "netCDF4/HDF5", "pyhdf/HDF4", "iris and dask graph execution"]
STUBS = ["system calls on the data files (libsim, LD_PRELOAD)", "allocator failures (libsim)", "dask scheduler: synchronous"]
ASSUMPTIONS = ["a fault is an error result, a short count, an interrupted call or a NULL allocation at the libc boundary; reads never "
               "deliver wrong bytes and never report an end of file that is not there (HDF5 reads zeros beyond it)",
               "HDF4 (libdf) hides a failed read of an attribute from its callers, so for HDF4 products the reading faults are "
               "failing opens and short reads",
               "HDF5 variables are stored in chunks: after a failed read of a contiguous one the HDF5 library itself answers the "
               "next read of it with zeros",
               "failing allocations are those of data arrays (numpy) of at least 1200 bytes; HDF5 and HDF4 do not survive "
               "a failed allocation of their own, whatever cis does"]


def gen(rng, tier, index):
    fx = G.fixture(rng)
    fx["chunks"] = fx.get("chunks") or rng.int(1, 5)          # see ASSUMPTIONS
    gridded = fx["product"] in G.GRIDDED
    names = sorted(obs.G_ACCESS if gridded else obs.U_ACCESS)
    if not gridded:
        names = [n for n in names if n not in ("points",)]
        names += ["data", "coords", "lat", "flat", "data", "coords_data"]
    else:
        names += ["data", "data", "coords_data"]
    steps = [{"op": "open", "faults": [G.read_fault(rng, product=fx["product"])] if rng.chance(.25) else []}]
    for k in range(rng.int(1, 5)):
        if k and rng.chance(.5):        # another object of the same files: nothing has been read yet
            steps.append({"op": "open", "faults": [G.read_fault(rng, product=fx["product"])] if rng.chance(.25) else []})
        steps.append({"op": rng.pick(names), "faults": [G.read_fault(rng, product=fx["product"]) for _ in range(rng.weighted([(0, 1), (1, 5), (2, 1)]))]})
    return {"fixture": fx, "var": rng.int(0, 3), "item": rng.int(0, 3), "steps": steps, "final": rng.int(0, 5)}


def opener(cis, fx, p):
    v = fx["vars"][p["var"] % len(fx["vars"])]

    def go():
        o = cis.read_data(fx["files"], v, fx["product"])
        if isinstance(o, list):
            o = o[p["item"] % len(o)]
        return o
    return go


def outcome(env, fn, o):
    """What an accessor delivers, or the kind of error it refuses with (a coordinate that does not exist, say)."""
    r = env.attempt(lambda: obs.canon(fn(o)))
    return r[1] if r[0] == "ok" else ["exc", r[1]]


def run(p, env):
    import cis
    from sim import fixtures
    fx = fixtures.make(env, p["fixture"])
    op = opener(cis, fx, p)
    # undisturbed execution: expected answers, and how many calls each access makes (for placing faults)
    thr = G.alloc_thresholds([f for s in p["steps"] for f in s["faults"]])
    # (nothing of it is kept: an open file would let the libraries answer from what they hold of it)
    o = env.must("reading", op)
    table = obs.access_table(o)
    final = env.must("observing", obs.snap, o)
    expected = {}
    for s in p["steps"]:
        if s["op"] != "open" and s["op"] not in expected:
            o = None
            gc.collect()
            o = env.must("reading", op)
            expected[s["op"]] = outcome(env, table[s["op"]], o)
    counts = {}
    for t in thr or [4000]:
        o = None
        for i, s in enumerate(p["steps"]):
            if s["op"] == "open":
                o = None
                gc.collect()
            with env.window([], alloc_threshold=t) as w:
                if s["op"] == "open":
                    o = op()
                else:
                    env.attempt(table[s["op"]], o)
            c = counts.setdefault(i, dict(w.counts))
            c["alloc%d" % t] = w.counts["alloc"]
            if t == (thr or [4000])[0]:
                for k in ("read", "open_r"):
                    c[k] = w.counts[k]
    # with lazily read data most of the reading happens in the first access; later ones only have something to do
    # if that one failed, so a position is taken relative to the whole
    tot = {}
    for c in counts.values():
        for k, v in c.items():
            tot[k] = max(tot.get(k, 0), v)
    o = None
    fired_any = False
    for i, s in enumerate(p["steps"]):
        c = {k: (counts[i].get(k) or (tot.get(k, 0) if s["op"] != "open" else 0)) for k in tot}
        faults = G.resolve(s["faults"], c)
        if s["op"] == "open" or o is None:
            o = None
            gc.collect()
            with env.window(faults) as w:
                r = env.attempt(op)
            if r[0] == "ok":
                o = r[1]
            what = "open"
        else:
            with env.window(faults) as w:
                r = env.attempt(lambda: obs.canon(table[s["op"]](o)))
            what = s["op"]
            if r[0] == "ok" or expected[what] == ["exc", r[1]]:
                d = obs.diff(expected[what], r[1] if r[0] == "ok" else ["exc", r[1]], what)
                r = ("ok", None)
                if d:
                    raise Violation("wrong-value", "access %d (%s), with %d fault(s) in effect, delivered something else than an "
                                    "undisturbed read:\n%s" % (i, what, w.fired, d))
        env.log("step", i, what, r[0], "" if r[0] == "ok" else r[1], "fired", w.fired)
        env.count("%s.%s" % ("faulted" if w.fired else "clean", r[0]))
        fired_any = fired_any or w.fired > 0
        if r[0] == "exc" and w.fired == 0:
            raise Violation("not-retryable", "access %d (%s) failed although nothing was disturbed any more: %s: %s" % (i, what, r[1], r[2]))
    env.nontrivial = fired_any
    if o is None:
        o = env.must("reading again", op)
    # the disturbance has passed: every accessor of the same object delivers what an undisturbed object delivers
    order = sorted(table)
    k = p["final"] % len(order)
    r = env.attempt(obs.snap, o)
    if r[0] == "exc":
        raise Violation("not-retryable", "after the disturbance the same object cannot be read: %s: %s" % (r[1], r[2]))
    d = obs.diff(final, r[1], "object")
    if d:
        raise Violation("stale-after-fault", "after the disturbance the same object differs from an undisturbed one:\n%s" % d)
    fresh = env.must("reading", op)
    for name in order[k:] + order[:k]:
        d = obs.diff(outcome(env, table[name], fresh), outcome(env, table[name], o), name)
        if d:
            raise Violation("stale-after-fault", "after the disturbance %s differs from an undisturbed object:\n%s" % (name, d))
    env.sample = {"events": env.events[-4:]}
