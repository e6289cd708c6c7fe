"""D02: the order in which lazy parts are loaded, viewed and converted does not matter."""
import numpy as np
import numpy.ma as ma

from sim import core, obs, ops, sched
from sim import gen as G
from sim.core import Violation

LEVEL = "exploration"
RUNS = {"quick": 400, "thorough": 9000}
RULE = ("one run = one fabricated data set (11 products, 1-3 files, missing values and coordinates), one or two of its variables, and "
        "a seeded interleaving of accesses (values, flattened values, shapes, coordinates, ranges, point views, slices, copies, "
        "data frames, listings) with conversions (longitude range, units of the data or a coordinate, times to and from date objects, "
        "new values, notes); every access is compared with the same access on a freshly read object that had all of its parts loaded "
        "first, and on one that had nothing loaded; the chunks of gridded values are computed in seeded orders; non-trivial when at "
        "least one access precedes a conversion or another access")
REAL = ["cis.data_io (readers, products, LazyData, Coord, UngriddedData, GriddedData, point views)", "netCDF4, pyhdf, iris, dask graphs"]
STUBS = ["order of dask tasks (seeded, one at a time)", "system calls below the scratch directory counted (libsim), no faults"]
NOTE = "seeded access orders against eagerly and lazily loaded twins, and against the fabricated truth where points lack coordinates"

U_NAMES = ["flat", "size", "count", "shape", "coords", "coords_data", "coords_flat", "coords_shape", "coords_range", "lat", "lon", "time",
           "all_points", "nonmasked", "coord_points", "slice", "copy", "frame", "summary", "points", "data", "data", "held"]
G_NAMES = ["data", "data", "shape", "coords_data", "lat", "lon", "bounds", "all_points", "nonmasked", "slice", "first", "copy", "summary",
           "points", "held", "lazyslice"]


def gen_mutation(rng, gridded, fx):
    if gridded:
        return rng.weighted([(["lon", rng.pick([-180, 0, -90, 30, 180])], 3), (["units", rng.pick(["g m-2", "mg m-2"])], 1),
                             (["note", "a note"], 1), (["set", rng.pick([2.0, 0.5])], 1)])
    return rng.weighted([(["lon", rng.pick([-180, 0, -90, 30, 180])], 3), (["units", rng.pick(["g m-3", "mg m-3", "1e-3"])], 2),
                         (["cunits", rng.pick(["altitude", "air_pressure"]), None], 1), (["dates"], 2), (["days"], 2),
                         (["coordlon", rng.pick([0, -180])], 1), (["note", "a note"], 1), (["set", rng.pick([2.0, 0.5])], 1)])


def gen(rng, tier, index):
    fx = G.fixture(rng, n=rng.weighted([(rng.int(3, 40), 4), (rng.int(50, 300), 1)]))
    gridded = fx["product"] in G.GRIDDED
    two = fx["vars"] > 1 and rng.chance(.4)
    steps = []
    for _ in range(rng.int(1, 8)):
        on = rng.int(0, 1) if two else 0
        if rng.chance(.35):
            steps.append({"m": gen_mutation(rng, gridded, fx), "on": on})
        else:
            steps.append({"a": rng.pick(G_NAMES if gridded else U_NAMES), "on": on})
    return {"fixture": fx, "var": rng.int(0, 3), "two": two, "order": rng.int(1, 10 ** 6), "steps": steps, "tz": rng.pick(["UTC", "UTC", "EST5EDT"])}


def mutate(o, m, held):
    k = m[0]
    if k == "lon":
        o.set_longitude_range(m[1])
    elif k == "units":
        o.convert_units(m[1])
    elif k == "cunits":
        o.coord(standard_name=m[1]).convert_units("km" if m[1] == "altitude" else "Pa")
    elif k == "dates":
        o.coord(standard_name="time").convert_standard_time_to_datetime()
    elif k == "days":
        o.coord(standard_name="time").convert_datetime_to_standard_time()
    elif k == "coordlon":
        o.coord(standard_name="longitude").set_longitude_range(m[1])
    elif k == "note":
        o.add_history(m[1])
    elif k == "set":
        o.data = o.data * m[1]


def gridded_points(o):
    return [[str(x) for x in (p.latitude, p.longitude, p.time, p.val[0] if p.val else None)] for _, p in zip(range(6), o.get_non_masked_points())]


def access(o, name, held):
    if name == "held":
        # slices and copies taken now stay what they are, whatever is done to the original later
        held.append((o.copy(), obs.snap(o.copy())))
        n = o.shape[0]
        s = o[obs.mid_slice(n)]
        if hasattr(s, "get_all_points"):
            held.append((s.copy(), obs.snap(s.copy())))
        return obs.snap(held[-1][0])
    if name == "points" and o.is_gridded:
        return gridded_points(o)
    if name == "lazyslice":
        s = o[tuple(obs.mid_slice(n) for n in o.shape)]
        return obs.Arr(s.data)
    return obs.access_table(o)[name](o)


def outcome(env, fn, *a):
    r = env.attempt(lambda: obs.canon(fn(*a)))
    return r[1] if r[0] == "ok" else ["exc", r[1]]


def consistent(o, what):
    """Flattened and point views agree with the values as they are now."""
    if o.is_gridded:
        data = o.data
        v = o.get_all_points()
        if len(v) != data.size or obs.diff(obs.Arr(data.ravel()), obs.Arr(ma.asanyarray(v.data).ravel())):
            raise Violation("views-disagree", "%s: the points of a gridded data set are not its values" % what)
        n = sum(1 for _ in o.get_non_masked_points())
        if n != int(ma.count(data)):
            raise Violation("views-disagree", "%s: %d non-masked points, %d values" % (what, n, int(ma.count(data))))
        return
    cs = o.coords()
    data = o.data
    d = obs.diff(obs.Arr(data.ravel()), obs.Arr(o.data_flattened), "data_flattened")
    if d:
        raise Violation("views-disagree", "%s: %s" % (what, d))
    flat = o.coords_flattened
    std = o.find_standard_coords()
    for c, f in zip(std, flat):
        if (c is None) != (f is None):
            raise Violation("views-disagree", "%s: coords_flattened and the coordinates disagree about which exist" % what)
        if c is not None:
            d = obs.diff(obs.Arr(ma.getdata(c.data).ravel()), obs.Arr(ma.getdata(f)), "flattened " + c.name()) or \
                obs.diff(obs.Arr(c.data.ravel()), obs.Arr(c.data_flattened), "data_flattened of " + c.name())
            if d:
                raise Violation("views-disagree", "%s: %s" % (what, d))
    for c in cs:
        if c.data.size != data.size:
            raise Violation("misaligned", "%s: %s has %d values, the data %d" % (what, c.name(), c.data.size, data.size))
        bad = ma.getmaskarray(c.data).any() or (c.data.dtype.kind == "f" and np.isnan(ma.getdata(c.data)).any())
        if bad:
            raise Violation("missing-coordinate-kept", "%s: %s still has missing values" % (what, c.name()))
    v = o.get_all_points()
    if len(v) != data.size or obs.diff(obs.Arr(data.ravel()), obs.Arr(v.data)):
        raise Violation("views-disagree", "%s: get_all_points has other values than the data" % what)
    nm = o.get_non_masked_points()
    want = np.flatnonzero(~ma.getmaskarray(data).ravel())
    got = [p for p in nm]
    if len(got) != len(want):
        raise Violation("views-disagree", "%s: %d non-masked points, %d values" % (what, len(got), len(want)))
    for i, p in zip(want, got):
        if p.val[0] != ma.getdata(data).ravel()[i] and p.val[0] == p.val[0]:
            raise Violation("views-disagree", "%s: point %d has value %r, the data %r" % (what, i, p.val[0], data.ravel()[i]))
        for c in std:
            if c is None or c.data.dtype.kind == "O":          # points always give times as numbers
                continue
            x, y = getattr(p, c.standard_name), ma.getdata(c.data).ravel()[i]
            if x != y:
                raise Violation("views-disagree", "%s: point %d has %s %r, the coordinate %r" % (what, i, c.name(), x, y))


def run(p, env):
    import os
    import time
    import cis
    from sim import fixtures
    os.environ["TZ"] = p["tz"]
    time.tzset()
    fx = fixtures.make(env, p["fixture"])
    vs = list(fx["vars"])
    i = p["var"] % len(vs)
    names = [vs[i], vs[(i + 1) % len(vs)]] if p["two"] and len(vs) > 1 else [vs[i]]

    if len(names) > 1 and env.attempt(cis.read_data_list, list(fx["files"]), names, fx["product"])[:2] == ("exc", "ValueError"):
        names = names[:1]                 # variables with different coordinates do not go into one list

    def open_all():
        if len(names) > 1:
            os_ = list(cis.read_data_list(list(fx["files"]), names, fx["product"]))
            if len(os_) == len(names):
                return [o[0] if isinstance(o, list) else o for o in os_]
            return os_[:1]
        o = cis.read_data(list(fx["files"]), names[0], fx["product"])
        return [o[0]] if isinstance(o, list) else [o]

    live = env.must("reading", open_all)
    k = len(live)
    fresh = [env.must("reading", open_all) for _ in range(1)][0]
    # a twin of everything, loaded completely before anything is done to it
    def eager(prefix):
        os_ = env.must("reading", open_all)
        for o in os_:
            env.must("observing", obs.snap, o)
            outcome(env, lambda: list(map(str, [o])))
        h = []
        for m, on in prefix:
            env.attempt(mutate, os_[on % k], m, h)
        return os_

    def lazy(prefix):
        os_ = env.must("reading", open_all)
        for m, on in prefix:
            env.attempt(mutate, os_[on % k], m, [])
        return os_

    rng = core.rng_for(p["order"], "chunks")
    prefix, held, orders = [], [], []
    accesses = 0
    for n, s in enumerate(p["steps"]):
        on = s["on"] % k
        with sched.seeded(rng, orders):
            if "m" in s:
                r = env.attempt(mutate, live[on], s["m"], held)
                env.log(n, "mutate", s["m"][0], on, r[0], "" if r[0] == "ok" else r[1])
                twin = eager(prefix)
                q = env.attempt(mutate, twin[on], s["m"], held)
                if r[0] != q[0] or (r[0] == "exc" and r[1] != q[1]):
                    raise Violation("order-dependent", "step %d: %s %s here, and %s on a completely loaded object: %s" % (
                        n, s["m"], r[:3], q[:3], prefix))
                prefix.append((s["m"], on))
                if accesses:
                    env.nontrivial = True
                env.count("mutations")
                continue
            got = outcome(env, access, live[on], s["a"], held)
        accesses += 1
        env.nontrivial = env.nontrivial or accesses > 1
        env.count("accesses")
        env.log(n, "access", s["a"], on, obs.digest(got))
        want = outcome(env, access, eager(prefix)[on], s["a"], [])
        d = obs.diff(want, got, s["a"])
        if d:
            raise Violation("order-dependent", "step %d: %s of variable %d differs from that of a completely loaded object "
                            "(conversions so far: %s):\n%s" % (n, s["a"], on, prefix, d))
        want = outcome(env, access, lazy(prefix)[on], s["a"], [])
        d = obs.diff(want, got, s["a"])
        if d:
            raise Violation("order-dependent", "step %d: %s of variable %d differs from that of an object with nothing loaded "
                            "(conversions so far: %s):\n%s" % (n, s["a"], on, prefix, d))
    with sched.seeded(rng, orders):
        final = [outcome(env, obs.snap, o) for o in live]
    e, z = eager(prefix), lazy(prefix)
    for on in range(k):
        for who, o in (("a completely loaded object", e[on]), ("an object with nothing loaded", z[on])):
            d = obs.diff(outcome(env, obs.snap, o), final[on], "object")
            if d:
                raise Violation("order-dependent", "variable %d at the end differs from %s (conversions: %s):\n%s" % (on, who, prefix, d))
        env.must("checking", consistent, live[on], "after %s" % (prefix,))
    for c, snap in held:
        d = obs.diff(snap, obs.snap(c), "copy")
        if d:
            raise Violation("copy-changed", "a copy taken earlier changed with the original:\n%s" % d)
    if fx["truth"] and not fx["gridded"]:
        points_removed(env, fx, names, fresh)
    elif fx["truth"]:
        for o, v in zip(fresh, names):
            t = fixtures.truth(fx, v)
            d = obs.diff(obs.Arr(ma.masked_array(t).astype(ma.asanyarray(o.data).dtype)), obs.Arr(o.data), v)
            if d:
                raise Violation("wrong-values", "a fresh read does not deliver what the files hold:\n%s" % d)
    env.count("chunk_tasks", len(orders))
    env.log("end", [obs.digest(f) for f in final], "chunks", len(orders))
    env.sample = {"steps": [str(s) for s in p["steps"]][:5], "product": fx["product"]}


def points_removed(env, fx, names, objs):
    """Exactly the points without all of their coordinates are gone, from the values and from every coordinate."""
    from sim import fixtures
    keep = None
    for c in fx["coords"]:
        m = ~ma.getmaskarray(fixtures.truth(fx, c))
        keep = m if keep is None else keep & m
    for o, v in zip(objs, names):
        o.coords()
        want = fixtures.truth(fx, v)[keep]
        got = o.data
        d = obs.diff(obs.Arr(ma.masked_array(want).astype(got.dtype)), obs.Arr(got), v)
        if d:
            raise Violation("points-not-removed", "the values are not those of the points which have all of their coordinates:\n%s" % d)
        for c in fx["coords"]:
            want = ma.getdata(fixtures.truth(fx, c))[keep]
            d = obs.diff(obs.Arr(want), obs.Arr(ma.getdata(o.coord(standard_name=c).data)), c)
            if d:
                raise Violation("points-not-removed", "%s is not that of the points which have all of their coordinates:\n%s" % (c, d))
