"""D08: history is an append-only record stamped with UTC times, whatever the clock and the time zone do."""
import calendar
import json
import os
import re
import time

from sim import core, obs, ops, seam
from sim import cli as C
from sim import gen as G
from sim.core import Violation

LEVEL = "exploration"
RUNS = {"quick": 450, "thorough": 8000}
RULE = ("one run = seeded data sets (with earlier histories), a time zone, and either a pipeline of 2-7 steps (subset, aggregation, collapse, "
        "collocation, evaluation, arithmetic, slice, copy, notes, conversions, save and reload), some of them first failing on storage "
        "or memory, or one command line; the simulated wall clock jumps forwards and backwards (years, across midnight, the year's end "
        "and daylight saving changes) between the steps and ticks within them; after every step the history is compared with "
        "the earlier one plus one entry of the right time, operation and files; non-trivial when the clock jumped and an entry was added")
REAL = ["cis histories: add_history and every operation that calls it, saving and reading of histories, the command line"]
STUBS = ["wall clock (libsim)", "time zone (TZ)", "system calls below the scratch directory (libsim)", "allocator failures (libsim)"]
HISTORIES = ["", "", "text without a stamp", "2001-01-01T00:00:00Z one\n2001-01-02T00:00:00Z two\n  and more\n2000-01-01T00:00:00Z out of order",
             "\u00e9\u00df 2001", "2001-01-01T00:00:00Z trailing \n"]
NOTE = "seeded clocks, zones and pipelines against an append-only log kept by the harness"
STAMP = re.compile(r"^(\d{4}-\d\d-\d\dT\d\d:\d\d:\d\dZ) ")
ZONES = ["UTC", "UTC", "EST5EDT,M3.2.0,M11.1.0", "XXX-13", "YYY+11:30", "CET-1CEST,M3.5.0,M10.5.0/3"]
MOMENTS = [1222905600, 951782399, 1230767999, 1236492000, 1236495599, 1256434200, 978307200, 2147483646, 1, 4102444799, 1225155600]
CARRIES = ("subset", "collapse", "col_gg", "arith")
SAYS = {"subset": "Subsetted", "collapse": "Collapsed", "aggregate": "Aggregated", "evaluate": "Evaluated", "col_uu": "Collocated",
        "col_gu": "Collocated", "col_gg": "Collocated", "col_ug": "Collocated", "arith": "Performed"}
NAMES_FILES = ("collapse", "aggregate", "evaluate", "col_uu", "col_gu", "col_gg", "col_ug")


def NATIVE_DEATHS(p):
    return core.has_alloc(p)


def gen_clock(rng):
    return {"at": rng.pick(MOMENTS) + rng.int(-2, 2) if rng.chance(.7) else rng.int(1, 4102444800), "tick_ms": rng.pick([0, 0, 1, 40])}


def gen(rng, tier, index):
    if rng.chance(.2):
        cmd = C.gen_command(rng, only=rng.pick(["subset", "aggregate", "collapse", "col", "eval", "stats"]))
        if cmd["cmd"] == "stats":
            cmd["save"] = True
        return {"mode": "command", "command": cmd, "tz": rng.pick(ZONES), "clock": gen_clock(rng)}
    kinds = [rng.pick("ug"), rng.pick("ug")] if rng.chance(.6) else [rng.pick("ug")]
    inputs = [ops.gen_input(rng, k) for k in kinds]
    for i in inputs:
        if rng.chance(.4):
            i["fixture"]["history"] = rng.pick(HISTORIES)
    steps, cur = [], 0
    for _ in range(rng.int(2, 7)):
        steps.append({"clock": gen_clock(rng), "tz": rng.pick(ZONES) if rng.chance(.2) else None, "seed": rng.int(1, 10 ** 6),
                      "faults": [G.read_fault(rng)] if rng.chance(.25) else []})
    return {"mode": "pipeline", "inputs": inputs, "tz": rng.pick(ZONES), "steps": steps}


# ------------------------------------------------------------------------------------------------ histories

def entries(text):
    """[(stamp, text)], a first entry without a stamp has None."""
    out = []
    for line in (text or "").split("\n"):
        m = STAMP.match(line)
        if m:
            out.append([m.group(1), line[m.end():]])
        elif not out:
            out.append([None, line])
        else:
            out[-1][1] += "\n" + line
    return out if text else []


def history(x):
    if x.__class__.__name__ == "Cube" or x.is_gridded:
        return x.attributes.get("history", "")
    return x.metadata.history or ""


def histories(x):
    return [history(i) for i in (x if isinstance(x, list) else [x])]


def utc(stamp):
    return calendar.timegm(time.strptime(stamp, "%Y-%m-%dT%H:%M:%SZ"))


def check_entry(what, e, t0, t1, says=None, files=()):
    stamp, text = e
    if stamp is None:
        raise Violation("no-stamp", "%s: the new entry has no UTC time stamp: %r" % (what, text[:200]))
    if not (t0 - 1 <= utc(stamp) <= t1 + 1):
        raise Violation("wrong-time", "%s: the new entry is stamped %s, the operation ran from %s to %s UTC" % (
            what, stamp, time.strftime("%Y-%m-%dT%H:%M:%SZ", time.gmtime(t0)), time.strftime("%Y-%m-%dT%H:%M:%SZ", time.gmtime(t1))))
    if says and says not in text:
        raise Violation("not-named", "%s: the new entry does not name the operation: %r" % (what, text[:300]))
    for f in files:
        if os.path.basename(f) not in text:
            raise Violation("not-named", "%s: the new entry does not name the source file %s: %r" % (what, os.path.basename(f), text[:300]))


def check_append(what, before, after, new, t0, t1, says=None, files=(), carried=True):
    """`after` has to be `before` (or, unless carried, possibly nothing) plus `new` entries."""
    a = entries(after)
    if not carried and not (after or "").startswith(before or ""):
        before = ""
    if not carried and before and len(a) == new:
        before = ""
    if before and not after.startswith(before):
        raise Violation("rewritten", "%s: the earlier history\n%r\nis no longer the beginning of\n%r" % (what, before[:500], after[:500]))
    b = entries(before)
    if len(a) != len(b) + new:
        raise Violation("entries", "%s: %d entries were there and %d have been added instead of %d:\n%r" % (what, len(b), len(a) - len(b), new, after[:600]))
    for e in a[len(b):]:
        check_entry(what, e, t0, t1, says, files)
    if new and before and after[len(before):][:1] != "\n":
        raise Violation("rewritten", "%s: the new entry does not start a new line: %r" % (what, after[:500]))


def set_zone(tz):
    os.environ["TZ"] = tz
    time.tzset()


def set_clock(c):
    seam.clock(c["at"], c["tick_ms"] * 1000000)


def now():
    return time.time()


# ------------------------------------------------------------------------------------------------ pipelines

def files_of(x):
    out = []
    for i in (x if isinstance(x, list) else [x]):
        out += [f for f in getattr(i, "filenames", ()) or () if f not in out]
    return out


def choose(rng, p, x, others):
    """An operation that can follow on the current object."""
    g = x[0].is_gridded if isinstance(x, list) else x.is_gridded
    lst = isinstance(x, list)
    acts = [("subset", 5), ("note", 2), ("reload", 4)]
    if not lst:
        acts += [("slice", 1), ("copy", 1), ("lonrange", 1), ("evaluate", 1)] + ([] if g else [("arith", 2), ("aggregate", 1)]) + ([("collapse", 3)] if g else [])
    else:
        acts += [("collapse", 2)] if g else [("aggregate", 1)]
    acts += [("col", 3)] if others else []
    return rng.weighted(acts)


def pipeline(p, env):
    set_zone(p["tz"])
    set_clock({"at": 1222905600, "tick_ms": 0})
    ins = ops.Inputs(env, p["inputs"])
    data = ins.open_all()
    x = data[0]
    added = 0
    for n, s in enumerate(p["steps"]):
        rng = core.rng_for("d08", s["seed"])
        if s["tz"]:
            set_zone(s["tz"])
        set_clock(s["clock"])
        act = choose(rng, p, x, data[1:])
        r, what, added_now = step(p, env, ins, data, x, act, rng, s, n)
        env.log(n, act, what)
        added += added_now
        if r is None:
            break
        x = r
    env.nontrivial = added > 0
    env.sample = {"steps": env.events[-6:]}


def tryit(env, s, fn, inputs, what):
    """A failing attempt (perhaps), which must leave every history as it was, then the real one."""
    before = [histories(i) for i in inputs]
    if s["faults"]:
        with env.window(G.placed(s["faults"], G.measure(env, s["faults"], lambda x: fn()))) as w:
            r = env.attempt(fn)
        env.count("faulted.%s" % r[0])
        check_same(what + (" failed and" if r[0] == "exc" else ""), before, [histories(i) for i in inputs])
    t0 = now()
    r = env.attempt(fn)
    t1 = now()
    check_same(what, before, [histories(i) for i in inputs])
    return r, t0, t1


def check_same(what, before, after):
    for b, a in zip(before, after):
        if b != a:
            raise Violation("input-history", "%s changed the history of the data it was given from\n%r\nto\n%r" % (what, b, a))


def step(p, env, ins, data, x, act, rng, s, n):
    import cis
    lst = isinstance(x, list)
    g = x[0].is_gridded if lst else x.is_gridded
    h = histories(x)
    if act == "note":
        t0 = now()
        text = "note %d" % n
        x.add_history(text)
        t1 = now()
        for b, a in zip(h, histories(x)):
            check_append("add_history", b, a, 1, t0, t1, text)
        return x, "", len(h)
    if act == "lonrange":
        x.set_longitude_range(rng.pick([-180, 0]))
        check_same("set_longitude_range", h, histories(x))
        return x, "", 0
    if act in ("slice", "copy"):
        r = env.attempt(lambda: x[ops.mid(x.shape[0], [0.0, .8])] if act == "slice" else x.copy())
        if r[0] == "exc":
            return x, "refused", 0
        check_same(act, [h], [histories(r[1])])
        return (r[1] if hasattr(r[1], "save_data") else x), "", 0
    if act == "reload":
        path = env.path("s%d.nc" % n)
        names = [(i.var_name or i.name()).replace(" ", "_") for i in (x if lst else [x])]
        if len(set(names)) < len(names):
            return x, "names", 0
        r, t0, t1 = tryit(env, s, lambda: x.save_data(path), [x], "save")
        if r[0] == "exc":
            return x, "refused", 0
        y = env.must("reading back", cis.read_data_list, path, names, None if g else "cis")
        check_same("saving and reading again", [h], [histories(y)])
        env.count("reloaded")
        return (y if lst else y[0]), "", 0
    kw, srcs = {}, [x]
    coords = [c.name() for c in (x[0] if lst else x).coords()] if not g else [c.name() for c in (x[0] if lst else x).coords(dim_coords=True)]
    if act == "subset":
        lat = (x[0] if lst else x).coord(standard_name="latitude").points
        if not len(lat):
            return x, "empty", 0
        op, fn = "subset", lambda: x.subset(latitude=[float(lat.min()) - 1, float(lat.max()) + 1], longitude=[-180, 180] if rng_flag(s) else [0, 360])
    elif act == "arith":
        op, fn = "arith", lambda: {0: lambda: x + 2.0, 1: lambda: x * x, 2: lambda: 3.0 - x}[s["seed"] % 3]()
    elif act == "aggregate":
        op, fn = "aggregate", lambda: x.aggregate(how="mean" if s["seed"] % 2 else "moments", latitude=[-90, 90, 45])
    elif act == "collapse":
        if not coords:
            return x, "scalar", 0
        op, fn = "collapse", lambda: x.collapsed([coords[s["seed"] % len(coords)]], how="mean" if s["seed"] % 2 else "moments")
    elif act == "evaluate":
        from cis.evaluate import Calculator

        def fn():
            x.alias = "a"
            return Calculator().evaluate([x], "a * 2", output_var="calc", units="1")
        op = "evaluate"
    else:
        y = data[1]
        if lst:
            if isinstance(y, list):
                return x, "lists", 0
            src, smp = x, y
        else:
            src, smp = (y, x) if isinstance(y, list) or s["seed"] % 2 else (x, y)
        sg = (smp.is_gridded)
        dg = src[0].is_gridded if isinstance(src, list) else src.is_gridded
        op = "col_%s%s" % ("g" if dg else "u", "g" if sg else "u")
        if op == "col_ug":
            fn = lambda: src.collocated_onto(smp, how="bin", kernel="mean")
        elif op == "col_uu":
            fn = lambda: src.collocated_onto(smp, how="box", kernel="mean", h_sep="2000km")
        else:
            fn = lambda: src.collocated_onto(smp, how="nn")
        srcs = [src, smp]
        h = histories(src)
    r, t0, t1 = tryit(env, s, fn, srcs, op)
    if r[0] == "exc" or r[1] is None:
        env.count("refused.%s" % op)
        return x, "refused", 0
    y = r[1]
    files = files_of(srcs[0]) + (files_of(srcs[1]) if len(srcs) > 1 else [])
    out = histories(y)
    for k, a in enumerate(out):
        b = h[k * len(h) // len(out)] if len(out) % len(h) == 0 else h[0]
        check_append(op, b, a, 1, t0, t1, SAYS[op], files if op in NAMES_FILES else (), carried=op in CARRIES)
    env.count("op.%s" % op)
    if not (hasattr(y, "save_data") and len(y if isinstance(y, list) else [y])):
        return x, "", len(out)
    return (y[0] if isinstance(y, list) and len(y) == 1 else y), "", len(out)


def rng_flag(s):
    return s["seed"] % 3 == 0


# ------------------------------------------------------------------------------------------------ commands

def command(p, env):
    c = p["command"]
    ins = ops.Inputs(env, c["inputs"])
    home = C.prepare_home(env)
    out = env.path("out.txt" if False else "out.nc")
    src = {}
    data = ins.open_all()
    for d in data:
        for i in (d if isinstance(d, list) else [d]):
            src.setdefault(i.var_name, history(i))
    set_clock(p["clock"])
    t0 = p["clock"]["at"]
    r = C.run(env, C.argv(c, ins, out), home, environ={"TZ": p["tz"]}, before=time.tzset)
    t1 = now() + 3600 if p["clock"]["tick_ms"] else t0
    if r.get("status") != 0 or not os.path.exists(out):
        env.count("refused.%s" % c["cmd"])
        env.log(c["cmd"], "status", r.get("status"))
        return
    import netCDF4
    says = {"subset": "Subsetted", "aggregate": "Aggregated", "collapse": "Collapsed", "col": "Collocated", "eval": "Evaluated",
            "stats": "comparison"}[c["cmd"]]
    want = C.expected_vars(c, ins) or []
    with netCDF4.Dataset(out) as nc:
        glob = nc.getncattr("history") if "history" in nc.ncattrs() else None
        found = {v: (nc.variables[v].getncattr("history") if "history" in nc.variables[v].ncattrs() else glob) for v in nc.variables if v in want}
    for v in sorted(found):
        base = src.get(v, src.get(v.replace("_std_dev", "").replace("_num_points", ""), ""))
        if found[v] is None:
            raise Violation("no-history", "%s: %s has no history" % (c["cmd"], v))
        check_append("cis %s, %s" % (c["cmd"], v), base, found[v], 1, t0, t1, says, (), carried=False if c["cmd"] not in ("subset", "collapse") else True)
        env.nontrivial = True
    env.count("command.%s" % c["cmd"])
    env.log(c["cmd"], len(found))


def run(p, env):
    if p["mode"] == "command":
        command(p, env)
    else:
        pipeline(p, env)
