"""D04: an interrupted save never passes for a finished one."""
import hashlib
import json
import os

from sim import core, obs, ops, seam
from sim import gen as G
from sim.core import Violation
from sim.props import d03

LEVEL = "exploration"
RUNS = {"quick": 450, "thorough": 7000}
RULE = ("one run = a seeded data set (or list) saved in a forked process onto a path that is empty, holds junk, holds an earlier save of "
        "other data, is a link to such a file, or is the very file the data is lazily read from; the process is killed (also halfway through "
        "a write), interrupted, or its storage fails at a seeded call of the save, 1-3 times in a row, and after each the path is read in a "
        "fresh process; finally an undisturbed process saves; non-trivial when a fault fired")
REAL = d03.REAL
STUBS = d03.STUBS + ["process death (libsim: SIGKILL at the nth storage call, optionally after writing part of the buffer)"]
ASSUMPTIONS = ["process crash, not power loss: what was written stays written, in order", "one writer per path at a time"] + d03.ASSUMPTIONS[:1]
NOTE = "seeded crash points over every storage call of a save; after each crash a fresh process reads the path and may see only old, new or an error"


def crash_fault(rng):
    k = rng.weighted([("write", 8), ("close", 2), ("open_w", 1), ("open_r", 1), ("trunc", 2), ("rename", 2), ("read", 2), ("budget", 2),
                      ("unlink", 1), ("statvfs", .3)])
    if k == "budget":
        return {"budget_frac": round(rng.random() * .98, 4)}
    f = {"kind": k, "frac": round(rng.random(), 4), "repeat": 1, "arg": 0}
    f["action"] = rng.weighted([("crash", 6), ("torn", 3 if k == "write" else 0), ("errno", 4), ("sigint", 1.5)])
    if f["action"] == "errno":
        f["arg"] = "ENOSPC" if k == "write" else "EIO"
        f["repeat"] = rng.pick([1, 1, -1])
    elif f["action"] == "torn":
        f["arg"] = rng.int(0, 300)
    return f


def gen(rng, tier, index):
    if rng.chance(.4):
        p = {"mem": d03.gen_mem(rng)}
    else:
        kind = rng.pick("ug")
        over = {"nfiles": 1} if rng.chance(.5) else {}
        inputs = [ops.gen_input(rng, kind, **over)]
        op = None
        if rng.chance(.5):
            op = ops.gen_op(rng, inputs, allow=d03.TRANSFORMS)
        p = {"inputs": inputs, "op": op}
    p["prior"] = rng.weighted([("none", 2), ("junk", 1), ("old", 4), ("link", 1)] + ([("source", 6)] if "inputs" in p else []))
    if p["prior"] == "source":
        p["which"] = rng.int(0, 2)
    p["api"] = rng.pick(["save_data", "save_data", "write"])
    p["faults"] = [crash_fault(rng) for _ in range(rng.weighted([(1, 5), (2, 2), (3, 1)]))]
    return p


def shrink(p):
    if len(p["faults"]) > 1:
        for i in range(len(p["faults"])):
            yield dict(p, faults=p["faults"][:i] + p["faults"][i + 1:])
    if p.get("op"):
        yield dict(p, op=None)
    if p["prior"] == "link":
        yield dict(p, prior="old")


def save(p, x, path):
    if p["api"] == "write" and not isinstance(x, list) and not x.is_gridded:
        from cis.data_io.write_netcdf import write
        write(x, path)
    else:
        x.save_data(path)


def hashes(d, skip):
    out = {}
    for r, _, fs in os.walk(d):
        for f in fs:
            q = os.path.join(r, f)
            if os.path.realpath(q) != os.path.realpath(skip) and not f.startswith("."):
                with open(q, "rb") as h:
                    out[os.path.relpath(q, d)] = hashlib.sha256(h.read()).hexdigest()[:16]
    return out


def run(p, env):
    helper = ops.Helper()
    try:
        _run(p, env, helper)
    finally:
        helper.close()


def _run(p, env, helper):
    ins = None if "mem" in p else ops.Inputs(env, p["inputs"])
    ref = d03.build(p, ins, env)
    if ref is None:
        env.count("no_data_set")
        return
    new = d03.view(env.must("observing", obs.snap, ref))
    var, gridded, as_list = d03.names(ref), d03.plain(obs.snap(ref)), isinstance(ref, list)
    prior = p["prior"]
    os.mkdir(env.path("o"))
    out = env.path("o", "out.nc")
    old = read_old = None
    if prior == "source":
        fx = ins.fx[0]
        out = fx["files"][p["which"] % len(fx["files"])]
        # what the source holds: every variable, read with its own product
        read_old = (out, list(fx["vars"]), fx["product"], True)
        r = helper(ops.read_back, *read_old)
        old = r[1] if r[0] == "ok" else None
        if old is None:
            raise Violation("undisturbed-failure", "the source file cannot be read: %r" % (r[1:],))
    elif prior == "junk":
        with open(out, "wb") as f:
            f.write(b"this is no netCDF file" * 100)
    elif prior in ("old", "link"):
        other = d03.build_mem({"mem": True, "seed": 7, "n": 9, "dtype": "f8", "vars": 1, "two_d": False, "miss": 0, "missing_value": None, "cmiss": 0,
                               "coords": "lLt", "special": False, "cdtype": "f8", "units": "K", "standard_name": "", "dtype2": "f8", "text": "old"})
        other.var_name = var[0]
        target = env.path("o", "target.nc") if prior == "link" else out
        env.must("saving the earlier contents", other.save_data, target)
        if prior == "link":
            os.symlink("target.nc", out)
        read_old = (out, var[0], "cis", False)
        old = helper(ops.read_back, *read_old)[1]
    blob = {}
    for name in sorted(os.listdir(os.path.dirname(out))):
        with open(os.path.join(os.path.dirname(out), name), "rb") as f:
            blob[name] = f.read()

    def restore():
        d = os.path.dirname(out)
        for name in os.listdir(d):
            if name not in blob:
                os.remove(os.path.join(d, name))
        for name, b in blob.items():
            if not os.path.islink(os.path.join(d, name)):
                with open(os.path.join(d, name), "wb") as f:
                    f.write(b)

    # undisturbed pass in a process of its own
    def dry(env):
        x = d03.build(p, ins, env)
        with env.window([]) as w:
            save(p, x, out)
        return dict(w.counts, bytes=os.path.getsize(out))
    r = core.in_child(env, dry)
    if r[0] == "died":
        raise Violation("process-died", "an undisturbed save killed the process")
    counts = r[1]
    d03.check_file(env, helper, out, var, gridded, new, ref, "an undisturbed save%s" % (" onto its own source" if prior == "source" else ""), None)
    restore()
    everything = hashes(env.dir, out)
    fired = 0
    for i, f in enumerate(p["faults"]):
        before = sum(seam.fired().values())

        def doomed(env):
            x = d03.build(p, ins, env)
            if x is None:
                return ["gone"]
            with env.window(G.resolve([f], counts)):
                r = env.attempt(save, p, x, out)
            return list(r[:3]) if r[0] == "exc" else ["ok"]
        r = core.in_child(env, doomed)
        n = sum(seam.fired().values()) - before
        fired += n
        res = "died" if r[0] == "died" else r[1][0]
        env.log("attempt", i, f.get("kind", "budget"), f.get("action", ""), res, r[1][1] if res == "exc" else "", "fired", n)
        env.count("%s.%s" % (f.get("action", "budget") if n else "clean", res))
        what = "attempt %d (%s %s at call %s of %s)" % (i, f.get("action", "disk full"), f.get("kind", ""), f.get("frac", f.get("budget_frac")), res)
        if not n and res != "ok":
            raise Violation("undisturbed-failure", "%s: the save failed though nothing was disturbed: %r" % (what, r[1]))
        state = look(env, helper, p, out, var, gridded, as_list, new, old, read_old, what, res)
        env.log("state", state)
        env.count("state.%s" % state)
        if prior == "source" and state == "new" and p.get("op"):
            break                       # the source is now the result: the same operation would start from other data
        if prior == "source" and state == "new":
            old = None
            break
        e = hashes(env.dir, out)
        if e != everything:
            raise Violation("other-file-changed", "%s changed other files: %s" % (what, [k for k in set(e) | set(everything) if e.get(k) != everything.get(k)]))
    env.nontrivial = fired > 0

    # a process that meets no fault
    if prior == "source":
        restore()

    def again(env):
        save(p, d03.build(p, ins, env), out)
        return True
    r = core.in_child(env, again)
    if r[0] == "died":
        raise Violation("process-died", "after the interruptions an undisturbed save killed the process")
    d03.check_file(env, helper, out, var, gridded, new, ref, "after the interruptions an undisturbed save", None)
    if prior == "link" and not os.path.islink(out):
        raise Violation("link-replaced", "saving through a link replaced the link instead of the file it names")
    env.sample = {"events": env.events[-4:]}


def look(env, helper, p, out, var, gridded, as_list, new, old, read_old, what, res):
    """What a fresh process sees at the path: 'new', 'old', 'fails'; anything else is a violation."""
    r = helper(ops.read_back, out, var if as_list else var[0], None if gridded else "cis", as_list)
    if r[0] == "died":
        r = ("exc", "died", "")
    d = None
    if r[0] == "ok":
        d = obs.diff(new, d03.view(r[1]), "new")
        if d is None:
            return "new"
    if res == "ok":
        raise Violation("not-what-was-saved", "%s reported success, but the path reads as: %s" % (what, d or r[1:]))
    if old is not None:
        q = helper(ops.read_back, *read_old)
        if q[0] == "ok":
            e = obs.diff(old, q[1], "old")
            if e is None:
                return "old"
            raise Violation("mixed-contents", "%s: the path now reads as neither the new nor the earlier data:\n%s\n%s" % (what, d, e))
        if p["prior"] == "source":
            raise Violation("source-lost", "%s: the source file that was being saved onto can no longer be read: %s %s" % (what, q[1], q[2]))
    if r[0] == "ok":
        raise Violation("partial-contents", "%s: the path reads as something that was never saved:\n%s" % (what, d))
    return "fails"
