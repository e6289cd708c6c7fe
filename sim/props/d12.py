"""D12: repeated and failing reads and writes do not exhaust file handles."""
import gc
import json
import os
import sys

from sim import core, obs, ops, seam
from sim import gen as G
from sim.core import Violation

LEVEL = "exploration"
RUNS = {"quick": 280, "thorough": 9000}
RULE = ("one run = 1-3 fabricated data sets of seeded products and a seeded history of 4-14 steps in one process: reads, lists of "
        "variables and coordinates, attribute listings, info, accesses to what was read, operations, saves and drops of results, each repeated "
        "1-4 times and some hit by 1-2 open, read, allocation or write faults; after every step the descriptors open on the files "
        "are counted against what the data sets still held account for; non-trivial when a step failed or was repeated")
REAL = ["cis readers, products, listings, lazy loading, writers, info", "netCDF4/HDF5, pyhdf/HDF4, iris"]
STUBS = ["system calls on files below the scratch directory (libsim), which also counts the descriptors", "allocator failures (libsim)",
         "dask scheduler: synchronous"]
ASSUMPTIONS = ["descriptors are counted after a garbage collection: cycles of dropped objects do not count as leaks",
               "the NetCDF library itself keeps a file open when it fails in the middle of opening or closing it: such descriptors, counted "
               "around those library calls, are not charged to cis; libdf leaks on failing reads, which HDF4 products are spared: their "
               "faults are failing opens and short reads"]
NOTE = "seeded histories of reads, listings and saves with faults; open descriptors are counted by the simulated system-call layer"
LISTS = ["variables", "variables_p", "coords", "attrs", "info", "detect", "bad", "readlist", "wild"]


def NATIVE_DEATHS(p):
    return core.has_alloc(p) or any(f["kind"] == "write" for s in p["steps"] for f in s["faults"])     # HDF5 does not survive some


def gen(rng, tier, index):
    files = [G.fixture(rng, n=rng.int(4, 60)) for _ in range(rng.int(1, 3))]
    for f in files:
        if f["product"] == "gridded":
            f["chunks"] = True
    steps = []
    for _ in range(rng.int(4, 14)):
        k = rng.int(0, len(files) - 1)
        p = files[k]["product"]
        s = {"do": rng.weighted([("read", 4), ("list", 4), ("access", 4), ("op", 2), ("save", 2), ("drop", 2)]), "file": k, "slot": rng.int(0, 1),
             "var": rng.int(0, 3), "times": rng.weighted([(1, 4), (2, 2), (4, 1)]), "faults": []}
        if len(steps) < 2 and rng.chance(.7):
            s.update(do="read", slot=len(steps), times=1)
            steps.append(s)
            continue
        if s["do"] == "list":
            s["what"] = rng.pick(LISTS)
        if rng.chance(.5) and s["do"] != "drop":
            f = G.read_fault(rng, product=p, alloc=p not in G.HDF4 and rng.chance(.3))
            if s["do"] == "save" and rng.chance(.6):
                f = {"kind": rng.pick(["open_w", "open_w", "rename", "rename", "write", "unlink"]), "frac": round(rng.random(), 4), "repeat": 1, "action": "errno",
                     "arg": rng.pick(["EIO", "ENOSPC", "EMFILE"])}
            s["faults"] = [f]
        steps.append(s)
    return {"files": files, "steps": steps}


def shrink(p):
    for j, s in enumerate(p["steps"]):
        for k, v in (("times", 1), ("faults", [])):
            if s[k] != v:
                c = json.loads(json.dumps(p))
                c["steps"][j][k] = v
                yield c
    for k in range(len(p["files"])):
        if p["files"][k].get("nfiles", 1) > 1:
            c = json.loads(json.dumps(p))
            c["files"][k]["nfiles"] = 1
            yield c


class Native(object):
    """Counts the descriptors which the NetCDF library leaves behind when opening or closing a file fails inside it."""

    def __init__(self):
        import netCDF4
        self.left, real, me = 0, netCDF4.Dataset, self

        class Dataset(real):
            __slots__ = ()                       # its __dict__ is that of the file's attributes

            def __init__(self, *a, **k):
                before = seam.open_fds()
                try:
                    real.__init__(self, *a, **k)
                except BaseException:
                    me.left += max(0, seam.open_fds() - before)
                    raise

            def close(self):
                before = seam.open_fds()
                try:
                    return real.close(self)
                except BaseException:
                    me.left += max(0, seam.open_fds() - before + 1)
                    raise
        netCDF4.Dataset = Dataset
        from iris.fileformats.netcdf import _thread_safe_nc
        _thread_safe_nc.DatasetWrapper.CONTAINED_CLASS = Dataset
        for n, m in list(sys.modules.items()):
            if n.startswith("cis.") and getattr(m, "Dataset", None) is real:
                m.Dataset = Dataset


class Slot(object):
    def __init__(self, data, k, fds):
        self.data, self.k, self.fds = data, k, fds


def listing(cis, what, fx, var):
    from cis.data_io.data_reader import DataReader
    if what == "variables":
        return [str(v) for v in cis.get_variables(list(fx["files"]))]
    if what == "variables_p":
        return [str(v) for v in cis.get_variables(list(fx["files"]), fx["product"])]
    if what == "coords":
        DataReader().read_coordinates(list(fx["files"]), fx["product"])
    elif what == "attrs":
        for f in fx["files"]:
            if f.endswith(".nc"):
                from cis.data_io.netcdf import get_netcdf_file_attributes
                get_netcdf_file_attributes(f)
            elif f.endswith(".hdf"):
                from cis.data_io.hdf import get_hdf4_file_metadata
                get_hdf4_file_metadata(f)
    elif what == "info":
        from cis.parse import parse_args
        from cis.cis_main import info_cmd
        a = parse_args(["info", "%s:%s" % (var, ",".join(fx["files"]))])
        info_cmd(a)
    elif what == "detect":
        from cis.data_io.products.AProduct import AProduct
        from cis.plugin import find_plugin_classes
        for c in sorted(find_plugin_classes(AProduct, "cis.data_io.products"), key=lambda c: c.__name__):
            c().get_file_type_error(fx["files"][0])
    elif what == "bad":
        cis.read_data(list(fx["files"]), "no_such_variable", fx["product"])
    elif what == "readlist":
        cis.read_data_list(list(fx["files"]), list(fx["vars"]), fx["product"])
    elif what == "wild":
        cis.read_data_list(list(fx["files"]), "?*", fx["product"])


def run(p, env):
    import cis
    from sim import fixtures
    fx = [fixtures.make(env, s, "in%d" % k) for k, s in enumerate(p["files"])]
    gc.collect()
    if seam.open_fds():
        raise RuntimeError("descriptors open before the first step")
    native = Native()
    slots = {}
    outs = 0

    def held():
        """The most the data sets in use account for: one descriptor for each NetCDF file of each."""
        return sum(s.fds for s in slots.values()) + native.left

    def action(s, n):
        f = fx[s["file"]]
        var = f["vars"][s["var"] % len(f["vars"])]
        do = s["do"]
        if do == "read":
            return lambda: cis.read_data(list(f["files"]), var, f["product"])
        if do == "list":
            return lambda: listing(cis, s["what"], f, var) and None
        sl = slots.get(s["slot"])
        if sl is None:
            return None
        d = sl.data
        x = d[0] if isinstance(d, list) else d
        if do == "access":
            t = obs.access_table(x)
            name = sorted(t)[s["var"] * 7 % len(t)]
            return lambda: obs.canon(t[name](x)) and None
        if do == "op":
            if x.is_gridded:
                return lambda: ops.result([x.subset(latitude=[-60, 60]), x.collapsed(["longitude"], how="mean")][s["var"] % 2]) and None
            return lambda: ops.result([x.subset(latitude=[-60, 60]), x.aggregate(how="mean", latitude=[-90, 90, 45])][s["var"] % 2]) and None
        if do == "save":
            return lambda: d.save_data(env.path("out%d.nc" % n))
        raise RuntimeError(do)

    for i, s in enumerate(p["steps"]):
        if s["do"] == "drop":
            slots.pop(s["slot"], None)
            check(env, i, s, held(), "dropping a data set")
            continue
        counts = None
        for t in range(s["times"]):
            outs += 1
            fn = action(s, outs)
            if fn is None:
                break
            faults = []
            if s["faults"]:
                if counts is None:
                    counts = dry(env, s, fn, slots, fx)
                on = s["file"] if s["do"] in ("read", "list") else slots[s["slot"]].k
                faults = [f for f in G.resolve(s["faults"], counts)
                          if not (p["files"][on]["product"] in G.HDF4 and f["kind"] == "read" and f["action"] != "short")]
            with env.window(faults) as w:
                r = env.attempt(fn)
            outcome, val = r[0], (r[1] if r[0] == "ok" else None)
            env.log(i, t, s["do"], s.get("what", ""), outcome, "" if outcome == "ok" else r[1], w.fired)
            env.count("%s.%s%s" % (s["do"], outcome, ".faulted" if w.fired else ""))
            env.nontrivial = env.nontrivial or w.fired > 0 or t > 0
            r = fn = None
            if s["do"] == "read" and outcome == "ok":
                slots.pop(s["slot"], None)
                nvar = len(val) if isinstance(val, list) else 1
                closed = p["files"][s["file"]]["product"] in G.HDF4 + ("ascii",)        # formats opened and closed for each access
                slots[s["slot"]] = Slot(val, s["file"], 0 if closed else len(fx[s["file"]]["files"]) * nvar)
            val = None
            check(env, i, s, held(), "%s %s%s" % (s["do"], s.get("what", ""), "" if outcome == "ok" else " that failed"))
    slots.clear()
    check(env, len(p["steps"]), {"do": "end"}, held(), "everything was dropped")
    env.count("native", native.left)
    env.sample = {"events": env.events[-4:]}


def dry(env, s, fn, slots, fx):
    """The calls the undisturbed step makes, counted in another process."""
    def body():
        with env.window([], alloc_threshold=s["faults"][0].get("threshold", 4000)) as w:
            env.attempt(fn)
        return dict(w.counts)
    r = core.in_subprocess(body)
    if r[0] != "ok":
        return {}
    c = dict(r[1])
    c["alloc%d" % s["faults"][0].get("threshold", 4000)] = c.get("alloc", 0)
    return c


def check(env, i, s, bound, what):
    gc.collect()
    n = seam.open_fds()
    env.log("fds", i, n)
    if n > bound:
        files = sorted({os.path.relpath(t, env.dir) for t in links() if t.startswith(env.dir)})
        raise Violation("leak", "after step %d (%s) %d descriptors are open on data files, the data sets in use account for at most %d:\n%s" % (
            i, what, n, bound, "\n".join(files)))


def links():
    for f in os.listdir("/proc/self/fd"):
        try:
            yield os.readlink("/proc/self/fd/" + f)
        except OSError:
            pass
