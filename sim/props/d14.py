"""D14: a fault never makes data be read as something else."""
import contextlib
import io
import json
import os
import sys

from sim import core, obs
from sim import gen as G
from sim.core import Violation

LEVEL = "exploration"
RUNS = {"quick": 500, "thorough": 12000}
RULE = ("one run = one fabricated data set (11 products, 1-3 files) and a seeded history of 2-6 questions in one process (product, file format, "
        "variables, variables of a kind, coordinates, data, lists by wildcard, attributes, contents listings, the info command), with the product "
        "named or detected, each under a state of the plug-in directory (unset, missing, not a directory, unlistable, empty, holding "
        "seeded plug-ins that recognise none of the files) that may change between questions, each hit by 0-2 open, read or "
        "directory faults, then asked again undisturbed; every answer is that of an undisturbed process without plug-ins; non-trivial "
        "when a fault fired or plug-ins were present")
REAL = ["product and plug-in discovery, readers, listings, the info command", "netCDF4/HDF5, pyhdf/HDF4, iris"]
STUBS = ["system calls on files and directories below the scratch directory (libsim)"]
NOTE = "seeded faults and plug-in directory states; answers are compared with those of an undisturbed process, errors are allowed only while a fault fires"
ASSUMPTIONS = ["a fault is an error result, a short count or an interrupted call at the libc boundary; libdf hides failing reads of attributes from its "
               "callers, so for HDF4 products the faults are failing opens and short reads",
               "a plug-in directory that cannot be listed is reported in the log only; files that only a plug-in recognises are not part of it",
               "plug-ins are importable: a plug-in with errors of its own fails loudly"]
QUERIES = [("product", 4), ("format", 3), ("variables", 4), ("kind", 2), ("coords", 4), ("read", 4), ("wild", 3), ("attrs", 1), ("contents", 3), ("info", 2)]
STATES = [("unset", 3), ("missing", 1), ("file", 1), ("empty", 1), ("plugins", 6)]


def gen(rng, tier, index):
    fx = G.fixture(rng, n=rng.int(4, 40))
    if fx["product"] in ("gridded", "cis", "gassp", "aerosol_cci", "cloud_cci"):       # HDF5 itself loses contiguous values after a failed read
        fx["chunks"] = 2
    if fx["product"] == "gridded" and rng.chance(.2):
        fx.update(nfiles=1, mixed=True, vars=rng.int(2, 4))
        fx.pop("geopotential", None)
    steps = []
    state = None
    same_names = rng.chance(.3)              # plug-ins named like built-in products; products are then detected only
    for _ in range(rng.int(2, 6)):
        if state is None or rng.chance(.4):
            state = {"state": rng.weighted(STATES)}
            if state["state"] == "plugins":
                state["files"] = plugins(rng, same_names)
        q = {"q": rng.weighted(QUERIES), "named": not same_names and rng.chance(.4), "var": rng.int(0, 3), "pat": rng.pick(["*", "?*", "*1", "[a-z]*", "*e*"]), "kind": rng.pick(["SD", "VD"])}
        faults = []
        for _ in range(rng.weighted([(0, 1), (1, 5), (2, 1)])):
            if state["state"] != "unset" and rng.chance(.25):
                faults.append({"kind": "opendir", "nth": rng.pick([0, 0, 1]), "repeat": rng.pick([1, -1]), "action": "errno", "arg": rng.pick(["EACCES", "EIO", "EMFILE", "ENOENT"])})
            else:
                faults.append(G.read_fault(rng, alloc=False, product=fx["product"]))
        steps.append({"plug": state, "query": q, "faults": faults})
    return {"fixture": fx, "steps": steps}


def plugins(rng, same_names):
    files = {}
    for _ in range(rng.int(1, 3)):
        cl = []
        for _ in range(rng.int(1, 3)):
            cl.append({"name": rng.pick(["Mine", "Other", "AbstractOne", "AbstractTwo", "abstract_three", "Zed"] + (["cis", "NetCDF_Gridded", "MODIS_L2"] if same_names else [])),
                       "base": rng.weighted([("AProduct", 4), ("cis", 1), ("NetCDF_Gridded", 1), ("MODIS_L2", 1)]), "priority": rng.pick([5, 10, 100, 200, 1000]),
                       "sig": rng.pick([r".*\.mine", r"nothing", r"nothing", None])})
        files[rng.pick(["pa", "pb", "pc", "zz", "Aa", "netcdf", "products"]) + rng.pick(["", "_1", "_x"])] = cl
    if rng.chance(.2):
        files["notes.txt"] = []
    return files


def shrink(p):
    for j, s in enumerate(p["steps"]):
        c = json.loads(json.dumps(p))
        if s["faults"]:
            c["steps"][j]["faults"] = []
            yield c
        if s["plug"]["state"] != "unset":
            c = json.loads(json.dumps(p))
            c["steps"][j]["plug"] = {"state": "unset"}
            yield c
            for f in s["plug"].get("files", {}):
                c = json.loads(json.dumps(p))
                del c["steps"][j]["plug"]["files"][f]
                yield c
    for k, v in (("vars", 1), ("nfiles", 1)):
        if p["fixture"].get(k, 1) > v:
            yield dict(p, fixture=dict(p["fixture"], **{k: v}))


HEAD = '''
from cis.data_io.products.AProduct import AProduct
import cis.data_io.products as _p
'''
CLASS = '''

class %(name)s(%(base)s):
    priority = %(priority)d

    def get_file_signature(self):
        return %(sigs)s
'''
ERRORS = '''
    def get_file_type_error(self, filename):
        return ["not one of ours"]
'''
REST = '''
    def get_variable_names(self, filenames, data_type=None):
        return set(["nothing"])

    def create_coords(self, filenames, variable=None):
        raise RuntimeError("the plug-in was asked to read")

    def create_data_object(self, filenames, variable):
        raise RuntimeError("the plug-in was asked to read")
'''


class Plug(object):
    """The plug-in directory and its history."""

    def __init__(self, env):
        self.env, self.now = env, None
        self.dir = env.path("plug")

    def enter(self, st):
        if st == self.now:
            return
        self.now = st
        if os.path.isdir(self.dir) and not os.path.islink(self.dir):
            for b, ds, fs in os.walk(self.dir, topdown=False):
                for f in fs:
                    os.remove(os.path.join(b, f))
                for d in ds:
                    os.rmdir(os.path.join(b, d))
            os.rmdir(self.dir)
        elif os.path.exists(self.dir):
            os.remove(self.dir)
        os.environ.pop("CIS_PLUGIN_HOME", None)
        if st["state"] == "unset":
            return
        os.environ["CIS_PLUGIN_HOME"] = self.dir
        if st["state"] == "file":
            open(self.dir, "w").close()
        elif st["state"] in ("empty", "plugins"):
            os.makedirs(self.dir)
            for f, classes in st.get("files", {}).items():
                with open(os.path.join(self.dir, f if "." in f else f + ".py"), "w") as o:
                    o.write(HEAD if classes else "notes\n")
                    for c in classes:
                        abstract = c["name"].lower().startswith("abstract")
                        base = c["base"] if c["base"] == "AProduct" else "_p." + c["base"]
                        o.write(CLASS % {"name": c["name"], "base": base, "priority": c["priority"], "sigs": repr([c["sig"] or r".*"])})
                        if c["sig"] is None:
                            o.write(ERRORS)
                        if base == "AProduct" and not abstract:
                            o.write(REST)


def asker(q, fx):
    """Ask inside; look at the answer outside: returns a function and one that makes its result comparable."""
    import cis
    from cis.data_io.data_reader import DataReader
    P = sys.modules["cis.data_io.products.AProduct"]
    files = list(fx["files"])
    prod = fx["product"] if q["named"] else None
    var = fx["vars"][q["var"] % len(fx["vars"])]
    kind = q["q"]
    same = lambda x: x       # noqa
    if kind == "product":
        return lambda: P.get_product_full_name(files, prod), str
    if kind == "format":
        return lambda: P.get_file_format(files, prod), same
    if kind == "variables":
        return lambda: cis.get_variables(files, prod), names
    if kind == "kind":
        return lambda: P.get_variables(files, prod, q["kind"]), names
    if kind == "coords":
        return lambda: DataReader().read_coordinates(files, prod), lambda c: obs.snap(c) if getattr(c, "is_gridded", False) else [obs.snap_coord(x) for x in c.coords()]
    if kind == "read":
        return lambda: cis.read_data(files, var, prod), obs.snap
    if kind == "wild":
        return lambda: cis.read_data_list(files, q["pat"], prod), lambda l: [[x.var_name, obs.snap(x)] for x in l]
    hdf = files[0].endswith(".hdf")
    if kind == "attrs":
        if hdf:
            from cis.data_io.hdf import get_hdf4_file_metadata as f
        else:
            from cis.data_io.netcdf import get_netcdf_file_attributes as f
        return lambda: f(files[0]), lambda a: {str(k): obs.attr(v) for k, v in a.items()}
    if kind == "contents":
        if hdf:
            from cis.data_io.hdf import get_hdf4_file_variables as f
            t = None if q["named"] else q["kind"]
            return lambda: f(files[0], t), lambda r: [None if x is None else names(x) for x in r]
        from cis.data_io.netcdf import get_netcdf_file_variables as f
        return lambda: f(files[0], q["named"]), names
    if kind == "info":
        from cis.cis_main import info_cmd
        from cis.parse import parse_args
        words = ["info", ("%s:%s" % (var, ",".join(files)) if q["var"] % 2 else ",".join(files)) + (":product=" + prod if prod and q["var"] % 2 else "")]

        def go():
            s = io.StringIO()
            with contextlib.redirect_stdout(s):
                info_cmd(parse_args(words))
            return s.getvalue()
        return go, lambda t: sorted(obs.text(t).splitlines())
    raise RuntimeError(kind)


def names(v):
    return sorted(str(x) for x in v)


def plain(x):
    """As JSON carries it."""
    if isinstance(x, obs.Arr):
        return ["array", x.brief(), x.digest()]
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return x if isinstance(x, (str, int, bool, type(None))) else repr(x)


def answer(env, q, fx, faults=()):
    """(what was answered or the kind of error, window)"""
    go, look = asker(q, fx)
    with env.window(faults) as w:
        r = env.attempt(go)
    if r[0] == "ok":
        r = env.attempt(lambda: plain(obs.canon(look(r[1]))))
    return (["ok", r[1]] if r[0] == "ok" else ["exc", r[1], r[2][:200]]), w


def unlistable(faults):
    """The plug-in directory cannot be listed at all, and nothing else is disturbed."""
    return bool(faults) and all(f["kind"] == "opendir" for f in faults) and any(f["nth"] == 0 and f["repeat"] < 0 for f in faults)


def run(p, env):
    from sim import fixtures
    fx = fixtures.make(env, p["fixture"])
    plug = Plug(env)
    hdf4 = p["fixture"]["product"] in G.HDF4

    def reference():
        out = []
        for s in p["steps"]:
            a, w = answer(env, s["query"], fx)
            out.append([a, {k: v for k, v in w.counts.items()}])
        return out
    os.environ.pop("CIS_PLUGIN_HOME", None)
    r = core.in_subprocess(reference)
    if r[0] != "ok":
        raise RuntimeError("reference: %s" % (r[1],))
    for i, (s, (want, counts)) in enumerate(zip(p["steps"], r[1])):
        q = s["query"]
        plug.enter(s["plug"])
        faults = [f for f in G.resolve(s["faults"], counts) if not (hdf4 and f["kind"] == "read" and f["action"] != "short")]
        present = s["plug"]["state"] not in ("unset", "missing")
        where = "question %d (%s%s, plug-in directory: %s)" % (i, q["q"], ", product named" if q["named"] else "", s["plug"]["state"])
        a, w = answer(env, q, fx, faults)
        hit = w.fired > 0
        env.log(i, q["q"], q["named"], s["plug"]["state"], a[:2] if a[0] == "exc" else obs.digest(a[1]), w.fired)
        env.count("%s.%s%s" % (q["q"], a[0], ".faulted" if hit else ""))
        env.nontrivial = env.nontrivial or hit or present
        if a[0] == "ok":
            if want[0] != "ok":
                raise Violation("other-answer", "%s with %d fault(s) in effect is answered, undisturbed it fails with %s" % (where, w.fired, want[1]))
            d = obs.diff(want[1], a[1], q["q"])
            if d:
                raise Violation("other-answer", "%s with %d fault(s) in effect has another answer than an undisturbed process without plug-ins:\n%s" % (where, w.fired, d))
        elif a[:2] != want[:2] and (not hit or unlistable(faults)):
            raise Violation("other-answer", "%s fails with %s: %s; an undisturbed process without plug-ins %s" % (
                where, a[1], a[2], "answers" if want[0] == "ok" else "fails with " + want[1]))
        if hit:
            b, w = answer(env, q, fx)
            d = obs.diff(want[:2], b[:2], q["q"])
            env.log(i, "again", obs.digest(b[:2]))
            if d:
                raise Violation("lasting", "%s, asked again after the disturbance, differs from an undisturbed process without plug-ins:\n%s%s" % (
                    where, d, "" if b[0] == "ok" else "\n" + b[2]))
    env.sample = {"events": env.events[-4:]}
