"""D07: file, variable and product resolution is reproducible."""
import fnmatch
import os

import numpy.ma as ma

from sim import core, obs, ops, seam, zygote
from sim import gen as G
from sim.core import Violation

LEVEL = "exploration"
RUNS = {"quick": 300, "thorough": 5000}
HASHES = [11, 23, 37, 58, 71, 94]
RULE = ("one run = fabricated files of a seeded product spread over two directories under shuffled names, with hidden left-over files and "
        "other files among them; a seeded request (names spelled in several ways, wildcards, directories, duplicates, as a list or "
        "comma separated, relative or absolute), a variable wildcard, 0-4 plug-in files; the selection, variables, product, coordinates and values are observed "
        "in this process and in 2 interpreters with other hash seeds and other directory listing orders, and compared with one another and "
        "with a model of the selection; non-trivial when the request selects more than one file or variable, or plug-ins are present")
REAL = ["expand_filelist, the command line parser, DataReader, product and plug-in discovery, readers", "netCDF4/HDF5, pyhdf, iris", "string hashing of CPython"]
STUBS = ["directory listing order (libsim's readdir, below the scratch directory)"]
NOTE = "seeded listing orders and hash seeds; executions in different interpreters are compared, and the file selection with a model"
ASSUMPTIONS = ["six hash seeds; the same listing order is used throughout one execution", "symbolic links are not used",
               "wildcards select no directories"]
STEMS = ["b", "a", "c10", "c9", "Z", "m_1", "m-2", "zz", "q.x", "k1"]
WILDVARS = ["*", "?*", "*1", "[a-z]*", "*v*", "?"]


def start(base):
    return zygote.start(base, HASHES)


def gen(rng, tier, index):
    product = rng.weighted([("cis", 5), ("gridded", 4), ("modis_l2", 1), ("modis_l3", 1), ("aerosol_cci", 2), ("caliop_l2", 1), ("cloudsat", 1), ("gassp", 1)])
    fx = G.fixture(rng, product, nfiles=rng.int(1, 5), n=rng.int(4, 12))
    fx["vars"] = rng.int(1, 4)
    for k in ("cmiss", "packed", "geopotential"):
        fx.pop(k, None)
    if product == "gridded":
        fx["shape"] = [rng.int(1, 2), 3, 4]
        if rng.chance(.4):
            fx.update(nfiles=1, mixed=True, vars=rng.int(2, 4))
    if product == "gassp":
        fx["kind"] = rng.pick(["plane", "ship"])
    renamed = product in ("cis", "gridded", "gassp")
    stems = rng.some(STEMS, fx["nfiles"]) if renamed else None
    place = [rng.int(0, 1) for _ in range(fx["nfiles"])]
    request = []
    for _ in range(rng.int(1, 4)):
        k = rng.int(0, fx["nfiles"] - 1)
        request.append(rng.weighted([({"file": k, "spell": rng.pick(["plain", "plain", "dot", "up", "slashes", "abs"])}, 4),
                                     ({"dir": place[k], "spell": rng.pick(["plain", "slash", "dot", "abs"])}, 2),
                                     ({"wild": k, "form": rng.pick(["*", "?*", "head", "tail", "set", "dirs"]), "spell": rng.pick(["plain", "abs", "dot"])}, 3)]))
    plugins = []
    for _ in range(rng.weighted([(0, 4), (1, 1), (2, 2), (4, 2)])):
        plugins.append({"file": rng.pick(["pa", "pb", "pc", "zz", "Aa"]) + str(rng.int(0, 2)),
                        "classes": [{"name": rng.pick(["Mine", "Other", "AbstractOne", "cis", "NetCDF_Gridded", "Zed", "abstractTwo"]),
                                     "base": rng.pick(["AProduct", "AProduct", "cis", "NetCDF_Gridded"]), "priority": rng.pick([10, 10, 100, 200, 5]),
                                     "match": rng.chance(.6)} for _ in range(rng.int(1, 2))]})
    return {"fixture": fx, "stems": stems, "place": place, "request": request, "comma": rng.chance(.4), "wildvar": rng.pick(WILDVARS), "var": rng.int(0, 3),
            "detect": rng.chance(.5), "plugins": plugins, "hidden": rng.chance(.5), "runs": [[rng.pick(HASHES), rng.int(2, 10 ** 6)] for _ in range(2)],
            "order": rng.int(2, 10 ** 6)}


def shrink(p):
    for k, v in (("plugins", []), ("hidden", False), ("comma", False), ("detect", False)):
        if p[k] != v:
            yield dict(p, **{k: v})
    for i in range(len(p["plugins"])):
        yield dict(p, plugins=p["plugins"][:i] + p["plugins"][i + 1:])
    if len(p["request"]) > 1:
        for i in range(len(p["request"])):
            yield dict(p, request=p["request"][:i] + p["request"][i + 1:])


# ------------------------------------------------------------------------------------------------ the scene

PLUGIN = '''
from cis.data_io.products import AProduct
import cis.data_io.products as _p
from cis.data_io.Coord import Coord, CoordList
from cis.data_io.ungridded_data import UngriddedData, UngriddedCoordinates, Metadata
import numpy as np
'''
CLASS = '''

class %(name)s(%(base)s):
    priority = %(priority)d
    made_in = %(where)r

    def get_file_signature(self):
        return [%(sig)r]

    def get_file_type_error(self, filename):
        return None
'''
BODY = '''
    def get_variable_names(self, filenames, data_type=None):
        return set(["made_" + %(where)r, "other"])

    def create_coords(self, filenames, variable=None):
        n = len(filenames)
        cs = [Coord(np.arange(float(n)), Metadata(name=k, standard_name=k, units=u)) for k, u in
              (("latitude", "degrees_north"), ("longitude", "degrees_east"))]
        return UngriddedCoordinates(CoordList(cs))

    def create_data_object(self, filenames, variable):
        c = self.create_coords(filenames).coords()
        return UngriddedData(np.arange(float(len(filenames))), Metadata(name=variable, long_name=%(where)r, units="1"), c)
'''


def write_plugins(d, plugins):
    os.makedirs(d)
    texts = {}
    for p in plugins:
        t = texts.setdefault(p["file"], PLUGIN)
        for c in p["classes"]:
            base = c["base"] if c["base"] == "AProduct" else "_p." + c["base"]
            v = {"name": c["name"], "base": base, "priority": c["priority"], "where": p["file"] + "." + c["name"],
                 "sig": r".*\.(nc|hdf)" if c["match"] else r"nomatch"}
            texts[p["file"]] += CLASS % v + (BODY % v if base == "AProduct" else "")
    for f in texts:
        with open(os.path.join(d, f + ".py"), "w") as o:
            o.write(texts[f])


def spell(path, how, cwd):
    d, b = os.path.split(path)
    if how == "dot":
        return "./" + path
    if how == "up":
        return "%s/../%s/%s" % (d, os.path.basename(d), b)
    if how == "slashes":
        return d + "//" + b
    if how == "abs":
        return os.path.join(cwd, path)
    if how == "slash":
        return path + "/"
    return path


def build(p, env):
    from sim import fixtures
    fx = fixtures.make(env, p["fixture"], "raw")
    paths = []
    for k in (0, 1):
        os.makedirs(env.path("data", "d%d" % k))
    for i, f in enumerate(fx["files"]):
        name = os.path.basename(f) if not p["stems"] else p["stems"][i] + (os.path.basename(f)[1:] if p["fixture"]["product"] == "gassp" else ".nc")
        rel = "data/d%d/%s" % (p["place"][i], name)
        os.rename(f, env.path(rel))
        paths.append(rel)
    if p["hidden"]:
        for k in (0, 1):
            for n in (".123.out.nc", ".nfs0001", ".hidden.hdf"):
                with open(env.path("data", "d%d" % k, n), "w") as o:
                    o.write("left over")
    write_plugins(env.path("plug"), p["plugins"])
    request, expect = [], []
    for r in p["request"]:
        if "file" in r:
            s = spell(paths[r["file"]], r["spell"], env.dir)
            sel = [s]
        elif "dir" in r:
            s = spell("data/d%d" % r["dir"], r["spell"], env.dir)
            sel = [os.path.join(s, b) for b in sorted(os.path.basename(q) for q in paths if q.startswith("data/d%d/" % r["dir"]))]
        else:
            d, b = os.path.split(paths[r["wild"]])
            d = "data/d[01]" if r["form"] == "dirs" else d
            pat = {"*": "*", "?*": "?*", "dirs": "*", "head": b[0] + "*", "tail": "*" + b[1:], "set": "[%s]*" % b[0]}[r["form"]]
            s = spell(d + "/" + pat, r["spell"], env.dir)
            pre = s[:len(s) - len(d + "/" + pat)]
            sel = sorted(pre + q for q in paths if fnmatch.fnmatchcase(q, d + "/" + pat))
        request.append(s)
        expect += sel
    seen, files = set(), []
    for f in expect:
        k = os.path.normpath(os.path.join(env.dir, f))
        if k not in seen:
            seen.add(k)
            files.append(f)
    return {"paths": paths, "request": request, "files": files, "vars": fx["vars"], "product": fx["product"],
            "order": [paths.index(os.path.relpath(os.path.normpath(os.path.join(env.dir, f)), env.dir)) for f in files]}, fx


# ------------------------------------------------------------------------------------------------ what the user sees

def coords_of(c):
    return obs.snap(c) if hasattr(c, "var_name") and getattr(c, "is_gridded", False) else [obs.snap_coord(x) for x in c.coords()]


def observe(p, sc, order, d):
    """Everything the request resolves to, in an interpreter of its own."""
    import cis
    from cis.data_io.data_reader import DataReader, expand_filelist
    from cis.data_io.products.AProduct import get_product_full_name
    from cis.parse import parse_args
    from cis.plugin import find_plugin_classes
    from cis.data_io.products import AProduct
    seam.dir_order(order)
    os.environ["CIS_PLUGIN_HOME"] = os.path.join(d, "plug")
    env = core.Env(d)
    out = {}

    def see(name, fn):
        r = env.attempt(fn)
        out[name] = r[1] if r[0] == "ok" else ["exc", r[1]]
    req = ",".join(sc["request"]) if p["comma"] else list(sc["request"])
    see("files", lambda: expand_filelist(req))
    var = sc["vars"][p["var"] % len(sc["vars"])]
    prod = None if p["detect"] else sc["product"]
    see("parsed", lambda: parse_args(["info", "%s:%s" % (var, ",".join(sc["request"]))]).datagroups[0]["filenames"])
    see("product", lambda: get_product_full_name(out["files"], prod))
    see("classes", lambda: [c.__module__ + "." + c.__name__ for c in find_plugin_classes(AProduct, "cis.data_io.products")])
    see("data", lambda: obs.snap(cis.read_data(req, var, prod)))
    see("names", lambda: sorted(str(v) for v in cis.get_variables(req, prod)))
    see("coords", lambda: coords_of(DataReader().read_coordinates(list(out["files"]), prod)))

    def many():
        l = cis.read_data_list(req, p["wildvar"], prod)
        return [[x.var_name, obs.snap(x)] for x in l]
    see("list", many)
    for k in ("files", "parsed"):
        if isinstance(out[k], list):
            out[k] = [str(f).replace(d, "$D") for f in out[k]]
    return out


def run(p, env):
    sc, fx = build(p, env)
    runs = [[HASHES[0], p["order"]]] + p["runs"]
    seen = []
    for h, order in runs:
        r = zygote.call(h, "sim.props.d07", "observe", (p, sc, order, env.dir), env.dir)
        if r[0] != "ok":
            raise RuntimeError("observing with hash seed %d: %s\n%s" % (h, r[1], r[2]))
        seen.append(r[1])
        env.log(h, order, obs.digest(r[1]))
    env.nontrivial = len(sc["files"]) > 1 or len(sc["vars"]) > 1 or bool(p["plugins"])
    want = [f.replace(env.dir, "$D") for f in sc["files"]]
    for (h, order), got in zip(runs, seen):
        for k in ("files", "parsed"):
            g = got[k]
            if g == ["exc", "SystemExit"] and k == "parsed" and got["files"] == want and not want:
                continue
            if g != want:
                raise Violation("selection", "%s, with hash seed %d and listing order %d, selects\n%s\nnot\n%s\nfor the request %s" % (
                    "expand_filelist" if k == "files" else "the command line", h, order, g, want, [r.replace(env.dir, "$D") for r in sc["request"]]))
    for (h, order), got in zip(runs[1:], seen[1:]):
        for k in sorted(seen[0]):
            d = obs.diff(seen[0][k], got[k], k)
            if d:
                raise Violation("not-reproducible", "%s differs between hash seed %d, listing order %d and hash seed %d, listing order %d:\n%s" % (
                    k, runs[0][0], runs[0][1], h, order, d))
    env.count("data.%s" % (seen[0]["data"][1] if isinstance(seen[0]["data"], list) and seen[0]["data"][:1] == ["exc"] else "ok"))
    env.count("list.%s" % (seen[0]["list"][1] if isinstance(seen[0]["list"], list) and seen[0]["list"][:1] == ["exc"] else len(seen[0]["list"])))
    joined(p, sc, fx, seen[0], env)


def joined(p, sc, fx, got, env):
    """The data are those of the files, in the order of the selection."""
    if p["fixture"]["product"] != "cis" or p["plugins"]:
        return
    d = got["data"]
    if isinstance(d, list):
        raise Violation("unreadable", "the selected files cannot be read: %s" % d[1])
    var = sc["vars"][p["var"] % len(sc["vars"])]
    parts = [fx["truth"][var][k] for k in sc["order"]]
    want = ma.concatenate(parts)
    a, b = obs.Arr(want), d["data"] if "data" in d else None
    if b is None:
        raise RuntimeError("no data in %r" % sorted(d))
    if not a.close(b):
        raise Violation("order", "the values read are not those of the files %s in this order" % sc["files"])
    env.count("joined")
