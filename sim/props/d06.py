"""D06: the exit status of a command tells whether its result is complete."""
import hashlib
import os
import re
import shutil

from sim import cli, obs, ops
from sim import gen as G
from sim.core import Violation

LEVEL = "exploration"
RUNS = {"quick": 420, "thorough": 7000}
RULE = ("one run = a seeded command line (subset, aggregate, collapse, col, eval, stats, info, plot; all built-in file formats) run twice from the same "
        "state, once undisturbed and once with a seeded disturbance: 1-2 storage or allocation faults at seeded calls (also on standard output), an input "
        "file that is truncated, overwritten or lacks the variable, a plug-in product that raises, or a log file that cannot be opened, written or kept "
        "open; status zero has to mean the same output file and the same listing as the undisturbed run; non-trivial when the disturbance took effect")
REAL = ["cis.cis_main.main", "cis.parse", "cis readers and products", "operations, writers and plotting", "netCDF4/HDF5", "pyhdf/HDF4", "iris"]
STUBS = ["terminal (scripted standard input)", "system calls on files below the scratch directory, standard output included (libsim)",
         "allocator failures (libsim)", "clock (libsim, standing still)"]
ASSUMPTIONS = ["a fault is an error result, a short count, an interrupted call or a NULL allocation; stores that report success for what they did not do are "
               "not modelled", "HDF5 and HDF4 may crash the process after a failed call; the shell reports that itself"]
NOTE = "differential: seeded disturbances of real commands against an undisturbed run of the same command"

HOMES = ["missing", "file", "logdir", "full"]
RAISES = ["ValueError('broken')", "ValueError()", "KeyError()", "KeyError('x')", "MemoryError()", "OSError(5, 'bad disk')", "RuntimeError('')", "RuntimeError(None)",
          "AttributeError()", "StopIteration()", "NotImplementedError()", "AssertionError()", "EOFError()", "Exception(' ')"]
METHODS = ["create_data_object", "create_coords", "get_variable_names", "get_file_signature", "get_file_type_error", "import", "syntax"]


def gen(rng, tier, index):
    c = cli.gen_command(rng, products=True)
    if c["cmd"] == "plot" and rng.chance(.5):
        c = cli.gen_command(rng, "info", products=True)
    p = {"command": c, "scenario": rng.weighted([("faults", 7), ("input", 2), ("plugin", 2), ("log", 3)])}
    if p["scenario"] == "faults":
        p["faults"] = [fault(rng, c) for _ in range(rng.weighted([(1, 4), (2, 1)]))]
        p["stdout"] = c["cmd"] in ("info", "stats") and rng.chance(.5)
    elif p["scenario"] == "input":
        p["damage"] = rng.pick(["truncate", "truncate", "junk", "empty", "novar", "gone"])
        p["which"], p["frac"] = [rng.int(0, 3), rng.int(0, 3)], round(rng.random(), 3)
    elif p["scenario"] == "plugin":
        p["raises"], p["method"] = rng.pick(RAISES), rng.pick(METHODS)
    else:
        p["home"] = rng.pick(HOMES + ["vanish", "vanish", "scoped", "scoped"])
        c["quiet"] = rng.pick(["", "-q", "-v", "-vv"])
        if p["home"] == "scoped":
            p["faults"] = [{"kind": "write", "frac": round(rng.random(), 4), "repeat": rng.pick([1, -1]), "action": "errno", "arg": rng.pick(["ENOSPC", "EIO"])}]
            p["faults"] = [{"kind": "open_w", "frac": 0.0, "repeat": 1, "action": "errno", "arg": rng.pick(["EACCES", "EROFS", "ENOSPC", "EMFILE"])}] \
                if rng.chance(.5) else []
    return p


def fault(rng, c):
    k = rng.weighted([("write", 5), ("read", 5), ("open_r", 3), ("open_w", 1), ("rename", 1), ("close", 1), ("trunc", 1), ("alloc", 4), ("budget", 1)])
    hdf4 = any(i["fixture"]["product"] in G.HDF4 for i in c["inputs"])
    if k == "budget":
        return {"budget_frac": round(rng.random() * .95, 4)}
    f = {"kind": k, "frac": round(rng.random(), 4), "repeat": rng.weighted([(1, 5), (2, 1), (-1, 3)]), "action": "errno", "arg": "EIO"}
    if k == "alloc":
        f["arg"], f["threshold"] = "ENOMEM", rng.pick([1200, 4000])
    elif k == "write":
        f["arg"] = rng.pick(["ENOSPC", "EIO", "EDQUOT"])
        if rng.chance(.15):
            f.update(action="short", arg=rng.int(1, 300))
    elif k == "read":
        if hdf4:
            f.update(action="short", arg=rng.int(1, 3000))
        elif rng.chance(.2):
            f.update(action=rng.pick(["short", "eintr"]), arg=rng.int(1, 3000), repeat=1)
    elif k == "open_r":
        f["arg"] = rng.pick(G.OPEN_ERRNOS)
    elif k in ("open_w", "rename"):
        f["arg"] = rng.pick(["EACCES", "ENOSPC", "EIO"])
    return f


def NATIVE_DEATHS(program):
    return program["scenario"] == "faults"


def shrink(p):
    if p["command"]["quiet"] and p["scenario"] != "log":
        yield dict(p, command=dict(p["command"], quiet=""))


LOGLINE = re.compile(r"^(\d{4}-\d\d-\d\d \d\d:\d\d:\d\d,\d+ - (WARNING|ERROR|INFO|DEBUG|CRITICAL) - |WARNING: )")


def listing(text):
    lines = [re.sub(r"^The file: .*Overwrite\? \(y/\[n\]\)", "", l) for l in text.split("\n")]
    return [l for l in lines if l and not LOGLINE.match(l)]


def subsequence(a, b):
    it = iter(b)
    return all(any(x == y for y in it) for x in a)


def contents(path):
    if not os.path.exists(path):
        return None
    if path.endswith(".nc"):
        return ops.raw_file(path)
    with open(path, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()


PLUGIN = '''
from cis.data_io.products.AProduct import AProduct
from cis.data_io.products import *
import cis.data_io.products as P
%(pre)s
class Raiser(AProduct):
    priority = 1000
    inner = %(inner)s
    def get_file_signature(self):
        return ['.*']
    def create_data_object(self, filenames, variable):
        return self.inner().create_data_object(filenames, variable)
    def create_coords(self, filenames, variable=None):
        return self.inner().create_coords(filenames)
    def get_variable_names(self, filenames, data_type=None):
        return self.inner().get_variable_names(filenames, data_type)
    def get_file_type_error(self, filename):
        return None
    def %(method)s(self, *args, **kwargs):
        raise %(raises)s
'''


def write_plugin(p, env, product):
    d = env.path("plugins")
    os.mkdir(d)
    m = p["method"]
    text = PLUGIN % {"pre": "raise %s" % p["raises"] if m == "import" else "def (" if m == "syntax" else "",
                     "inner": "next(c for c in _all(AProduct) if c.__name__ == %r)" % product,
                     "method": "unused" if m in ("import", "syntax") else m, "raises": p["raises"]}
    text = text.replace("class Raiser", "def _all(c):\n    return [x for s in c.__subclasses__() for x in [s] + _all(s)]\n\n\nclass Raiser", 1)
    with open(os.path.join(d, "raiser.py"), "w") as f:
        f.write(text)
    return d


def damage(p, env, ins):
    k = p["which"][0] % len(ins.fx)
    fx = ins.fx[k]
    f = fx["files"][p["which"][1] % len(fx["files"])]
    with open(f, "rb") as h:
        blob = h.read()
    kind = p["damage"]
    if fx["product"] == "ASCII_Hyperpoints" and kind in ("truncate", "junk"):
        kind = "empty"                    # any text is a valid, shorter, file
    if kind == "novar" and p["command"]["cmd"] == "info" and not p["command"]["detail"]:
        return None                       # then there is less to list
    if kind == "truncate":
        blob = blob[:int(len(blob) * p["frac"])]
    elif kind == "junk":
        n = int(len(blob) * p["frac"])
        blob = b"\x07junk" * (len(blob) // 5) if n < 8 else b"\x00" * 8 + blob[8:]
    elif kind == "empty":
        blob = b""
    elif kind == "gone":
        os.remove(f)
        return None
    if kind == "novar":
        if not f.endswith(".nc") or fx["product"] not in ("cis", "NetCDF_Gridded"):
            return None
        import netCDF4
        with netCDF4.Dataset(f, "a") as nc:
            v = cli.variables(p["command"]["inputs"][k], fx)[0]
            nc.renameVariable(v, "renamed")
        return None
    with open(f, "wb") as h:
        h.write(blob)


def run(p, env):
    ins = ops.Inputs(env, p["command"]["inputs"])
    c = p["command"]
    os.mkdir(env.path("o"))
    out = env.path("o", "out.png" if c["cmd"] == "plot" else "out.nc")
    writes = cli.writes_output(c)
    args = cli.argv(c, ins, out=out)
    cmdline = "cis " + " ".join(args).replace(env.dir, "$D")
    thr = (G.alloc_thresholds(p.get("faults") or []) or [4000])[0]
    scoped = bool(p.get("stdout"))
    home = cli.prepare_home(env, "scoped" if p.get("home") == "scoped" else "plain")
    r0 = cli.run(env, args, home, thresholds=thr, cwd=env.dir, scoped_stdout=scoped)
    if r0["status"] is None:
        raise Violation("process-died", "%s killed the process (%s) with nothing disturbed" % (cmdline, r0["died"]))
    if r0["status"] != 0 and not r0["err"].strip():
        raise Violation("silent-failure", "%s failed (status %s) without any message" % (cmdline, r0["status"]))
    ref, list0 = (contents(out) if writes else None), listing(r0["out"])
    counts = dict(r0["counts"])
    counts["alloc%d" % thr] = counts.get("alloc", 0)
    counts["bytes"] = os.path.getsize(out) if writes and os.path.exists(out) else len(r0["out"])
    env.count("cmd.%s" % c["cmd"])
    if r0["status"] == 0 and writes:
        want = cli.expected_vars(c, ins)
        if want is not None:
            have = set(ref["vars"]) if ref else set()
            if not set(want) <= have:
                raise Violation("incomplete", "%s reported success, but its output lacks %s (it has %s)" % (cmdline, sorted(set(want) - have), sorted(have)))
        elif ref is None:
            raise Violation("incomplete", "%s reported success, but there is no output file" % cmdline)
    if writes and os.path.exists(out):
        os.remove(out)
    # the disturbed execution
    kw = {"stdin": [], "environ": {}, "faults": []}
    what = p["scenario"]
    if what == "faults":
        kw["faults"] = G.resolve(p["faults"], counts)
        what = "%s" % [{k: f[k] for k in sorted(f) if k != "threshold"} for f in kw["faults"]]
    elif what == "input":
        damage(p, env, ins)
        what = "an input file damaged (%s)" % p["damage"]
    elif what == "plugin":
        kw["environ"]["CIS_PLUGIN_HOME"] = write_plugin(p, env, ins.fx[0]["product"])
        args = cli.argv(dict(c, product=False), ins, out=out)
        what = "a plug-in product raising %s in %s" % (p["raises"], p["method"])
    else:
        what = "the log %s" % p["home"]
        if p["home"] == "vanish":
            home = cli.prepare_home(env, "plain")
            if writes:
                with open(out, "w") as f:
                    f.write("earlier")
                kw["stdin"] = ["VANISH:y"]
            else:
                os.rmdir(home)
        elif p["home"] == "scoped":
            shutil.rmtree(env.path("home"))
            os.mkdir(env.path("home"))
            kw["faults"] = G.resolve(p["faults"], counts) if p["faults"] else [{"kind": "write", "nth": 0, "repeat": 3, "action": "errno", "arg": "ENOSPC"}]
        else:
            home = cli.prepare_home(env, p["home"])
    r = cli.run(env, args, home, cwd=env.dir, scoped_stdout=scoped, **kw)
    env.log("command", c["cmd"], p["scenario"], "status", r0["status"], r["status"], "fired", r["fired"])
    env.nontrivial = bool(r["fired"]) or p["scenario"] != "faults"
    if r["status"] is None:
        env.count("native_death" if r["fired"] else "died")
        if not r["fired"] and p["scenario"] != "input":
            raise Violation("process-died", "%s was killed (%s) under %s" % (cmdline, r["died"], what))
        return
    env.count("%s.%s" % (p["scenario"] if r["fired"] or p["scenario"] != "faults" else "clean", "ok" if r["status"] == 0 else "failed"))
    if r["status"] != 0:
        if not re.search(r"\w", r["err"]):
            raise Violation("silent-failure", "%s failed (status %s) under %s without a message on the error stream" % (cmdline, r["status"], what))
        if r0["status"] == 0:
            if p["scenario"] == "log":
                # did the fault only touch the log?
                if p["home"] != "scoped" or log_only(kw["faults"]):
                    raise Violation("log-stopped-command", "%s failed (status %s) under %s:\n%s" % (cmdline, r["status"], what, r["err"][-600:]))
            elif not r["fired"] and p["scenario"] == "faults":
                raise Violation("undisturbed-failure", "%s failed (status %s) though nothing was disturbed: %s" % (cmdline, r["status"], r["err"][-300:]))
        return
    if r0["status"] != 0:
        raise Violation("false-success", "%s reported success under %s, though without it the command fails (%s)" % (cmdline, what, r0["err"][-200:]))
    if p["scenario"] == "input" and p["damage"] in ("gone", "empty", "novar"):
        pass                                  # compared below: the result must still be complete
    if writes:
        got = obs_try(contents, out)
        d = "there is no readable output file" if got is None else obs.diff(ref, got, "output")
        if d:
            raise Violation("false-success", "%s reported success under %s, but the output differs from an undisturbed run's: %s" % (cmdline, what, d))
    got = listing(r["out"])
    if c["cmd"] in ("info", "stats") and (p["scenario"] != "log" or c["quiet"] in ("", "-q")) and not subsequence(list0, got):
        raise Violation("false-success", "%s reported success under %s, but did not print %s" % (cmdline, what, [l for l in list0 if l not in got][:5]))
    env.sample = {"events": [cmdline] + env.events[-2:]}


def log_only(faults):
    """The log is opened and written before anything else is."""
    return all((f["kind"] == "open_w" and f["nth"] == 0 and f["repeat"] == 1) or (f["kind"] == "write" and f["nth"] == 0 and f["repeat"] == 3) for f in faults)


def obs_try(fn, *a):
    try:
        return fn(*a)
    except Exception:
        return None
