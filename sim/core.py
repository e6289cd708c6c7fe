"""The simulator's run loop: one seed -> one program + fault plan -> one forked, fully repeatable execution.

Every run happens in a forked child of a worker that has imported the real cis once; the child gets an empty
scratch directory at a fixed-length path, a pinned hash seed, clock, time zone, chunk scheduler and (through
libsim) storage and allocator, so the run is a function of its program alone.
"""
import hashlib
import importlib
import json
import logging
import os
import random
import resource
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VSIM_REPO", "/repo")
CPU_LIMIT = 60          # seconds of CPU per run: past it the run counts as not terminating
WALL_LIMIT = 240        # seconds without an answer (a deadlock)


class Violation(Exception):
    def __init__(self, cls, msg, key=None):
        super(Violation, self).__init__(msg)
        self.cls, self.msg, self.key = cls, msg, key


class Rng(random.Random):
    """The one source of choice.  Only methods whose algorithm is stable across Python versions are used."""

    def chance(self, p):
        return self.random() < p

    def pick(self, seq):
        return seq[int(self.random() * len(seq))]

    def weighted(self, pairs):
        t = sum(w for _, w in pairs)
        x = self.random() * t
        for v, w in pairs:
            x -= w
            if x < 0:
                return v
        return pairs[-1][0]

    def int(self, lo, hi):
        """lo <= n <= hi"""
        return lo + int(self.random() * (hi - lo + 1))

    def some(self, seq, k):
        s = list(seq)
        out = []
        while s and len(out) < k:
            out.append(s.pop(int(self.random() * len(s))))
        return out

    def shuffled(self, seq):
        return self.some(seq, len(seq))


def rng_for(*parts):
    h = hashlib.sha256("|".join(str(p) for p in parts).encode()).digest()
    return Rng(int.from_bytes(h[:8], "big"))


class Env(object):
    """What a run may use: scratch directory, event log, counters and the fault window."""

    def __init__(self, d, tier="quick"):
        self.dir = d
        self.tier = tier
        self.events = []
        self.stats = {}
        self.nontrivial = False
        self.sample = None

    def path(self, *p):
        return os.path.join(self.dir, *p)

    def log(self, *ev):
        self.events.append(" ".join(str(e) for e in ev).replace(self.dir, "$D"))

    def count(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n

    def digest(self):
        from sim import seam
        h = hashlib.sha256("\n".join(self.events).encode())
        h.update(str(seam.trace()).encode())
        return h.hexdigest()[:24]

    def window(self, faults=(), **kw):
        from sim import seam
        return seam.window(faults, **kw)

    def attempt(self, fn, *a, **k):
        """('ok', value) or ('exc', type name, text, exception); never hides interrupts of the harness itself."""
        try:
            return ("ok", fn(*a, **k))
        except Violation:
            raise
        except (Exception, KeyboardInterrupt) as e:
            return ("exc", type(e).__name__, str(e)[:300], e)
        except SystemExit as e:
            return ("exc", "SystemExit", str(e.code), e)

    def must(self, what, fn, *a, **k):
        """Fault-free call that has to work: an exception out of cis is a violation, not a harness error."""
        try:
            return fn(*a, **k)
        except Violation:
            raise
        except Exception as e:
            raise Violation("undisturbed-failure", "%s failed with no fault injected: %s: %s\n%s" % (
                what, type(e).__name__, str(e)[:300], tail_tb(e)))


def tail_tb(e, n=6):
    return "".join(traceback.format_tb(e.__traceback__)[-n:])


def in_cis(e):
    """Did the exception come out of the code under test?"""
    for f, _ in traceback.walk_tb(e.__traceback__):
        fn = f.f_code.co_filename
        if fn.startswith(os.path.join(REPO, "cis")):
            return True
    return False


def quiet():
    import warnings
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)


def pin_environment():
    """Every source of nondeterminism that is not libsim's: chunk scheduler, locale of dask threads, clocks."""
    import dask
    from sim import sched
    sched.install()
    dask.config.set(scheduler="synchronous")


def preload():
    """Import the code under test once, before forking."""
    sys.path.insert(0, REPO)
    import warnings
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    import matplotlib
    matplotlib.use("Agg")
    import numpy, netCDF4, iris, iris.fileformats.netcdf, pandas, dask.array, cf_units, pyhdf.SD, pyhdf.HDF, pyhdf.VS  # noqa
    import cis
    if not os.path.abspath(cis.__file__).startswith(os.path.abspath(REPO) + os.sep):
        raise SystemExit("cis imported from %s, not from %s" % (cis.__file__, REPO))
    import cis.cis_main, cis.parse, cis.plugin, cis.evaluate, cis.stats, cis.data_io.products  # noqa
    import cis.collocation.col_implementations, cis.collocation.data_index, cis.aggregation.ungridded_aggregator  # noqa
    import cis.aggregation.gridded_collapsor, cis.aggregation.collapse_kernels, cis.subsetting.subset  # noqa
    from sim import fixtures, seam  # noqa
    seam.hdf4()
    pin_environment()
    # one throw-away read and write so that lazily imported modules are in place before the fork
    d = tempfile.mkdtemp(prefix="vsim-warm-")
    try:
        env = Env(d)
        fx = fixtures.make(env, {"product": "cis", "nfiles": 1, "n": 5, "seed": 1, "vars": 1, "coords": "lltap"})
        data = cis.read_data(fx["files"], fx["vars"][0])
        data.subset(latitude=[-90, 90]) and None
        fx = fixtures.make(env, {"product": "gridded", "nfiles": 1, "shape": [2, 3, 4], "seed": 1, "vars": 1})
        data = cis.read_data(fx["files"], fx["vars"][0])
        data.save_data(os.path.join(d, "w.nc"))
    finally:
        shutil.rmtree(d)


# ---------------------------------------------------------------------------------------------- one run

def run_program(mod, program, d, tier):
    """In the child: returns the result dict."""
    from sim import seam
    seam.reset()
    seam.scope(d)
    seam.clock()
    seam.dir_order(1)
    import numpy as np
    np.random.seed(0)
    random.seed(0)
    env = Env(d, tier)
    res = {"violation": None, "error": None}
    try:
        mod.run(program, env)
    except Violation as v:
        res["violation"] = {"class": v.cls, "message": v.msg.replace(d, "$D"), "key": v.key}
    except MemoryError:
        res["error"] = traceback.format_exc()
    except BaseException as e:
        if in_cis(e) and not isinstance(e, (KeyboardInterrupt,)):
            res["violation"] = {"class": "unexpected-exception", "key": None,
                                "message": "%s: %s\n%s" % (type(e).__name__, str(e)[:300], tail_tb(e, 8))}
        else:
            res["error"] = traceback.format_exc()
    res["stats"] = env.stats
    res["fired"] = seam.fired()
    res["io"] = seam.totals()
    res["digest"] = env.digest()
    res["nontrivial"] = bool(env.nontrivial)
    res["nevents"] = len(env.events)
    res["events"] = env.events if os.environ.get("VSIM_EVENTS") else None
    res["sample"] = env.sample
    return res


def fork_run(mod, program, base, tier):
    """Execute one program in a forked child; returns its result dict (or a synthetic one)."""
    d = os.path.join(base, "r")
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.mkdir(d)
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.setsid()
            os.close(r)
            devnull = os.open(os.devnull, os.O_RDWR)
            os.dup2(devnull, 0)
            os.dup2(devnull, 1)
            if not os.environ.get("VSIM_STDERR"):
                os.dup2(devnull, 2)
            resource.setrlimit(resource.RLIMIT_CPU, (CPU_LIMIT, CPU_LIMIT + 5))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            os.chdir(d)
            res = run_program(mod, program, d, tier)
            blob = json.dumps(res, default=str).encode()
            off = 0
            while off < len(blob):
                off += os.write(w, blob[off:off + 65536])
        except BaseException:
            code = 3
            try:
                os.write(w, json.dumps({"violation": None, "error": traceback.format_exc()}).encode())
            except BaseException:
                pass
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    deadline = time.monotonic() + WALL_LIMIT
    stalled = False
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            stalled = True
            break
        rd, _, _ = select.select([r], [], [], left)
        if not rd:
            stalled = True
            break
        c = os.read(r, 1 << 16)
        if not c:
            break
        chunks.append(c)
    os.close(r)
    if stalled:
        os.kill(pid, signal.SIGKILL)
    _, status = os.waitpid(pid, 0)
    try:                                   # grandchildren of a killed run
        os.killpg(pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    shutil.rmtree(d, ignore_errors=True)
    if stalled:
        return {"violation": None, "error": None, "hang": "no answer within %d s" % WALL_LIMIT}
    if os.WIFSIGNALED(status):
        sig = os.WTERMSIG(status)
        if sig in (signal.SIGXCPU,):
            return {"violation": None, "error": None, "hang": "more than %d s of CPU" % CPU_LIMIT}
        return {"violation": None, "error": None, "died": signal.Signals(sig).name}
    try:
        return json.loads(b"".join(chunks).decode())
    except ValueError:
        return {"violation": None, "error": "child ended with status %r and no result" % (status,)}


def has_alloc(program):
    """Whether an allocation may fail in the run (any fault may be placed as a failing allocation)."""
    return '"action"' in json.dumps(program)


def classify(mod, program, base, tier, res):
    """Turn hangs and native deaths into an outcome, after seeing them twice."""
    if "hang" in res:
        again = fork_run(mod, program, base, tier)
        if "hang" in again:
            res = {"violation": {"class": "no-progress", "key": None, "message": "the run does not terminate: " + res["hang"]}}
        else:
            res = again
    if "died" in res:
        again = fork_run(mod, program, base, tier)
        if again.get("died") == res["died"]:
            # a native library killed the process; programs that provoke this deliberately run it in a grandchild
            if getattr(mod, "NATIVE_DEATHS", None) and mod.NATIVE_DEATHS(program):
                res = {"violation": None, "error": None, "stats": {"native_death": 1}, "digest": "died", "nontrivial": False}
            elif has_alloc(program):
                # cis is Python: only a library that does not check what it allocates dies of it (pyhdf's arrays, numpy's isnan
                # of a broadcast array)
                res = {"violation": None, "error": None, "stats": {"native_death": 1}, "digest": "died", "nontrivial": False}
            else:
                res = {"violation": {"class": "process-died", "key": None, "message": "the process was killed by " + res["died"]}}
        else:
            res = again
    return res


def execute(mod, program, base, tier):
    return classify(mod, program, base, tier, fork_run(mod, program, base, tier))


# ---------------------------------------------------------------------------------------------- grandchildren

def in_subprocess(fn):
    """Run fn() in a forked process (for simulated crashes).  Returns ('ok', json value) / ('exc', text) / ('died', status)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                out = ["ok", fn()]
            except BaseException as e:
                out = ["exc", "%s: %s" % (type(e).__name__, str(e)[:300])]
            blob = json.dumps(out, default=str).encode()
            off = 0
            while off < len(blob):
                off += os.write(w, blob[off:off + 65536])
        finally:
            os._exit(0)
    os.close(w)
    chunks = []
    while True:
        c = os.read(r, 1 << 16)
        if not c:
            break
        chunks.append(c)
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if not chunks:
        return ("died", os.WEXITSTATUS(status) if os.WIFEXITED(status) else -os.WTERMSIG(status))
    try:
        return tuple(json.loads(b"".join(chunks).decode()))
    except ValueError:
        return ("died", status)


def in_child(env, fn):
    """Run fn(env) in a forked process, as part of this run: its events, counters and violation become this run's.

    Returns ('ok', value) or ('died', status) when the process was killed (by a simulated crash or by a native library)."""
    env2 = Env(env.dir, env.tier)

    def body():
        out = {"violation": None, "error": None, "value": None}
        try:
            out["value"] = fn(env2)
        except Violation as v:
            out["violation"] = [v.cls, v.msg, v.key]
        except BaseException as e:
            if in_cis(e) and not isinstance(e, KeyboardInterrupt):
                out["violation"] = ["unexpected-exception", "%s: %s\n%s" % (type(e).__name__, str(e)[:300], tail_tb(e, 8)), None]
            else:
                out["error"] = traceback.format_exc()
        out.update(events=env2.events, stats=env2.stats, nontrivial=bool(env2.nontrivial), sample=env2.sample)
        return out
    r = in_subprocess(body)
    if r[0] == "died":
        return r
    if r[0] == "exc":
        raise RuntimeError(r[1])
    o = r[1]
    env.events += o["events"]
    for k, v in o["stats"].items():
        env.count(k, v)
    env.nontrivial = env.nontrivial or o["nontrivial"]
    env.sample = o["sample"] or env.sample
    if o["violation"]:
        raise Violation(*o["violation"])
    if o["error"]:
        raise RuntimeError(o["error"])
    return ("ok", o["value"])


# ---------------------------------------------------------------------------------------------- minimisation

def shrink_candidates(mod, program):
    if hasattr(mod, "shrink"):
        for c in mod.shrink(program):
            yield c
    for key in ("steps", "faults", "files", "sessions"):
        seq = program.get(key)
        if isinstance(seq, list) and len(seq) > 0:
            size = len(seq) // 2
            while size >= 1:
                for i in range(0, len(seq), size):
                    c = dict(program)
                    c[key] = seq[:i] + seq[i + size:]
                    yield c
                size //= 2
    # simpler arguments inside steps
    for key in ("steps",):
        seq = program.get(key)
        if isinstance(seq, list):
            for i, s in enumerate(seq):
                if isinstance(s, dict) and s.get("faults"):
                    c = json.loads(json.dumps(program))
                    c[key][i]["faults"] = []
                    yield c
    fx = program.get("fixture")
    if isinstance(fx, dict):
        for k in ("nfiles", "n", "vars"):
            if isinstance(fx.get(k), int) and fx[k] > 1:
                c = json.loads(json.dumps(program))
                c["fixture"][k] = max(1, fx[k] // 2)
                yield c


def minimise(mod, program, violation, base, tier, budget_s=60, max_runs=200):
    """Greedy delta-debugging, keeping the violation class."""
    t0 = time.monotonic()
    best, runs = program, 0
    progress = True
    while progress and runs < max_runs and time.monotonic() - t0 < budget_s:
        progress = False
        for cand in shrink_candidates(mod, best):
            if runs >= max_runs or time.monotonic() - t0 > budget_s:
                break
            runs += 1
            res = execute(mod, cand, base, tier)
            v = res.get("violation")
            if v and v["class"] == violation["class"] and v.get("key") == violation.get("key"):
                best, violation, progress = cand, v, True
                break
    return best, violation, runs


def load_prop(pid):
    return importlib.import_module("sim.props.%s" % pid.lower())
