"""D10: independent sessions in one process do not affect each other."""
import importlib
import json
import os
import pkgutil
import sys
import threading

import numpy as np

from sim import core, obs, ops, seam
from sim import gen as G
from sim.core import Violation

LEVEL = "exploration"
RUNS = {"quick": 240, "thorough": 6000}
RULE = ("one run = 2-3 sessions, each with its own seeded data sets (read from files some of which are shared between sessions, or created "
        "in memory) and 2-7 steps (operations, conversions, in-place changes of values, coordinates, attributes, names and file name "
        "records, notes, saves, copies, requests that are refused); a seeded scheduler interleaves their calls, or, in half the runs, "
        "the lines of cis inside their calls (cooperative threads, one running at a time); in the call-level half some steps are hit by "
        "storage or allocation faults; every step's result and every object at the end is compared with the session run alone in "
        "another process, and every change made to one object is checked not to show in the independent others; non-trivial when the "
        "scheduler switched sessions")
REAL = ["all of cis that the sessions use, with its module and class level state", "netCDF4/HDF5, iris, pandas"]
STUBS = ["thread scheduling: cooperative threads switched at seeded lines of cis (sys.settrace)", "system calls (libsim)", "allocator failures (libsim)"]
NOTE = "seeded interleavings of sessions; each session alone in another process is the reference"
OPS = ["subset", "slice", "copy", "frame", "points", "aggregate", "collapse", "arith", "evaluate", "save", "col_uu", "col_gu", "col_gg", "col_ug"]
CHANGES = ["lon", "units", "note", "attrs", "data", "cdata", "cunits", "misc", "files", "name", "listfiles"]


def NATIVE_DEATHS(p):
    return core.has_alloc(p)


# ------------------------------------------------------------------------------------------------ programs

def gen(rng, tier, index):
    lines = rng.chance(.5)
    pool = [gen_in(rng) for _ in range(rng.int(1, 3))]
    sessions = []
    for _ in range(rng.weighted([(2, 3), (3, 1)])):
        inputs = []
        for _ in range(rng.int(1, 2)):
            i = json.loads(json.dumps(rng.pick(pool) if rng.chance(.7) else gen_in(rng)))
            if rng.chance(.3):
                i["var"] = rng.int(0, i["fixture"]["vars"] - 1)
            inputs.append(i)
        steps = []
        for _ in range(rng.int(2, 7)):
            if rng.chance(.5):
                op = ops.gen_op(rng, inputs, target=rng.int(0, len(inputs) - 1), allow=OPS)
                if op.get("how") == "box" or op is None:
                    continue
                steps.append({"op": op, "faults": [G.read_fault(rng)] if (not lines and rng.chance(.3)) else [],
                              "fresh": rng.chance(.5)})
                if independent(op, inputs) and rng.chance(.75):     # then change the original or what came out of it
                    steps.append({"change": rng.pick(["data", "cdata", "note", "misc", "attrs", "units", "name", "lon"]),
                                  "on": rng.pick(["origin", "result"]), "from": op["on"], "arg": rng.int(1, 9)})
            elif rng.chance(.15):
                steps.append({"bad": rng.pick(["variable", "limits", "kernel", "grid", "expr", "file", "product"])})
            else:
                steps.append({"change": rng.pick(CHANGES), "on": rng.int(0, 5), "arg": rng.int(0, 9)})
        if rng.chance(.3):
            steps.insert(rng.int(0, len(steps)), {"bad": "expr"})
            single = [k for k, i in enumerate(inputs) if not i["list"]]
            if single:
                op = ops.gen_op(rng, inputs, target=rng.pick(single), allow=["evaluate"])
                steps.insert(rng.int(0, len(steps)), {"op": op, "faults": [], "fresh": False})
        sessions.append({"inputs": inputs, "steps": steps, "mem": rng.int(1, 10 ** 6) if rng.chance(.3) else None})
    return {"sessions": sessions, "lines": lines, "rate": rng.pick([.002, .01, .05]) if lines else 0, "seed": rng.int(1, 10 ** 9)}


def independent(op, inputs):
    """Whether what the operation returns is documented to be a copy (gridded subsets may be views of the cube's data)."""
    return op["op"] in ("copy", "slice", "aggregate") or (op["op"] == "subset" and not ops.is_g(inputs[op["on"]]))


def gen_in(rng):
    k = rng.pick("ug")
    i = ops.gen_input(rng, k, **({"n": rng.int(4, 16), "coords": rng.pick(["lLat", "lLt"])} if k == "u" else {}))
    # chunked: after a failed read of a contiguous variable the HDF5 library may answer the next one with zeros
    i["fixture"]["chunks"] = rng.int(2, 5) if k == "u" else True
    return i


def shrink(p):
    for i, s in enumerate(p["sessions"]):
        for j in range(len(s["steps"])):
            c = json.loads(json.dumps(p))
            del c["sessions"][i]["steps"][j]
            yield c
        if s["mem"]:
            c = json.loads(json.dumps(p))
            c["sessions"][i]["mem"] = None
            yield c
    if p["lines"]:
        c = dict(p, lines=False)
        yield c


# ------------------------------------------------------------------------------------------------ a session

def full(x):
    s = obs.snap(x)
    return dict(s, files=[os.path.basename(f) for f in x.filenames], name=x.var_name, alias=x.alias if x.var_name else None)


def mem(seed):
    from cis.data_io.Coord import Coord
    from cis.data_io.ungridded_data import Metadata, UngriddedData
    r = np.random.RandomState(seed)
    n = 3 + seed % 9
    cs = [Coord(np.round(r.uniform(lo, hi, n), 3), Metadata(name=k, standard_name=k, units=u), axis="")
          for k, lo, hi, u in (("latitude", -80, 80, "degrees_north"), ("longitude", -170, 170, "degrees_east"), ("altitude", 0, 9000, "m"))]
    return UngriddedData(np.ma.masked_less(np.round(r.uniform(0, 9, n), 2), 1), Metadata(name="made", long_name="made", units="kg m-3"), cs)


class Session(object):
    """The objects of a session and what it observed; `steps()` yields between the steps."""

    def __init__(self, k, s, ins, env, faulty=True):
        self.k, self.s, self.ins, self.env, self.faulty = k, s, ins, env, faulty
        self.objects, self.group, self.log, self.fired = [], [], [], 0

    def add(self, x, group=None):
        if len(self.objects) < 12:
            self.objects.append(x)
            self.group.append(len(self.objects) - 1 if group is None else group)

    def others(self, i):
        return {j: full(x) for j, x in enumerate(self.objects) if self.group[j] != self.group[i]}

    def steps(self):
        data = self.ins.open_all()
        self.lists = [d for d in data if isinstance(d, list)]
        self.first, self.last = [], 0
        for d in data:
            self.first.append(len(self.objects))
            if isinstance(d, list):
                g = None
                for x in d:
                    self.add(x)
            else:
                self.add(d)
        if self.s["mem"]:
            self.add(mem(self.s["mem"]))
            self.add(mem(self.s["mem"]))
        yield
        for n, st in enumerate(self.s["steps"]):
            try:
                self.one(n, st, data)
            except (Violation, MemoryError):
                raise
            yield
        self.log.append(["final", [full(x) for x in self.objects]])
        yield

    def one(self, n, st, data):
        env = self.env
        if "bad" in st:
            r = env.attempt(bad, st["bad"], self.ins, data)
            self.log.append(["bad", r[0], r[1] if r[0] == "exc" else None])
        elif "change" in st:
            if not self.objects:
                return
            on = {"origin": lambda: self.first[st["from"]], "result": lambda: self.last}.get(st["on"], lambda: st["on"])()
            i = on % len(self.objects)
            before = self.others(i)
            r = env.attempt(change, self.objects[i], st["change"], st["arg"], self)
            self.log.append(["change", r[0], r[1] if r[0] == "exc" else None])
            for j, b in before.items():
                d = obs.diff(b, full(self.objects[j]), "object %d" % j)
                if d and not (st["change"] == "listfiles"):
                    raise Violation("leak", "session %d, step %d: changing (%s) object %d also changed object %d, which is independent of it:\n%s" % (
                        self.k, n, st["change"], i, j, d))
        else:
            out = "s%d-%d.nc" % (self.k, n)
            fn = lambda: ops.apply(st["op"], data, env, out)
            if st["faults"] and self.faulty:
                if st.get("fresh"):
                    again = self.ins.open_all()
                    self.disturbed(st, lambda: ops.apply(st["op"], again, env, out))
                else:
                    self.disturbed(st, fn)
            r = env.attempt(fn)
            if r[0] == "exc":
                self.log.append(["op", st["op"]["op"], "exc", r[1]])
                return
            self.log.append(["op", st["op"]["op"], "ok", ops.result(r[1])])
            if independent(st["op"], self.ins.inputs):
                made, self.last = r[1] if isinstance(r[1], list) else [r[1]], len(self.objects)
                for x in [x for x in made if hasattr(x, "filenames")]:
                    # the elements of a list may share their coordinates
                    self.add(x, group=self.last)

    def disturbed(self, st, fn):
        """A failing attempt: positions come from the undisturbed calls of the reference."""
        counts = self.s.get("counts", {}).get(json.dumps(st["op"], sort_keys=True))
        if counts:
            with self.env.window(G.placed(st["faults"], counts)) as w:
                r = self.env.attempt(fn)
            self.env.count("disturbed.%s" % r[0])


def bad(kind, ins, data):
    import cis
    fx = ins.fx[0]
    x = data[0]
    if kind == "variable":
        return cis.read_data(list(fx["files"]), "no_such_variable", fx["product"])
    if kind == "file":
        return cis.read_data("/nonexistent/file.nc", "x")
    if kind == "product":
        return cis.read_data(list(fx["files"]), fx["vars"][0], "NoSuchProduct")
    if kind == "limits":
        return x.subset(no_such_coordinate=[1, 2])
    if kind == "kernel":
        return x.collapsed(["latitude"], how="no") if ops.is_g(ins.inputs[0]) else x.aggregate(how="no", latitude=[0, 1, 1])
    if kind == "grid":
        return x.aggregate(how="mean", no_such_coordinate=[1, 2, 1])
    from cis.evaluate import Calculator
    xs = x if isinstance(x, list) else [x]
    for i, y in enumerate(xs):
        y.alias = "own%d" % i
    # names that other sessions may use
    return Calculator().evaluate(xs, "own0 + len(%s)" % ["undefined", "a", "alias1", "alias2", "own1"][ins.inputs[0]["fixture"]["seed"] % 5],
                                 output_var="o", units="1")


def change(x, what, arg, session):
    if what == "lon":
        x.set_longitude_range([-180, 0, 30][arg % 3])
    elif what == "units":
        x.convert_units("mg m-3" if not x.is_gridded else "g m-2")
    elif what == "note":
        x.add_history("note %d" % arg)
    elif what == "attrs":
        x.add_attributes({"added": "a%d" % arg}) if hasattr(x, "add_attributes") else x.attributes.__setitem__("added", "a%d" % arg)
    elif what == "data":
        d = x.data
        d[...] = d * 2 + arg
        x.data = d
    elif what == "cdata":
        c = x.coord(standard_name="latitude")
        if x.is_gridded:
            c.points = c.points * .5
        else:
            c.data[...] = c.data * .5
    elif what == "cunits":
        c = x.coord(standard_name="latitude" if x.is_gridded else "longitude")
        c.convert_units("radians") if x.is_gridded else c.add_attributes({"changed": arg})
    elif what == "misc":
        if x.is_gridded:
            x.attributes["note"] = "changed %d" % arg
        else:
            x.metadata.misc["note"] = "changed %d" % arg
            x.metadata.long_name = "changed"
            x.coords()[0].metadata.long_name = "changed"
    elif what == "files":
        x.filenames.append("appended%d.nc" % arg)
    elif what == "listfiles":
        for l in session.lists[:1]:
            l.filenames = ["listed%d.nc" % arg]
    elif what == "name":
        if x.is_gridded:
            x.var_name = "renamed%d" % arg
        else:
            x.metadata._name = "renamed%d" % arg
        x.alias = "alias%d" % arg
    return None


def alone(k, s, ins, d, thresholds):
    """In another process: the session by itself; also the calls its operations make undisturbed."""
    env = core.Env(d)
    counts = {}
    for st in s["steps"]:
        if st.get("faults"):
            c = G.measure(env, st["faults"], lambda data: ops.apply(st["op"], data, env, "dry.nc"), ins.open_all)
            counts[json.dumps(st["op"], sort_keys=True)] = c
    ses = Session(k, s, ins, env, faulty=False)
    try:
        for _ in ses.steps():
            pass
    except Violation as v:
        return ["violation", v.cls, v.msg]
    return ["ok", ses.log, counts]


# ------------------------------------------------------------------------------------------------ the schedulers

def interleave_calls(p, sessions, env):
    rng = core.rng_for("d10", p["seed"])
    live = [(s, s.steps()) for s in sessions]
    last, switches = None, 0
    while live:
        i = rng.int(0, len(live) - 1)
        s, g = live[i]
        if last is not None and last is not s:
            switches += 1
        last = s
        try:
            next(g)
        except StopIteration:
            live.pop(i)
    return switches


class Lines(object):
    """Cooperative threads: one runs at a time, and hands over at seeded lines of cis."""

    def __init__(self, p, sessions, env):
        self.rng, self.rate, self.sessions = core.rng_for("d10", p["seed"]), p["rate"], sessions
        self.turn = [threading.Semaphore(0) for _ in sessions]
        self.live = list(range(len(sessions)))
        self.errors = [None] * len(sessions)
        self.done = threading.Semaphore(0)
        self.switches, self.points, self.current = 0, 0, None
        self.prefix = os.path.join(os.path.abspath(core.REPO), "cis") + os.sep
        self.env = env

    def run(self):
        ts = [threading.Thread(target=self.body, args=(k,), daemon=True) for k in self.live]
        for t in ts:
            t.start()
        self.hand_over(None)
        for _ in ts:
            self.done.acquire()
        for t in ts:
            t.join()
        for e in self.errors:
            if e is not None:
                raise e
        return self.switches

    def hand_over(self, me):
        """Called by the running thread: choose who is next; waits until it is this thread's turn again (unless it ended)."""
        if not self.live:
            return
        k = self.rng.pick(self.live)
        if k == me:
            return
        self.switches += 1 if me is not None else 0
        self.turn[k].release()
        if me is not None and me in self.live:
            self.turn[me].acquire()

    def body(self, k):
        self.turn[k].acquire()
        try:
            sys.settrace(self.tracer(k))
            try:
                for _ in self.sessions[k].steps():
                    pass
            finally:
                sys.settrace(None)
        except BaseException as e:
            self.errors[k] = e
        self.live.remove(k)
        self.done.release()
        if self.live:
            j = self.rng.pick(self.live)
            self.turn[j].release()

    def tracer(self, k):
        prefix = self.prefix

        def local(frame, event, arg):
            if event == "line":
                self.points += 1
                if self.rng.random() < self.rate:
                    self.hand_over(k)
            return local

        def glob(frame, event, arg):
            c = frame.f_code
            if c.co_filename.startswith(prefix) and c.co_name != "<module>":
                return local
            return None
        return glob


def import_everything():
    import cis
    for m in pkgutil.walk_packages(cis.__path__, "cis."):
        if not m.name.startswith("cis.test"):
            try:
                importlib.import_module(m.name)
            except Exception:
                pass


def run(p, env):
    import_everything()
    helper = ops.Helper()
    try:
        _run(p, env, helper)
    finally:
        helper.close()


def _run(p, env, helper):
    # sessions whose inputs are the same share the files
    made, sessions, want = {}, [], []
    for k, s in enumerate(p["sessions"]):
        fx = []
        for i in s["inputs"]:
            key = json.dumps(i["fixture"], sort_keys=True)
            if key not in made:
                made[key] = ops.Inputs(env, [i], "f%d_" % len(made)).fx[0]
            fx.append(made[key])
        ins = ops.Inputs(env, [])
        ins.inputs, ins.fx = s["inputs"], fx
        r = helper(alone, k, s, ins, env.dir, None)
        if r[0] != "ok":
            raise RuntimeError("session %d alone: %r" % (k, r))
        r = r[1]
        if r[0] == "violation":
            raise Violation(r[1], r[2])
        want.append(r[1])
        sessions.append(Session(k, dict(s, counts=r[2]), ins, env))
    if p["lines"]:
        l = Lines(p, sessions, env)
        switches = l.run()
        env.count("lines", l.points)
    else:
        switches = interleave_calls(p, sessions, env)
    env.count("switches", switches)
    env.nontrivial = switches > 0
    for k, s in enumerate(sessions):
        if len(s.log) != len(want[k]):
            raise Violation("not-independent", "session %d took %d steps, alone %d" % (k, len(s.log), len(want[k])))
        for n, (a, b) in enumerate(zip(want[k], s.log)):
            env.log(k, n, a[0], obs.digest(a))
            d = obs.diff(a, b, "session %d, step %d (%s)" % (k, n, " ".join(str(x) for x in a[:2] if isinstance(x, str))), close=True)
            if d:
                raise Violation("not-independent", "%s differs from the session run alone:\n%s" % ("line" if p["lines"] else "call", d))
