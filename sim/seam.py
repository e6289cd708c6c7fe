"""Python face of libsim (shim.c): arm a fault plan around a piece of the program, read what fired."""
import contextlib
import ctypes
import errno

KINDS = ["open_r", "open_w", "read", "write", "close", "trunc", "rename", "unlink", "fsync", "statvfs", "alloc", "opendir"]
ACTIONS = ["none", "errno", "short", "eintr", "crash", "torn", "budget", "sigint"]
K = {k: i for i, k in enumerate(KINDS)}
A = {a: i for i, a in enumerate(ACTIONS)}

_lib = ctypes.CDLL(None)
try:
    for _n in ("sim_count", "sim_total", "sim_fired"):
        getattr(_lib, _n).restype = ctypes.c_long
    _lib.sim_trace.restype = ctypes.c_ulonglong
    _lib.sim_plan.argtypes = [ctypes.c_int, ctypes.c_long, ctypes.c_int, ctypes.c_long, ctypes.c_long]
    _lib.sim_budget.argtypes = [ctypes.c_long]
    _lib.sim_alloc_threshold.argtypes = [ctypes.c_long]
    _lib.sim_clock.argtypes = [ctypes.c_long, ctypes.c_long]
    _lib.sim_dir_seed.argtypes = [ctypes.c_ulong]
    _lib.sim_scope.argtypes = [ctypes.c_char_p]
    PRESENT = True
except AttributeError:          # not preloaded: only the master process
    PRESENT = False


def scope(path):
    _lib.sim_scope(path.encode())
    _lib.sim_alloc_find()


def reset():
    _lib.sim_reset()


T0 = 1222905600          # 2008-10-02T00:00:00Z, when every run starts


def clock(seconds=T0, step_ns=0):
    """Set the simulated wall clock; it advances by step_ns each time it is read."""
    _lib.sim_clock(int(seconds * 1000000000), int(step_ns))


def dir_order(seed):
    """Directory listings below the scope come in an order drawn from this seed (0: the file system's)."""
    _lib.sim_dir_seed(int(seed))


def open_fds():
    return int(_lib.sim_open_fds())


def trace():
    return int(_lib.sim_trace())


def totals():
    return {k: int(_lib.sim_total(i)) for i, k in enumerate(KINDS)}


def fired():
    out = {}
    for i, k in enumerate(KINDS):
        for j, a in enumerate(ACTIONS):
            n = int(_lib.sim_fired(i, j))
            if n:
                out["%s.%s" % (k, a)] = n
    if _Hdf4.fired:
        out["hdf4.errno"] = _Hdf4.fired
    return out


class _Hdf4(object):
    """Reads of HDF4 data and directories as the library reports them.  (At the system call level libdf cannot be failed faithfully: it reads
    attributes and data through one buffer, and hides a failed read of an attribute from its callers.)"""
    count, plan, armed, fired = 0, [], False, 0

    @classmethod
    def call(cls, what):
        if not cls.armed:
            return
        n, cls.count = cls.count, cls.count + 1
        if any(n >= f["nth"] and (f.get("repeat", 1) < 0 or n < f["nth"] + f.get("repeat", 1)) for f in cls.plan):
            cls.fired += 1
            from pyhdf.error import HDF4Error
            raise HDF4Error("%s (-1): simulated read failure" % what)

    @classmethod
    def arm(cls, faults):
        cls.count, cls.plan, cls.armed = 0, faults, True

    @classmethod
    def disarm(cls):
        cls.armed = False


def hdf4():
    """Put these calls of pyhdf behind the seam (once per process)."""
    import pyhdf.SD
    import pyhdf.HDF
    import pyhdf.VS
    for cls, name in ((pyhdf.SD.SDS, "get"), (pyhdf.VS.VD, "read"), (pyhdf.SD.SD, "select"), (pyhdf.SD.SD, "datasets"),
                      (pyhdf.VS.VS, "attach"), (pyhdf.VS.VS, "vdatainfo")):
        def wrap(inner, name):
            def outer(self, *a, **k):
                _Hdf4.call(name)
                return inner(self, *a, **k)
            return outer
        setattr(cls, name, wrap(getattr(cls, name), name))


class Window(object):
    """What happened while a plan was armed."""

    def __init__(self):
        self.counts = {}
        self.fired = 0


@contextlib.contextmanager
def window(faults=(), alloc_threshold=None):
    """Arm `faults` (dicts kind/nth/action/arg/repeat, or {"budget": bytes}) for the body."""
    w = Window()
    before = sum(fired().values())
    for f in faults:
        if "budget" in f:
            _lib.sim_budget(int(f["budget"]))
            continue
        if f["kind"] == "hdf4":
            continue
        if f["kind"] == "alloc":
            _lib.sim_alloc_threshold(int(f.get("threshold", 4096)))
        arg = f.get("arg", 0)
        if isinstance(arg, str):
            arg = getattr(errno, arg)
        _lib.sim_plan(K[f["kind"]], int(f["nth"]), A[f["action"]], int(arg), int(f.get("repeat", 1)))
    if alloc_threshold is not None:
        _lib.sim_alloc_threshold(int(alloc_threshold))
    _Hdf4.arm([f for f in faults if f.get("kind") == "hdf4"])
    _lib.sim_arm()
    try:
        yield w
    finally:
        w.counts = {k: int(_lib.sim_count(i)) for i, k in enumerate(KINDS)}
        w.counts["hdf4"] = _Hdf4.count
        _lib.sim_disarm()
        _Hdf4.disarm()
        w.fired = sum(fired().values()) - before
