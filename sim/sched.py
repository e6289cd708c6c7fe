"""Seeded execution of dask graphs: which ready chunk is computed next is the simulator's choice."""
_state = {"rng": None, "log": None}


def install():
    def get(dsk, keys, cache=None, num_workers=None, pool=None, **kwargs):
        return run_graph(dsk, keys)
    _state["get"] = get
    return get


def run_graph(dsk, keys):
    """Evaluate a dask graph one task at a time, in an order drawn from the run's generator."""
    import dask
    from dask.local import get_sync
    rng = _state["rng"]
    if rng is None:
        return get_sync(dsk, keys)
    from dask._task_spec import convert_legacy_graph
    from dask.core import flatten
    if not hasattr(dsk, "keys"):                 # newer versions of dask hand over an expression
        dsk = dsk.__dask_graph__()
    g = convert_legacy_graph(dict(dsk))
    deps = {k: set(t.dependencies) & set(g) for k, t in g.items()}
    done = {}
    order = sorted(g, key=str)
    while len(done) < len(g):
        ready = [k for k in order if k not in done and all(x in done for x in deps[k])]
        k = ready[int(rng.random() * len(ready))]
        done[k] = g[k]({d: done[d] for d in g[k].dependencies if d in done})
        if _state["log"] is not None:
            _state["log"].append(str(k))

    def collect(ks):
        if isinstance(ks, list):
            return tuple(collect(x) for x in ks)
        return done[ks]
    return collect(keys) if isinstance(keys, list) else done[keys]


class seeded(object):
    def __init__(self, rng, log=None):
        self.rng, self.log = rng, log

    def __enter__(self):
        import dask
        _state["rng"], _state["log"] = self.rng, self.log
        self.cfg = dask.config.set(scheduler=_state["get"])
        self.cfg.__enter__()
        return self

    def __exit__(self, *a):
        self.cfg.__exit__(*a)
        _state["rng"] = _state["log"] = None
