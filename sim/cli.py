"""The command line, run for real: cis.cis_main.main() in a forked process with its own argv, stdin dialogue, home, environment.

A command is a small JSON dict over fabricated inputs; argv() spells it out.  The exit status is computed as the interpreter
does: SystemExit codes, 1 for an uncaught exception, 130 for an interrupt, 120 when the standard output cannot be flushed.
"""
import os
import sys

from sim import core, ops, seam

AXES_U = {"latitude": "latitude", "longitude": "longitude", "altitude": "altitude", "air_pressure": "air_pressure"}


def date(days, gridded):
    import datetime
    if gridded:
        return (datetime.datetime(2008, 6, 1) + datetime.timedelta(days=days)).strftime("%Y-%m-%dT%H:%M:%S")
    return (datetime.datetime(1600, 1, 1) + datetime.timedelta(days=days)).strftime("%Y-%m-%dT%H:%M:%S")


def gen_command(rng, only=None, products=False):
    """{"cmd", "inputs", ...}: one command line with valid arguments; with `products` some read other formats."""
    cmd = only or rng.weighted([("subset", 4), ("aggregate", 3), ("collapse", 2), ("col", 5), ("eval", 3), ("stats", 2), ("info", 2), ("plot", .4)])
    c = {"cmd": cmd, "product": rng.chance(.3), "quiet": rng.weighted([("", 5), ("-q", 1), ("-v", 1), ("-vv", 1)])}
    if cmd in ("subset", "info"):
        kind = rng.pick("ug")
        inp = [other_product(rng) if products and rng.chance(.4) else ops.gen_input(rng, kind)]
        if cmd == "subset":
            c["lims"] = ops.gen_limits(rng, *coords_ranges(inp[0]))
        else:
            c["detail"] = rng.chance(.5) and kind == "u"
    elif cmd == "aggregate":
        inp = [other_product(rng) if products and rng.chance(.4) else ops.gen_input(rng, "u")]
        c["grid"] = ops.gen_grid(rng, *coords_ranges(inp[0]))
        c["kernel"] = rng.pick(["mean", "moments", "max", ""])
    elif cmd == "collapse":
        inp = [ops.gen_input(rng, "g", aux=False)]
        names, _ = coords_ranges(inp[0])
        c["over"] = rng.some(names, rng.int(1, len(names) - 1))
        c["kernel"] = rng.pick(["mean", "moments", "max", ""])
    elif cmd == "col":
        s, d = rng.pick(["uu", "uu", "ug", "gg"])
        inp = [ops.gen_input(rng, s, as_list=False, aux=False) if s == "g" else ops.gen_input(rng, s, as_list=False)]
        for _ in range(rng.weighted([(1, 3), (2, 2)])):
            inp.append(ops.gen_input(rng, d, aux=False) if d == "g" else ops.gen_input(rng, d))
        c["how"] = "box" if d == "u" else rng.pick(["lin", "nn"])
        c["kernel"] = rng.pick(["mean", "moments", "max"])
        c["withvar"] = rng.chance(.5)
    elif cmd == "eval":
        kind = rng.pick("ug")
        inp = [ops.gen_input(rng, kind, as_list=True)]
        c["expr"] = rng.pick(["a+b", "(a*2.0)-b", "numpy.sqrt(a)"])
        c["outvar"] = rng.pick(["", "", "res"])
    elif cmd == "stats":
        kind = rng.pick("ug")
        inp = [ops.gen_input(rng, kind, as_list=True)]
        c["save"] = rng.chance(.5)
    else:
        inp = [ops.gen_input(rng, "u", as_list=False)]
        c["type"] = rng.pick(["histogram", "line"])
    if cmd in ("eval", "stats"):
        inp[0]["fixture"]["vars"] = 2
    c["inputs"] = inp
    return c


def other_product(rng):
    from sim import gen
    p = rng.pick([p for p in gen.UNGRIDDED if p != "cis"])
    return {"fixture": gen.fixture(rng, p, n=rng.int(6, 60)), "list": False, "var": rng.int(0, 2)}


def coords_ranges(inp):
    sp = inp["fixture"]
    return (ops.g_coords(sp), ops.g_ranges(sp)) if ops.is_g(inp) else (ops.u_coords(sp), ops.u_ranges(sp))


def variables(inp, fx):
    return list(fx["vars"]) if inp["list"] else [fx["vars"][inp["var"] % len(fx["vars"])]]


def writes_output(c):
    return c["cmd"] not in ("info",) and not (c["cmd"] == "stats" and not c["save"])


def argv(c, ins, out=None, force=False, spell=None):
    """The argument list; `spell(k, files)` may spell the files of input k differently."""
    spell = spell or (lambda k, files: ",".join(files))
    a = []

    def group(k, vs, *opts):
        fx = ins.fx[k]
        parts = ([",".join(vs)] if vs else []) + [spell(k, fx["files"])]
        kw = [o for o in opts if o] + (["product=" + fx["product"]] if c["product"] and vs else [])
        return ":".join(parts + ([",".join(kw)] if kw else []))

    inp = c["inputs"]
    v0 = variables(inp[0], ins.fx[0])
    cmd = c["cmd"]
    if cmd == "subset":
        lims = []
        for k in sorted(c["lims"]):
            v = c["lims"][k]
            lims.append("%s=[%s]" % (k, ",".join(date(x, ops.is_g(inp[0])) if k == "time" else repr(x) for x in v)))
        a = ["subset", group(0, v0), ",".join(lims)]
    elif cmd == "aggregate":
        g = []
        for k in sorted(c["grid"]):
            v = c["grid"][k]
            if k == "time":
                g.append("time=[%s,%s,PT6H]" % (date(v[0], False), date(v[1], False)))
            else:
                g.append("%s=[%s]" % (k, ",".join(repr(x) for x in v)))
        a = ["aggregate", group(0, v0, "kernel=" + c["kernel"] if c["kernel"] else ""), ",".join(g)]
    elif cmd == "collapse":
        a = ["collapse", group(0, v0, "kernel=" + c["kernel"] if c["kernel"] else "")] + list(c["over"])
    elif cmd == "col":
        opt = "collocator=box[h_sep=3000km],kernel=" + c["kernel"] if c["how"] == "box" else "collocator=" + c["how"]
        s = spell(0, ins.fx[0]["files"]) + ":" + opt + (",variable=" + v0[0] if c["withvar"] else "") + \
            (",product=" + ins.fx[0]["product"] if c["product"] else "")
        a = ["col"] + [group(k, variables(inp[k], ins.fx[k])) for k in range(1, len(inp))] + [s]
    elif cmd == "eval":
        al = ["%s=%s" % (v, n) for v, n in zip(v0, "ab")]
        a = ["eval", group(0, al), c["expr"], "1"]
        if c["outvar"] and out:
            out = c["outvar"] + ":" + out
    elif cmd == "stats":
        a = ["stats", group(0, v0)]
    elif cmd == "info":
        a = ["info", group(0, v0 if c["detail"] else [])]
    elif cmd == "plot":
        a = ["plot", group(0, v0), "--type", c["type"]]
    if c["quiet"]:
        a[1:1] = [c["quiet"]]
    if force:
        a[1:1] = ["--force-overwrite"]
    if out and writes_output(c):
        a += ["-o", out]
    return a


def expected_vars(c, ins):
    """Names of the variables the output file has to hold at least (None: not a file of variables)."""
    inp = c["inputs"]
    cmd = c["cmd"]
    if not writes_output(c) or cmd in ("plot",):
        return None
    leaf = lambda vs: [v.split("/")[-1] for v in vs]             # written without the group they are in
    v0 = leaf(variables(inp[0], ins.fx[0]))
    if cmd == "subset":
        return v0
    if cmd in ("aggregate", "collapse"):
        return moments(v0) if c["kernel"] == "moments" or (cmd == "aggregate" and not c["kernel"]) else v0
    if cmd == "col":
        vs = [v for k in range(1, len(inp)) for v in leaf(variables(inp[k], ins.fx[k]))]
        return moments(vs) if c["how"] == "box" and c["kernel"] == "moments" else vs
    if cmd == "eval":
        return [c["outvar"] or "calculated_variable"]
    return ["num_points", "dataset_mean_1", "dataset_mean_2", "spearman"]


def moments(vs):
    return [n for v in vs for n in (v, v + "_std_dev", v + "_num_points")]


class Stdin(object):
    """The user at the prompt: a list of lines, "EOF" or "INT"."""

    def __init__(self, script, note):
        self.script, self.asked, self.note = list(script), 0, note

    def readline(self, *a):
        self.asked += 1
        with open(self.note, "w") as f:          # outside the fault scope; survives a kill
            f.write(str(self.asked))
        item = self.script.pop(0) if self.script else "EOF"
        if item == "INT":
            raise KeyboardInterrupt()
        if item.startswith("VANISH:"):           # while the user thinks, the log's directory goes away
            import shutil
            shutil.rmtree(os.environ["HOME"])
            item = item[7:]
        return "" if item == "EOF" else item + "\n"

    def close(self):
        pass

    def flush(self):
        pass

    def isatty(self):
        return True

    def fileno(self):
        raise OSError("no descriptor")

    errors, encoding = "strict", "utf-8"


def prepare_home(env, kind="plain"):
    """The home directory (where cis.log goes) lies outside the fault scope unless the run wants otherwise."""
    import shutil
    base = os.path.dirname(env.dir)
    home = os.path.join(base, "h")
    shutil.rmtree(home, ignore_errors=True)
    os.mkdir(home)
    if kind == "scoped":
        home = env.path("home")
        os.makedirs(home, exist_ok=True)
    elif kind == "missing":
        home = os.path.join(home, "nowhere")
    elif kind == "file":
        home = os.path.join(home, "f")
        open(home, "w").close()
    elif kind == "logdir":
        os.mkdir(os.path.join(home, "cis.log"))
    elif kind == "full":
        os.symlink("/dev/full", os.path.join(home, "cis.log"))
    return home


def run(env, args, home, stdin=(), environ=(), faults=(), scoped_stdout=False, thresholds=None, before=None, cwd=None):
    """Returns {"status", "out", "err", "counts", "fired", "asked"} or {"died": status}."""
    base = os.path.join(os.path.dirname(env.dir), "t")
    os.makedirs(base, exist_ok=True)
    so, se = (env.path("stdout") if scoped_stdout else os.path.join(base, "stdout")), os.path.join(base, "stderr")
    note = os.path.join(base, "note")
    for p in (so, se, note):
        if os.path.exists(p):
            os.remove(p)

    def child(env):
        import logging
        os.chdir(cwd or env.dir)
        logging.disable(logging.NOTSET)
        for k in [k for k in os.environ if k.startswith("CIS_")]:
            del os.environ[k]
        os.environ["HOME"] = home
        for k, v in dict(environ).items():
            os.environ[k] = v
        sys.argv = ["cis"] + list(args)
        sys.stderr = open(se, "w", 1)
        sys.stdin = Stdin(stdin, note)
        stdin_obj = sys.stdin
        import builtins
        import site
        import _sitebuiltins
        builtins.exit = _sitebuiltins.Quitter("exit", "Ctrl-D (i.e. EOF)")
        from cis import cis_main
        status = 0
        if before:
            before()
        sys.stdout = open(so, "w")
        with env.window(faults, alloc_threshold=thresholds) as w:
            try:
                try:
                    cis_main.main()
                except SystemExit as e:
                    status = 0 if e.code is None else (e.code if isinstance(e.code, int) else 1)
                    if e.code is not None and not isinstance(e.code, int):
                        sys.stderr.write(str(e.code) + "\n")
                except KeyboardInterrupt:
                    sys.stderr.write("KeyboardInterrupt\n")
                    status = 130
                except BaseException as e:
                    sys.stderr.write("Traceback: %s: %s\n" % (type(e).__name__, e))
                    status = 1
                # what the interpreter does on the way out
                try:
                    logging.shutdown()
                except KeyboardInterrupt:
                    status = 130
                except BaseException:
                    pass
                try:
                    sys.stdout.flush()
                except BaseException as e:
                    sys.stderr.write("Exception ignored: %s\n" % type(e).__name__)
                    status = status or 120
            except KeyboardInterrupt:
                status = 130
                sys.stderr.write("KeyboardInterrupt\n")
        try:
            sys.stdout.close()
        except BaseException:
            pass
        sys.stderr.flush()
        return {"status": status, "counts": w.counts, "fired": w.fired, "asked": stdin_obj.asked}

    r = core.in_child(env, child)
    text = {}
    for k, p in (("out", so), ("err", se)):
        try:
            with open(p, errors="replace") as f:
                text[k] = f.read()
        except OSError:
            text[k] = ""
    if r[0] == "died":
        return dict(text, died=r[1], status=None, fired=1, asked=int(open(note).read()) if os.path.exists(note) else 0, counts={})
    return dict(r[1], **text)


def tree(root, skip=()):
    """Every file below root: kind, link target, bytes."""
    import hashlib
    out = {}
    for d, dirs, files in os.walk(root):
        for n in sorted(files + [x for x in dirs if os.path.islink(os.path.join(d, x))]):
            p = os.path.join(d, n)
            rel = os.path.relpath(p, root)
            if rel in skip:
                continue
            if os.path.islink(p):
                out[rel] = "-> " + os.readlink(p).replace(root, "$D")
            else:
                with open(p, "rb") as f:
                    out[rel] = hashlib.sha256(f.read()).hexdigest()[:16]
    return out
