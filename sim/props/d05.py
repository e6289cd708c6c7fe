"""D05: the command line never destroys files it was not told to replace."""
import os
import shutil

from sim import cli, core, ops
from sim import gen as G
from sim.core import Violation

LEVEL = "exploration"
RUNS = {"quick": 420, "thorough": 7000}
RULE = ("one run = a seeded command line (subset, aggregate, collapse, col, eval, stats, info, plot) over fabricated inputs whose output names a new "
        "file, an existing file, a link to one, a file in a directory or wildcard given as input, the default output, a name that only exists once "
        "the extension is added, or one of its own inputs under another spelling; with or without the force option, with CIS_FORCE_OVERWRITE unset or "
        "set to a seeded value, a seeded dialogue at the prompt (answers, end of input, interrupt) and 0-2 faults (kill, interrupt, storage and "
        "allocation errors) at seeded calls of the command; non-trivial when the output exists beforehand or a fault fired")
REAL = ["cis.cis_main.main", "cis.parse", "cis readers, operations, writers and plotting", "netCDF4/HDF5", "iris"]
STUBS = ["terminal (scripted standard input)", "system calls on files below the scratch directory (libsim)", "allocator failures (libsim)",
         "process death and interrupts at a storage call (libsim)", "clock (libsim)"]
ASSUMPTIONS = ["nobody else creates or changes files while a command runs", "after a kill a hidden temporary file may be left beside the output"]
NOTE = "seeded commands, path spellings, dialogues and crash points; every file in the scratch tree is compared before and after"

ENVS = [None, None, None, None, None, "TRUE", "true", "True", "false", "FALSE", "0", "no", "", "yes", "1", "n"]
RELATIONS = [("new", 2), ("existing", 5), ("cisout", 1), ("symlink", 2), ("hardlink", 2), ("dangling", 1), ("noext", 2), ("default", 1),
             ("linkdir", 1), ("indir", 1), ("input", 7)]
SPELLINGS = ["same", "dot", "slashes", "updown", "absolute", "symlink", "hardlink", "linkdir", "noext", "chain"]


def gen(rng, tier, index):
    only = rng.weighted([(None, 20), ("plot", 1)])
    c = cli.gen_command(rng, only)
    if c["cmd"] in ("info",) and rng.chance(.7):
        c = cli.gen_command(rng, "subset")
    if c["cmd"] == "stats":
        c["save"] = True
    p = {"command": c, "relation": rng.weighted(RELATIONS), "force": rng.chance(.2), "environ": rng.pick(ENVS), "in_spell": rng.weighted(
        [("files", 5), ("wildcard", 1), ("dir", 1), ("symlink", 1)]), "which": [rng.int(0, 3), rng.int(0, 3)], "spelling": rng.pick(SPELLINGS)}
    script = []
    for _ in range(rng.weighted([(0, 4), (1, 2), (2, 1)])):
        script.append(rng.pick(["Y", "yes", "maybe", "N", "no", " y", "TRUE", "y y"]))
    script.append(rng.weighted([("y", 3), ("n", 2), ("", 2), ("EOF", 2), ("INT", 2)]))
    p["script"] = script
    p["faults"] = []
    if rng.chance(.6):
        for _ in range(rng.weighted([(1, 4), (2, 1)])):
            p["faults"].append(fault(rng))
    return p


def fault(rng):
    k = rng.weighted([("write", 5), ("read", 4), ("open_r", 2), ("open_w", 1), ("rename", 2), ("close", 2), ("trunc", 1), ("unlink", 1), ("alloc", 2)])
    f = {"kind": k, "frac": round(rng.random(), 4), "repeat": rng.pick([1, 1, -1]), "arg": 0}
    if k == "alloc":
        return dict(f, action="errno", arg="ENOMEM", threshold=4000)
    f["action"] = rng.weighted([("crash", 4), ("torn", 1 if k == "write" else 0), ("sigint", 4), ("errno", 3)])
    if f["action"] != "errno":
        f["repeat"] = 1
    elif k in ("write", "open_w", "rename"):
        f["arg"] = rng.pick(["ENOSPC", "EIO", "EACCES"])
    else:
        f["arg"] = "EIO"
    return f


def shrink(p):
    for i in range(len(p["script"]) - 1):
        yield dict(p, script=p["script"][:i] + p["script"][i + 1:])
    if p["environ"] is not None:
        yield dict(p, environ=None)
    if p["force"]:
        yield dict(p, force=False)
    if p["in_spell"] != "files":
        yield dict(p, in_spell="files")
    if p["command"]["quiet"]:
        yield dict(p, command=dict(p["command"], quiet=""))


def rel(env, path):
    return os.path.relpath(path, env.dir)


def setup(p, env, ins):
    """Creates what the relation needs; returns the -o argument (None: leave it to the default)."""
    c = p["command"]
    ext = ".png" if c["cmd"] == "plot" else ".nc"
    d = env.path("o")
    os.mkdir(d)
    for n in ("bystander.nc", "bystander.txt", "out"):
        with open(os.path.join(d, n), "w") as f:
            f.write("precious %s\n" % n * 50)
    kind = p["relation"]
    out = os.path.join(d, "out" + ext)
    junk = lambda path: open(path, "w").write("an earlier result\n" * 40)
    if kind == "new":
        return rel(env, out)
    if kind == "existing":
        junk(out)
        return out if p["which"][0] % 2 else rel(env, out)
    if kind == "cisout":
        shutil.copy(ins.fx[0]["files"][0], out)
        return rel(env, out)
    if kind == "symlink":
        os.symlink("bystander.nc", out)
        return rel(env, out)
    if kind == "hardlink":
        os.link(os.path.join(d, "bystander.nc"), out)
        return rel(env, out)
    if kind == "dangling":
        os.symlink("nothing" + ext, out)
        return rel(env, out)
    if kind == "noext":
        junk(out)
        return rel(env, out[:-len(ext)])
    if kind == "default":
        if c["cmd"] in ("plot", "stats", "eval", "info"):
            junk(env.path("out" + ext))
            return "out"
        junk(env.path("out.nc"))
        return None
    if kind == "linkdir":
        junk(out)
        os.symlink("o", env.path("ln"))
        return "ln/out" + ext
    k = p["which"][0] % len(ins.fx)
    f = ins.fx[k]["files"][p["which"][1] % len(ins.fx[k]["files"])]
    if kind == "indir":
        out = os.path.join(os.path.dirname(f), "zz.nc")
        shutil.copy(f, out)
        return rel(env, out)
    # one of the inputs, spelled some way
    s, r = p["spelling"], rel(env, f)
    a, b = os.path.split(r)
    if s == "dot":
        return "./" + r
    if s == "slashes":
        return a + "//" + b
    if s == "updown":
        return os.path.join("o", "..", r)
    if s == "absolute":
        return f
    if s == "symlink":
        os.symlink(f, os.path.join(d, "alias.nc"))
        return "o/alias.nc"
    if s == "hardlink":
        os.link(f, os.path.join(d, "alias.nc"))
        return "o/alias.nc"
    if s == "linkdir":
        os.symlink(a, env.path("ln"))
        return os.path.join("ln", b)
    if s == "noext":
        return r[:-3] if r.endswith(".nc") else r
    if s == "chain":
        os.symlink("../" + r, os.path.join(d, "a.nc"))
        os.symlink("a.nc", os.path.join(d, "b.nc"))
        return "o/b.nc"
    return r


def speller(p, env):
    kind = p["in_spell"]

    def spell(k, files):
        d = os.path.dirname(files[0])
        if kind == "wildcard":
            return rel(env, d) + "/*.nc"
        if kind == "dir":
            return rel(env, d)
        if kind == "symlink":
            out = []
            for j, f in enumerate(files):
                ln = env.path("s%d_%d.nc" % (k, j))
                if not os.path.islink(ln):
                    os.symlink(f, ln)
                out.append(rel(env, ln))
            return ",".join(out)
        return ",".join(rel(env, f) for f in files)
    return spell


def run(p, env):
    ins = ops.Inputs(env, p["command"]["inputs"])
    c = p["command"]
    writes = cli.writes_output(c)
    home = cli.prepare_home(env)
    env.path_in = [os.path.realpath(f) for fx in ins.fx for f in fx["files"]]
    # an undisturbed pass to a path of its own counts the calls
    counts = {}
    if p["faults"]:
        os.mkdir(env.path("dry"))
        thr = (G.alloc_thresholds(p["faults"]) or [4000])[0]
        a = cli.argv(c, ins, out=env.path("dry", "out.png" if c["cmd"] == "plot" else "out.nc"))
        r = cli.run(env, a, home, thresholds=thr, cwd=env.dir)
        counts = dict(r["counts"])
        shutil.rmtree(env.path("dry"))
    out = setup(p, env, ins)
    args = cli.argv(c, ins, out=out, force=p["force"], spell=speller(p, env))
    spelled = out if out is not None else "out"
    if not os.path.splitext(spelled)[1]:
        spelled += ".png" if c["cmd"] == "plot" else ".nc"
    target = os.path.realpath(env.path(spelled))
    exists = writes and os.path.isfile(target)
    inputs = list(env.path_in)
    if p["in_spell"] in ("wildcard", "dir"):
        for fx in ins.fx:
            d = os.path.dirname(fx["files"][0])
            inputs += [os.path.realpath(os.path.join(d, n)) for n in os.listdir(d) if p["in_spell"] == "dir" or n.endswith(".nc")]
    is_input = exists and any(os.path.samefile(target, f) for f in inputs)
    # every name of the file that may be replaced
    replaceable = set()
    if writes and not is_input:
        replaceable |= {rel(env, target), os.path.normpath(spelled) if not os.path.isabs(spelled) else rel(env, spelled)}
        if exists:
            for r_, _, fs in os.walk(env.dir):
                for n in fs:
                    q = os.path.join(r_, n)
                    if not os.path.islink(q) and os.path.samefile(q, target):
                        replaceable.add(rel(env, q))
    before = cli.tree(env.dir)
    environ = {} if p["environ"] is None else {"CIS_FORCE_OVERWRITE": p["environ"]}
    r = cli.run(env, args, home, stdin=p["script"], environ=environ, faults=G.resolve(p["faults"], counts), cwd=env.dir)
    after = cli.tree(env.dir)
    died = r["status"] is None
    env.log("command", c["cmd"], p["relation"], p["spelling"] if p["relation"] == "input" else "", "status", r["status"], "asked", r["asked"], "fired", r["fired"])
    env.count("cmd.%s" % c["cmd"])
    env.count("relation.%s" % p["relation"])
    env.nontrivial = bool(exists or r["fired"])
    answer = answered(p["script"], r["asked"])
    agreed = p["force"] or (p["environ"] or "").lower() == "true" or answer == "y"
    changed = [k for k in sorted(set(before) | set(after)) if before.get(k) != after.get(k)]
    cmdline = "cis " + " ".join(args).replace(env.dir, "$D")
    what = "`%s` (CIS_FORCE_OVERWRITE %s, answers %s, %d fault(s)%s)" % (
        cmdline, "unset" if p["environ"] is None else repr(p["environ"]), p["script"][:r["asked"]], r["fired"],
        ", killed" if died else ", status %s" % r["status"])
    outcome = "died" if died else "status%s" % r["status"]
    env.count("%s.%s%s" % ("input" if is_input else "exists" if exists else "new", "agreed." if agreed else "", outcome))
    for k in changed:
        base = os.path.basename(k)
        if base.startswith(".") and r["fired"] and k not in before:
            continue                                            # the temporary file of an interrupted save
        if rel(env, os.path.realpath(env.path(k))) in [rel(env, f) for f in inputs]:
            raise Violation("input-changed", "%s changed its input %s" % (what, k))
        if k not in replaceable:
            raise Violation("bystander-changed", "%s changed %s, which is not its output" % (what, k))
        if exists and not agreed:
            raise Violation("overwritten", "%s replaced %s without being told to" % (what, k))
    if died or not writes:
        return
    # a refusal or a decline shows in the exit status
    if exists and not r["fired"]:
        if answer in ("n", "") and r["asked"]:
            if r["status"] != 0:
                raise Violation("decline-status", "%s: declining is not a failure\n%s" % (what, r["err"][-300:]))
        elif answer in ("EOF", "INT") and r["status"] == 0:
            raise Violation("decline-status", "%s: ended at the prompt, yet reported success" % what)
        elif is_input and agreed and r["status"] == 0:
            raise Violation("input-not-refused", "%s was not refused" % what)
    env.sample = {"events": [cmdline] + env.events[-2:]}


def answered(script, asked):
    """What the dialogue came to: y, n, "", EOF, INT or None (never asked, or not answered)."""
    for s in (list(script) + ["EOF"] * asked)[:asked]:
        if s in ("y", "n", "", "EOF", "INT"):
            return s
    return None
