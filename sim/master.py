"""Runs a batch of seeds over worker processes, minimises and reports what breaks, writes the evidence."""
import argparse
import json
import os
import resource
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time

from sim import core

FINDINGS = os.path.join(core.VERIF, "known_findings.jsonl")


def known_findings(pid):
    out = []
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            line = line.strip()
            if line and not line.startswith("#") and not line.startswith("fixed:"):
                f = json.loads(line)
                if f["property"] == pid:
                    out.append(f)
    return out


def is_known(findings, v):
    for f in findings:
        if f["class"] == v["class"] and f["key"] == v.get("key"):
            return f
    return None


def worker(mod, pid, seed, tier, indices, base, wfd, logs):
    os.makedirs(base)
    out = os.fdopen(wfd, "w")
    for i in indices:
        program = mod.gen(core.rng_for(pid, seed, i), tier, i)
        program.setdefault("prop", pid)
        program["seed"], program["index"] = seed, i
        program = json.loads(json.dumps(program))
        res = core.execute(mod, program, base, tier)
        res["index"] = i
        res["program"] = program if (res.get("violation") or res.get("error") or i < 3) else None
        out.write(json.dumps(res, default=str) + "\n")
        out.flush()
    out.close()


def run_batch(mod, pid, seed, tier, n, jobs, base, deadline, stop_on=None, known=()):
    """Workers get fixed slices of the index range, so what is explored does not depend on timing."""
    procs, bufs, results = {}, {}, {}
    jobs = max(1, min(jobs, n))
    for w in range(jobs):
        r, wr = os.pipe()
        pid_ = os.fork()
        if pid_ == 0:
            try:
                os.close(r)
                os.setpgid(0, 0)
                worker(mod, pid, seed, tier, range(w, n, jobs), os.path.join(base, "w%02d" % w), wr, None)
                os._exit(0)
            except BaseException:
                import traceback
                traceback.print_exc()
                os._exit(3)
        os.close(wr)
        procs[r] = pid_
        bufs[r] = b""
    cut = False
    novel = 0
    bad_workers = []
    while procs:
        left = deadline - time.monotonic()
        if left <= 0:
            cut = True
            break
        rd, _, _ = select.select(list(procs), [], [], min(left, 5))
        for r in rd:
            c = os.read(r, 1 << 20)
            if not c:
                _, st = os.waitpid(procs.pop(r), 0)
                if st != 0:
                    bad_workers.append(st)
                os.close(r)
                continue
            bufs[r] += c
            while b"\n" in bufs[r]:
                line, bufs[r] = bufs[r].split(b"\n", 1)
                res = json.loads(line.decode())
                results[res["index"]] = res
                v = res.get("violation")
                if v and not is_known(known, v):
                    novel += 1
        if stop_on and novel >= stop_on:
            break
    for r, p in procs.items():
        try:
            os.killpg(p, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            try:
                os.kill(p, signal.SIGKILL)
            except ProcessLookupError:
                pass
        os.waitpid(p, 0)
        os.close(r)
    return results, cut, bad_workers


def add(into, d):
    for k, v in (d or {}).items():
        into[k] = into.get(k, 0) + v


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--replay")
    ap.add_argument("--runs", type=int)
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VSIM_JOBS", "8")))
    ap.add_argument("--logs", help="write index + digest of every run here (determinism comparisons)")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--no-evidence", action="store_true")
    ap.add_argument("--keep-going", action="store_true")
    ap.add_argument("--list", action="store_true", help="print every violation found")
    a = ap.parse_args(argv)
    pid = a.property
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    t0 = time.monotonic()
    print("property=%s seed=%d tier=%s" % (pid, seed, tier))
    mod = core.load_prop(pid)
    core.preload()
    base = tempfile.mkdtemp(prefix="vsim-")
    started = mod.start(base) if hasattr(mod, "start") else []
    try:
        if a.replay:
            return replay(mod, pid, a.replay, base, tier)
        return batch(mod, pid, seed, tier, a, base, t0)
    finally:
        for p in started:
            p.kill()
            p.wait()
        shutil.rmtree(base, ignore_errors=True)


def replay(mod, pid, path, base, tier):
    d = json.load(open(path))
    os.makedirs(os.path.join(base, "w00"))
    res = core.execute(mod, d["program"], os.path.join(base, "w00"), d.get("tier", tier))
    if res.get("error"):
        print(res["error"])
        return 2
    v = res.get("violation")
    for e in res.get("events") or []:
        print("event:", e)
    if not v:
        print("replay: no violation")
        return 0
    print("violation class=%s key=%s\n%s" % (v["class"], v.get("key"), v["message"]))
    print("digest=%s" % res.get("digest"))
    print("VIOLATION property=%s replay=%s" % (pid, path))
    return 1


def batch(mod, pid, seed, tier, a, base, t0):
    n = a.runs or mod.RUNS[tier]
    limit = mod.LIMIT[tier] if hasattr(mod, "LIMIT") else {"quick": 420, "thorough": 780}[tier]
    known = known_findings(pid)
    t_run = time.monotonic()
    results, cut, bad = run_batch(mod, pid, seed, tier, n, a.jobs, base, t0 + limit,
                                  stop_on=None if a.keep_going else 12, known=known)
    run_s = time.monotonic() - t_run
    if a.logs:
        with open(a.logs, "w") as f:
            for i in sorted(results):
                r = results[i]
                f.write("%d %s %s\n" % (i, r.get("digest"), json.dumps((r.get("violation") or {}).get("class"))))
    errors = [results[i] for i in sorted(results) if results[i].get("error")]
    found = [results[i] for i in sorted(results) if results[i].get("violation")]
    seen_known, novel = {}, []
    for r in found:
        f = is_known(known, r["violation"])
        if f:
            seen_known[f["key"]] = f
        else:
            novel.append(r)
    # every listed finding is demonstrated on its own recorded input on every run
    for f in known:
        if f["key"] not in seen_known and f.get("program"):
            os.makedirs(os.path.join(base, "kf"), exist_ok=True)
            res = core.execute(mod, f["program"], os.path.join(base, "kf"), tier)
            if res.get("violation") and is_known([f], res["violation"]):
                seen_known[f["key"]] = f
    if a.list:
        import re
        groups = {}
        for r in found:
            m = r["violation"]["message"].strip().split("\n")
            k = (r["violation"]["class"], re.sub(r"[0-9]+", "#", " ".join(m)[-60:]) if len(m) > 8 else re.sub(r"[0-9]+", "#", m[-1])[:90])
            groups.setdefault(k, []).append(r)
        for k, rs in sorted(groups.items(), key=lambda g: -len(g[1])):
            r = rs[0]
            print("## %d x %s: %s" % (len(rs), r["violation"]["class"], [x["index"] for x in rs][:12]))
            m = r["violation"]["message"].strip().split("\n")
            print("   " + "\n   ".join(x[:400] for x in m[:6] + (m[-4:] if len(m) > 10 else m[6:])))
    for k in sorted(seen_known):
        print("KNOWN-FINDING: property=%s %s" % (pid, seen_known[k]["what"]))

    exit_code = 0
    replay_path = None
    if novel:
        exit_code = 1
        r = novel[0]
        mbase = os.path.join(base, "min")
        os.makedirs(mbase)
        prog, v, runs = core.minimise(mod, r["program"], r["violation"], mbase, tier,
                                      budget_s=45 if tier == "quick" else 120)
        rdir = os.path.join(core.VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        replay_path = os.path.join(rdir, "%s-s%d-i%d.json" % (pid, seed, r["index"]))

        def write(p, vv):
            with open(replay_path, "w") as f:
                json.dump({"property": pid, "tier": tier, "violation": vv, "program": p,
                           "found": {"seed": seed, "index": r["index"], "original_steps": len(r["program"].get("steps", []) or []),
                                     "minimiser_runs": runs}}, f, indent=1, default=str)
        write(prog, v)
        # fresh process: the file alone must reproduce it
        env = dict(os.environ)
        env.pop("VSIM_STAGE", None)
        ok = False
        for p, vv in ((prog, v), (r["program"], r["violation"])):
            write(p, vv)
            try:
                out = subprocess.run([sys.executable, os.path.join(core.VERIF, "check.py"), pid, "--replay", replay_path],
                                     env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=200)
                ok = out.returncode == 1 and ("class=%s " % vv["class"]) in out.stdout.decode(errors="replace")
            except subprocess.TimeoutExpired:
                ok = vv["class"] == "no-progress"
            if ok:
                v = vv
                break
        print("violating runs: %d of %d; first: index %d" % (len(novel), len(results), r["index"]))
        classes = {}
        for x in novel:
            classes[x["violation"]["class"]] = classes.get(x["violation"]["class"], 0) + 1
        print("classes: %s" % json.dumps(classes))
        print("class=%s key=%s\n%s" % (v["class"], v.get("key"), v["message"]))
        print("minimised in %d runs; replay in a fresh process %s" % (runs, "reproduces it" if ok else "DOES NOT reproduce it"))
        print("VIOLATION property=%s replay=%s" % (pid, replay_path))
    else:
        if errors or bad:
            for r in errors[:3]:
                print("harness error in run %d:\n%s" % (r["index"], r["error"]))
            print("check error: %d runs ended in a harness error, %d workers failed" % (len(errors), len(bad)))
            exit_code = 2
        elif len(results) < n and len(results) < mod.RUNS["quick"] // 4:
            print("check error: only %d of %d runs completed in %d s" % (len(results), n, limit))
            exit_code = 2

    # evidence
    fired, io, stats, digests, nontriv = {}, {}, {}, set(), set()
    samples = []
    for i in sorted(results):
        r = results[i]
        add(fired, r.get("fired"))
        add(io, r.get("io"))
        add(stats, r.get("stats"))
        if r.get("digest"):
            digests.add(r["digest"])
            if r.get("nontrivial"):
                nontriv.add(r["digest"])
        if len(samples) < 3 and (r.get("sample") or r.get("program")):
            samples.append({"index": i, "program": r.get("program"), "digest": r.get("digest"), "note": r.get("sample")})
    wall = time.monotonic() - t0
    ev = {"property": pid, "tier": tier, "seed": seed, "level": mod.LEVEL, "wall_s": round(wall, 2),
          "coverage": {
              "evaluations": len(results),
              "distinct_nontrivial": len(nontriv),
              "rule": mod.RULE,
              "samples": samples,
              "runs_requested": n,
              "cut_short_by_deadline": bool(cut),
              "simulated_runs_per_hour_one_seed_each": int(len(results) / run_s * 3600) if run_s > 0 else 0,
              "simulated_time_covered_s": stats.pop("simulated_s", 0),
              "distinct_executions": len(digests),
              "distinct_executions_measure": "hash of the run's event log together with the ordered trace of every storage call it made",
              "faults_fired": fired,
              "storage_calls": io,
              "reach": stats,
              "real_code": mod.REAL,
              "stubs": mod.STUBS,
          },
          "assumptions": getattr(mod, "ASSUMPTIONS", []),
          "violations": len(found),
          "violation_list": [{"class": r["violation"]["class"], "key": r["violation"].get("key"), "index": r["index"]} for r in found[:20]]}
    if not a.no_evidence:
        os.makedirs(os.path.join(core.VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(core.VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    print("%d runs (%d distinct executions, %d with faults or schedule decisions in effect) in %.1f s; faults fired: %s"
          % (len(results), len(digests), len(nontriv), wall, json.dumps(fired)))
    print("reach: %s" % json.dumps(stats, sort_keys=True))
    return exit_code
