"""Writes MANIFEST.json from properties.jsonl and the property modules present."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {
 "D20": "pure function of the time value and unit string: no scheduling, time source, storage or second party for a simulator to control, and no fault can reach it",
 "D21": "pure function of the argument strings: parsing touches no clock, storage or concurrency (what the command line does to files under faults is D05 and D06)",
 "D22": "confinement of expressions is a property of the expression text alone; there is no schedule, fault or history to simulate",
 "D23": "closed-form numerical statements about arrays already in memory; nothing in them depends on ordering, time, storage or faults",
 "D24": "pixels and axis choices drawn by matplotlib/cartopy from in-memory arrays; deterministic simulation has nothing to inject into the mapping",
 "D25": "pure floating-point geometry of single points and boxes; no nondeterminism, I/O or history involved",
}
T = "deterministic simulation with fault injection: seeded search over fault placements, schedules and histories of the real code"
NOTE = {}
checks, na = [], []
for p in props:
    i = p["id"]
    f = os.path.join(V, "sim", "props", i.lower() + ".py")
    if os.path.exists(f):
        s = open(f).read()
        lvl = re.search(r'^LEVEL = "(\w+)"', s, re.M).group(1)
        note = re.search(r'^NOTE = \(?((?:\s*"[^"]*"\s*)+)', s, re.M)
        note = "".join(re.findall(r'"([^"]*)"', note.group(1))) if note else "sampled executions of a bounded generator; evidence file says how many, and which faults fired"
        checks.append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": T, "level": lvl, "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1,
     "setup_cmd": "mkdir -p build && gcc -O2 -shared -fPIC -o build/libsim.so sim/shim.c -ldl",
     "hooks": {"guard": "VSIM_HOOKS", "enable": "no hook in /repo was needed: storage, allocator, clock, listing order, chunk scheduler and prompt are reached through existing seams (libc symbols, dask's scheduler setting, module attributes)", "source_commits": []},
     "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
