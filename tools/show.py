"""Print the program generated for a run: tools/show.py D01 12 [seed]"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim import core
pid, i = sys.argv[1], int(sys.argv[2])
seed = sys.argv[3] if len(sys.argv) > 3 else "1"
mod = core.load_prop(pid)
p = mod.gen(core.rng_for(pid, seed, i), os.environ.get("VERIF_TIER", "quick"), i)
p.update(prop=pid, seed=int(seed), index=i)
print(json.dumps({"property": pid, "program": json.loads(json.dumps(p))}, indent=None if len(sys.argv) > 4 else 1))
