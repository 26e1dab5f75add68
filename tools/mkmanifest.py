"""Regenerates /verif/MANIFEST.json from properties.jsonl and scenarios.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from scenarios import CHECKS
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
PURE = ("depends only on the arguments of pure functions: no schedule, clock, allocation outcome, bit source or "
        "callback can change it, so there is nothing for a simulator to decide (input sampling would be another technique)")
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append({"property": i, "quick_cmd": "python3 vsim.py check %s --tier quick" % i,
                       "thorough_cmd": "python3 vsim.py check %s --tier thorough" % i,
                       "technique": "deterministic simulation with fault injection: " + c.get("technique", "seeded histories against a reference model"),
                       "level": "exploration",
                       "level_note": c.get("note", "Holds on every seeded run explored; failures are minimised to an exactly repeating trace. "
                                     "Trusts the compiler, the instrumented element types and the reference model.")})
    else:
        na.append({"property": i, "reason": PURE if int(i[1:]) >= 19 else "no check built yet"})
m = {"version": 1, "setup_cmd": "python3 vsim.py build",
     "hooks": {"guard": "none", "enable": "no hooks: every seam is outside the library (global operator new/delete, element types, Random subclass, clock functions, compiler instrumentation)", "source_commits": []},
     "checks": checks, "not_applicable": na}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
