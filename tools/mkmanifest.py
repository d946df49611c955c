"""Writes MANIFEST.json from config.py and properties.jsonl."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)
from config import CHECKS, HOOKS
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1,
     "setup_cmd": "bash tools/setup.sh",
     "hooks": HOOKS, "checks": [], "not_applicable": []}
for p in props:
    c = CHECKS.get(p["id"])
    if c is None:
        m["not_applicable"].append({"property": p["id"], "reason": "no check has been built for it yet"})
        continue
    m["checks"].append({"property": p["id"], "quick_cmd": "python3 run.py %s quick" % p["id"], "thorough_cmd": "python3 run.py %s thorough" % p["id"],
                        "technique": c["technique"], "level": c.get("level", "exploration"), "level_note": c["note"]})
m["notes"] = "TLA+/TLC. run.py <ID>: TLC generates jobs from spec/, driver/ executes them against /repo, TLC validates the recorded events against spec/."
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed", [x["property"] for x in m["not_applicable"]])
