"""Writes MANIFEST.json from checks/checks.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "checks"))
sys.dont_write_bytecode = True
import checks
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 run.py --setup",
     "checks": [], "not_applicable": []}
for p in props:
    c = checks.CHECKS.get(p)
    if c:
        m["checks"].append({"property": p, "quick_cmd": "python3 run.py %s" % p, "thorough_cmd": "python3 run.py %s --tier thorough" % p,
                            "technique": c["technique"], "level": c["level"], "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": p, "reason": "check not built yet"})
if not m["not_applicable"]:
    del m["not_applicable"]
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(m["checks"]), "checks")
