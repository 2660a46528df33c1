# Writes MANIFEST.json from the list of checks in units.py and the notes below.
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = {}
O0, O2 = ["-O0"], ["-O2"]
def unit(cid, *a): CHECKS[cid] = 1
def std_units(cid, *a, **k): CHECKS[cid] = 1
exec(open(os.path.join(HERE, "units.py")).read())
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in CHECKS:
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
            "technique": TECH.get(i, "exhaustive bounded state enumeration of the real code against an exact reference model"),
            "level": "model_checking", "level_note": NOTES.get(i, DEFAULT_NOTE)})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks", [x["property"] for x in m["not_applicable"]])
