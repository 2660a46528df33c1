# Adds the counts of the evidence files to costs.json:  tools/costs.py [ids]
import json, os, sys, glob
HERE = os.path.dirname(os.path.abspath(__file__)); P = HERE + "/costs.json"
c = json.load(open(P)) if os.path.exists(P) else {}
for f in glob.glob(os.path.dirname(HERE) + "/evidence/C*.json"):
    e = json.load(open(f))
    if e["violations"] or not e["coverage"].get("exhaustive"): continue
    c.setdefault(e["property"], {})[e["tier"]] = [e["coverage"]["states"], e["coverage"]["transitions"], round(e["wall_s"])]
json.dump(c, open(P, "w"), indent=1, sort_keys=True)
