# Writes DESIGN.md from the hand-written parts, the list of properties, tools/costs.json (from evidence) and tools/seeds.txt.
import json, os
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
exec(open(HERE + "/design_props.py").read())
props = [json.loads(l) for l in open(ROOT + "/properties.jsonl")]
costs = json.load(open(HERE + "/costs.json")) if os.path.exists(HERE + "/costs.json") else {}
o = open(HERE + "/design_head.md").read()
o += "Base formats of every row unless said otherwise: two to four mini formats completely, float/double/long double on the alphabet, int and rationals where the operation exists.\n\n"
o += "| id | property | space explored exhaustively | oracle | reaches beyond the tests | quick: states, transitions, seconds | thorough |\n|---|---|---|---|---|---|---|\n"
for p in props:
    i = p["id"]; a, b, c = D[i]; q = costs.get(i, {})
    f = lambda t: "%s, %s, %d" % ("{:,}".format(q[t][0]).replace(",", " "), "{:,}".format(q[t][1]).replace(",", " "), q[t][2]) if t in q else ""
    o += "| %s | %s | %s | %s | %s | %s | %s |\n" % (i, p["title"], a, b, c, f("quick"), f("thorough"))
o += "\nNo property is listed as not applicable.\n"
o += open(HERE + "/design_seeds.md").read() if os.path.exists(HERE + "/design_seeds.md") else ""
o += open(HERE + "/design_tail.md").read()
open(ROOT + "/DESIGN.md", "w").write(o)
