# merges the evidence files of the last runs into cost.json (figures quoted in DESIGN.md)
import json, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, "cost.json")
C = json.load(open(p)) if os.path.exists(p) else {}
for f in glob.glob(os.path.join(V, "evidence/*.json")):
    e = json.load(open(f)); c = e["coverage"]
    C.setdefault(e["property"], {})[e["tier"]] = [round(e["wall_s"]), c.get("executions", 0), c.get("transitions", 0), c.get("states", 0)]
json.dump(C, open(p, "w"), indent=0, sort_keys=True)
