#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and checks.json from the table below (run by hand after editing it)."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
P = []
N = []   # not applicable


def prop(id, title, statement, over, text, why, files, mech, oracle, quick, thorough, technique, note, state=None,
         observe=None, flavour="rel"):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe:
        d["anchors"]["observe_at"] = observe
    assert len(title) <= 80, (id, len(title))
    P.append((d, dict(flavour=flavour, oracle=oracle, bounds=dict(quick=quick, thorough=thorough)), technique, note))


exec(open(os.path.join(V, "proptable.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for d, *_ in P:
        f.write(json.dumps(d) + "\n")
    for d, _ in N:
        f.write(json.dumps(d) + "\n")
json.dump({d["id"]: c for d, c, *_ in P}, open(os.path.join(V, "checks.json"), "w"), indent=1)
json.dump(dict(
    version=1, setup_cmd="python3 /verif/check.py --setup",
    checks=[dict(property=d["id"], quick_cmd="python3 /verif/check.py %s --tier quick" % d["id"],
                 thorough_cmd="python3 /verif/check.py %s --tier thorough" % d["id"], technique=t,
                 level="model_checking", level_note=n, evidence_file="/verif/evidence/%s.json" % d["id"])
            for d, c, t, n in P],
    not_applicable=[dict(property=d["id"], reason=r) for d, r in N]),
    open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)

COST = {}
try:
    COST = json.load(open(os.path.join(V, "cost.json")))
except OSError:
    pass
out = []
for d, c, t, n in P:
    k = COST.get(d["id"], {})
    out.append("### %s — %s\n%s\n" % (d["id"], d["title"], d["statement"]))
    out.append("* **Enumerated** (%s): %s" % (", ".join(d["quantifier"]["over"]), d["quantifier"]["text"]))
    out.append("* **Oracle**: %s." % c["oracle"])
    out.append("* **Bounds**: quick: %s; thorough: %s." % (c["bounds"]["quick"], c["bounds"]["thorough"]))
    out.append("* **Cost** (8 cores): " + "; ".join("%s %s s, %s executions, %s transitions, %s states" % (
        t, k[t][0], *("{:,}".format(x) for x in k[t][1:])) for t in ("quick", "thorough") if t in k) + ".")
    out.append("* **Beyond the tests**: %s" % d["why_tests_cant"])
    if n != NOTE:
        out.append("* **Note**: %s" % n.replace(NOTE, "").strip())
    out.append("")
f = os.path.join(V, "DESIGN.md")
s = open(f).read()
a, b = s.index("begin -->") + len("begin -->"), s.index("<!-- generated by gen.py: end")
s = s[:a] + "\n\n" + "\n".join(out) + "\n" + s[b:]
open(f, "w").write(s)
print(len(P), "properties")
