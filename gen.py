#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from props.py and checks.py."""
import json, os, subprocess, sys
H = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, H)
from props import P
from checks import CHECKS
with open(H + "/properties.jsonl", "w") as f:
    for p in P:
        d = dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["quant"]), why_tests_cant=p["why"],
                 anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))
        if p["observe"]: d["anchors"]["observe_at"] = list(p["observe"])
        d["anchors"]["hook_needed"] = None
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(d) + "\n")
m = dict(version=1, setup_cmd="python3 -c \"import sys; sys.path.insert(0,'/verif'); import run\"",
  hooks=dict(guard="none", enable="no hooks: the checks compile /repo's sources as they are, with libc references redirected at link level", source_commits=[]),
  checks=[dict(property=p["id"], quick_cmd="python3 /verif/run.py %s --tier quick" % p["id"], thorough_cmd="python3 /verif/run.py %s --tier thorough" % p["id"], evidence_file="evidence/%s.json" % p["id"], technique=p["technique"], level=p["level"], level_note=p["note"]) for p in P if p["claim"]],
  not_applicable=[dict(property=p["id"], reason=p["reason"]) for p in P if not p["claim"]])
for p in P:
    if p["claim"]: assert p["id"] in CHECKS and CHECKS[p["id"]]["level"] == p["level"], p["id"]
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1); open(H + "/MANIFEST.json", "a").write("\n")
import glob
rows = []
for f in sorted(glob.glob(H + "/seeded/*/meta.json")):
    s = json.load(open(f)); rows.append("| %s | %s | %s |" % (f.split("/")[-2], s["property"], s["needs"]))
if rows and os.path.exists(H + "/DESIGN.md"):
    d = open(H + "/DESIGN.md").read(); a, b = d.index("<!-- seeds -->"), d.index("<!-- /seeds -->")
    open(H + "/DESIGN.md", "w").write(d[:a] + "<!-- seeds -->\n| seeded bug | caught by | needs |\n|---|---|---|\n" + "\n".join(rows) + "\n" + d[b:])
