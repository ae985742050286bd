#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from props import P

sq = lambda s: " ".join(s.split())
checks, na = [], []
with open(os.path.join(V, "properties.jsonl"), "w") as fh:
    for p in sorted(P, key=lambda p: p["id"]):
        assert len(p["title"]) <= 80, p["id"]
        o = dict(id=p["id"], title=p["title"], statement=sq(p["statement"]),
                 quantifier=dict(over=p["over"], text=sq(p["qtext"])), why_tests_cant=sq(p["why"]),
                 anchors=dict(files=p["files"], mechanism=[dict(name=x.strip(), where=p["files"][0]) for x in sq(p["mech"]).split(";")]))
        for f in p["files"]:
            assert os.path.exists("/repo/" + f), f
        fh.write(json.dumps(o) + "\n")
        if "technique" in p:
            assert os.path.exists(os.path.join(V, "engine/checks", p["id"].lower() + ".py")), p["id"]
            checks.append(dict(property=p["id"], quick_cmd="python3 engine/run.py %s" % p["id"],
                               thorough_cmd="python3 engine/run.py %s --tier thorough" % p["id"],
                               technique=p["technique"], level="other", level_note=sq(p["note"])))
        else:
            na.append(dict(property=p["id"], reason=sq(p["na"])))
m = dict(version=1, setup_cmd="python3 engine/setup.py", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(checks), "checks,", len(na), "not applicable")

# DESIGN.md: head and tail are written by hand, the part per property comes from the checks
import ast
out = [open(os.path.join(V, "tools/design_head.md")).read()]
for p in sorted(P, key=lambda p: p["id"]):
    if "technique" in p:
        src = open(os.path.join(V, "engine/checks", p["id"].lower() + ".py")).read()
        out.append("\n### %s %s\n\n%s\n\n*Technique:* %s.\n\n*What the check does.* %s\n\n*Limits.* %s\n\n*Why tests cannot.* %s\n" % (
            p["id"], p["title"], sq(p["statement"]), p["technique"],
            ast.get_docstring(ast.parse(src)), sq(p["note"]), sq(p["why"])))
out.append("\n## 3. Properties static analysis does not decide here (not applicable)\n\n")
for p in sorted(P, key=lambda p: p["id"]):
    if "na" in p:
        out.append("* **%s %s.** %s\n" % (p["id"], p["title"], sq(p["na"])))
out.append(open(os.path.join(V, "tools/design_tail.md")).read())
open(os.path.join(V, "DESIGN.md"), "w").write("".join(out))
