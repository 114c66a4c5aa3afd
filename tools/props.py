#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []   # claimed properties
NA = []  # not applicable

def prop(id, title, statement, over, text, why, files, mech, technique, note, na=None, **kw):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note, na=na))

exec(open(os.path.join(V, "tools", "proplist.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=p["mech"]))) + "\n")
checks = []
na = []
for p in P:
    if p["na"]:
        na.append(dict(property=p["id"], reason=p["na"]))
        continue
    checks.append(dict(property=p["id"], quick_cmd="./run.sh " + p["id"], thorough_cmd="VERIF_TIER=thorough ./run.sh " + p["id"],
        technique=p["technique"], level="other", level_note=p["note"]))
m = dict(version=1, setup_cmd="cd analyzer && GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod CGO_ENABLED=0 go build -o /dev/null .",
    checks=checks, not_applicable=na,
    notes="Every check builds the analyzer in /verif/analyzer and decides its property from /repo's current source; nothing of /repo is executed.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
