#!/usr/bin/env python3
import json, sys, os
sys.path.insert(0, os.path.dirname(__file__))
from props import P
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
try:
    from claims import CLAIMS
except ImportError:
    CLAIMS = {}
with open(root + "/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                         observe_at=p["observe"], hook_needed=None))) + "\n")
checks, na = [], []
for p in P:
    c = CLAIMS.get(p["id"])
    if c:
        checks.append(dict(property=p["id"], quick_cmd="./run.sh %s quick" % p["id"], thorough_cmd="./run.sh %s thorough" % p["id"],
            technique=c["technique"], level="other", level_note=c["note"]))
    else:
        na.append(dict(property=p["id"], reason=p["na"] or "check not built yet"))
json.dump(dict(version=1, setup_cmd="./build.sh", checks=checks, not_applicable=na,
    notes="Static analysis over go/ssa of /repo's current source; see DESIGN.md."), open(root + "/MANIFEST.json", "w"), indent=1)
for p in P:
    assert len(p["title"]) <= 80, p["id"]
print(len(checks), "claimed", len(na), "not applicable")
