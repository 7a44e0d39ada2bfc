#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from specs.py."""
import json, os
from specs import P
H = os.path.dirname(os.path.abspath(__file__))
with open(H + "/properties.jsonl", "w") as f:
    for p in P:
        d = dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
                 why_tests_cant=p["why"],
                 anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]], hook_needed=p["hook"]))
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(d) + "\n")
m = dict(version=1, setup_cmd="python3 check.py --setup",
         checks=[dict(property=p["id"], quick_cmd="python3 check.py " + p["id"],
                      thorough_cmd="VERIF_TIER=thorough python3 check.py " + p["id"], technique=p["technique"],
                      level=p["level"], level_note=p["note"] + " Bounds: " + json.dumps(p["bounds"])) for p in P if p["built"]],
         not_applicable=[dict(property=p["id"], reason=p.get("na") or "not built yet: the check for this property is still being written")
                         for p in P if not p["built"]],
         notes="See DESIGN.md. All machinery runs on the real code, compiled from /repo's working tree through a build overlay; /repo has no hooks.")
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
open(H + "/MANIFEST.json", "a").write("\n")
