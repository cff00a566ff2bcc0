"""Writes properties.jsonl and MANIFEST.json from the table in tools/meta_table.py."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from meta_table import PROPS, NA   # noqa: E402
ROOT = os.path.dirname(HERE)

props, checks, nas = [], [], []
for p in PROPS:
    assert len(p["title"]) <= 80, p["id"]
    props.append(dict(id=p["id"], title=p["title"], statement=p["statement"],
                      quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
                      anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]])))
    checks.append(dict(property=p["id"], quick_cmd="python3 sa/check.py %s" % p["id"],
                       thorough_cmd="VERIF_TIER=thorough python3 sa/check.py %s" % p["id"],
                       technique=p["technique"], level="other", level_note=p["note"]))
for p in NA:
    assert len(p["title"]) <= 80, p["id"]
    props.append(dict(id=p["id"], title=p["title"], statement=p["statement"],
                      quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
                      anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]])))
    nas.append(dict(property=p["id"], reason=p["reason"]))
with open(os.path.join(ROOT, "properties.jsonl"), "w") as fh:
    for p in props:
        fh.write(json.dumps(p) + "\n")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as fh:
    json.dump(dict(version=1, setup_cmd="python3 -c \"import ast, sys; assert sys.version_info >= (3, 9)\"",
                   checks=checks, not_applicable=nas,
                   notes="All checks are static: they parse /repo's current source and never import or run it."), fh, indent=1)
    fh.write("\n")
print(len(checks), "checks", len(nas), "not applicable")
