"""Writes properties.jsonl and MANIFEST.json from registry.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from registry import R

TOP = os.path.dirname(HERE)
with open(os.path.join(TOP, "properties.jsonl"), "w") as f:
    for r in R:
        assert len(r["title"]) <= 80, r["title"]
        f.write(json.dumps(dict(
            id=r["id"], title=r["title"], statement=r["statement"],
            quantifier=dict(over=r["over"], text=r["text"]), why_tests_cant=r["why"],
            anchors=dict(files=r["files"], mechanism=[dict(name=n, where=w) for n, w in r["mech"]],
                         observe_at=["return values, yielded values, raised errors and arguments of public calls"],
                         hook_needed=None))) + "\n")
man = dict(version=1, setup_cmd="true", checks=[dict(
    property=r["id"], quick_cmd="./run.sh %s --tier quick" % r["id"], thorough_cmd="./run.sh %s --tier thorough" % r["id"],
    technique="model checking: " + r["how"], level="model_checking", level_note=r["note"]) for r in R],
    not_applicable=[], notes="Every check runs the real code of /repo under bounded-exhaustive enumeration; no hooks are needed.")
with open(os.path.join(TOP, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
