#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from table.py"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from table import PROPS, NOT_APPLICABLE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "symbolic execution of the compiled LLVM IR + SMT (z3; cvc5 cross-check in thorough)"
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for i, p in sorted({**PROPS, **NOT_APPLICABLE}.items()):
        assert len(p["title"]) <= 80, (i, len(p["title"]))
        a = dict(files=p["files"], mechanism=p["mech"])
        if p.get("state"): a["state"] = p["state"]
        if p.get("observe"): a["observe_at"] = p["observe"]
        a["hook_needed"] = None
        f.write(json.dumps(dict(id=i, title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["quant"]), why_tests_cant=p["why"], anchors=a)) + "\n")
checks = []
for i, p in sorted(PROPS.items()):
    note = "Every input within the bounds, decided by the solver. Bounds: " + p["bounds"] + "." + (" Outside: " + p["outside"] + "." if p["outside"] else "") + \
        " Trusts the executor /verif/symex (validated on every run against native executions), rustc's LLVM IR and the solver." + (" " + p["note"] if p["note"] else "")
    checks.append(dict(property=i, quick_cmd=f"python3 tools/check.py {i}", thorough_cmd=f"VERIF_TIER=thorough python3 tools/check.py {i}", evidence_file=f"evidence/{i}.json", technique=TECH, level="model_checking", level_note=note))
m = dict(version=1, setup_cmd="bash tools/setup.sh", checks=checks, not_applicable=[dict(property=i, reason=p["reason"]) for i, p in sorted(NOT_APPLICABLE.items())],
    hooks=dict(guard="none", enable="the checks use the crates' public API; no hooks were added to /repo", source_commits=[]))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(NOT_APPLICABLE), "not applicable")
