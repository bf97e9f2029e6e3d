"""Writes properties.jsonl and MANIFEST.json from one table (tools/table.py)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from table import PROPS, NOT_APPLICABLE  # noqa: E402

TECH = ("symbolic execution of the current source (AST-transformed, exact real arithmetic) with z3 deciding every path obligation; "
        "counterexamples replayed on the real package")

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PROPS:
        d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                 quantifier=dict(over=p.get("over", ["inputs"]), text=p["quant"]),
                 why_tests_cant=p["why"],
                 anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                              observe_at=p.get("observe", []), hook_needed=None))
        f.write(json.dumps(d) + "\n")
na = {k for k, _ in NOT_APPLICABLE}
checks = []
for p in PROPS:
    if p["id"] in na:
        continue
    if not os.path.exists(os.path.join(ROOT, "props", p["id"].lower() + ".py")):
        print("no check for", p["id"])
        continue
    checks.append(dict(property=p["id"], quick_cmd=f"./check {p['id']}", thorough_cmd=f"./check {p['id']} --tier thorough",
                       evidence_file=f"evidence/{p['id']}.json", technique=p.get("technique", TECH), level="model_checking",
                       level_note=p["note"]))
json.dump(dict(version=1, setup_cmd="./check --selftest", checks=checks,
               not_applicable=[dict(property=k, reason=r) for k, r in NOT_APPLICABLE],
               notes="Bounded symbolic verification; the bounds of every check are in its evidence file and in DESIGN.md."),
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(PROPS), "properties", len(checks), "checks")
