"""Writes DESIGN.md: tools/design_head.md, one section per property, tools/design_tail.md."""
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path[:0] = [HERE, ROOT]
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
from table import NOT_APPLICABLE, PROPS  # noqa: E402
from design_oracles import COST, ORACLE  # noqa: E402

out = [open(os.path.join(HERE, "design_head.md")).read().rstrip(), "", "## The properties", ""]
na = dict(NOT_APPLICABLE)
for p in PROPS:
    i = p["id"]
    out += [f"### {i} {p['title']}", "", p["statement"], ""]
    if i in na:
        out += [f"*Not applicable:* {na[i]}", ""]
        continue
    m = importlib.import_module("props." + i.lower())
    out += ["* **Decided how, against what:** " + ORACLE[i],
            "* **Code executed symbolically:** " + "; ".join(m.ENCODED) + ".",
            "* **Bounds:** " + m.BOUNDS + ".",
            "* **Outside:** " + m.OUTSIDE + "."]
    if getattr(m, "ASSUMPTIONS", None):
        out.append("* **Assumed:** " + "; ".join(m.ASSUMPTIONS) + ".")
    out += ["* **Cost (quick):** " + COST[i] + ".", "* **Beyond the tests:** " + p["why"], ""]
import json  # noqa: E402
seeds = ["| id | check | what it breaks | needs |", "|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    j = json.load(open(os.path.join(ROOT, "seeded", d, "meta.json")))
    seeds.append(f"| {d} | {j['property']} | {j['what_it_breaks']} | {j['needs']} |")
tail = open(os.path.join(HERE, "design_tail.md")).read().rstrip().replace("@@SEEDS@@", "\n".join(seeds))
out += [tail, ""]
open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(out))
