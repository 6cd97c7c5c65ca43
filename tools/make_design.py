"""Write DESIGN.md: prose from here, per-property rows from the modules and properties.jsonl, seeded table from seeded/."""
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
head = open(os.path.join(V, "tools", "design_head.md")).read()
tail = open(os.path.join(V, "tools", "design_tail.md")).read()
ORACLE = json.load(open(os.path.join(V, "tools", "oracles.json")))
out = [head, "\n## Per property\n"]
for p in props:
    m = importlib.import_module("rvmon.props." + p["id"].lower())
    o = ORACLE[p["id"]]
    out.append("### %s %s\n\n" % (p["id"], p["title"]))
    out.append("- Workload: %s\n" % m.RULE)
    out.append("- Oracle: %s\n" % o["oracle"])
    out.append("- Bounds: %s\n" % ("; ".join(getattr(m, "ASSUMPTIONS", [])) or "none beyond the workload"))
    out.append("- Beyond the tests: %s\n" % o["why"])
    out.append("- Cost: %s\n" % o["cost"])
    out.append("- Monitors that must be reached (else inconclusive): %s\n\n" % ", ".join("%s>=%d" % kv for kv in getattr(m, "REQUIRED", {}).items()))
out.append(tail)
tab = os.path.join(V, "tools", "seeded_results.json")
if os.path.isfile(tab):
    res = json.load(open(tab))
    out.append("\n## Planted bugs and the checks that catch them\n\n| id | property | what it breaks | needs | caught by |\n|---|---|---|---|---|\n")
    for d in sorted(os.listdir(os.path.join(V, "seeded"))):
        meta = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
        out.append("| %s | %s | %s | %s | %s |\n" % (d, meta["property"], meta["what_it_breaks"], meta["needs"], res.get(d, "not run")))
open(os.path.join(V, "DESIGN.md"), "w").write("".join(out))
