#!/usr/bin/env python3
"""DESIGN.md = tools/design_head.md + per-property sections from the check modules + tools/design_tail.md + planted bugs"""
import glob, importlib, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "checks"), os.path.join(V, "engine")]
exec(open(os.path.join(V, "tools/levels.py")).read())
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
man = json.load(open(os.path.join(V, "MANIFEST.json")))
out = [open(os.path.join(V, "tools/design_head.md")).read()]
w = out.append
w("## 4. Properties\n")
for p in props:
    i = p["id"]
    if i not in CHECKS:
        continue
    m = importlib.import_module(i.lower())
    w("### %s %s\n" % (i, p["title"]))
    w("*Code:* %s. *Quantifier:* %s." % (", ".join("`%s`" % f for f in p["anchors"]["files"]), p["quantifier"]["text"]))
    w("*How:* " + m.EXPLANATION)
    w("*Obligations* (per path, call site or loop iteration):")
    for k, v in m.RULES.items():
        w("- `%s`: %s" % (k, v))
    w("\n*Bounds:* %s. *Assumes:* %s." % (CHECKS[i][1], "; ".join(m.ASSUMPTIONS)))
    w("*Out of the tests' reach because:* %s\n" % p["why_tests_cant"])
w("## 5. Not applicable\n")
for x in man["not_applicable"]:
    w("- **%s** %s: %s" % (x["property"], next(p["title"] for p in props if p["id"] == x["property"]), x["reason"]))
w("")
w(open(os.path.join(V, "tools/design_tail.md")).read())
w("| planted bug | property | needs | check |\n|---|---|---|---|")
for d in sorted(glob.glob(os.path.join(V, "seeded/*/meta.json"))):
    j = json.load(open(d))
    w("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), j["property"], j["needs"].replace("|", "/").replace("\n", " "), j.get("caught_by", "caught by " + j["property"])))
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out) + "\n")
