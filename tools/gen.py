#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path[:0] = [here, root]
from props import PROPS
from checks import CHECKS
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
m = {"version": 1, "setup_cmd": "python3 -c 'import check; check.build_engine()'", "checks": [], "not_applicable": []}
for p in PROPS:
    if p["_na"] or p["id"] not in CHECKS:
        m["not_applicable"].append({"property": p["id"], "reason": p["_na"] or "no check yet"})
        continue
    m["checks"].append({"property": p["id"], "quick_cmd": "python3 check.py %s --tier quick" % p["id"], "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                        "evidence_file": "evidence/%s.json" % p["id"], "technique": "symbolic execution of the compiled headers (LLVM IR) with z3 deciding every branch and assertion; counterexamples replayed natively",
                        "level": "model_checking", "level_note": p["_note"] + "; bounds: " + "; ".join(CHECKS[p["id"]]["bounds"])})
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
from jsonschema import validate
sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for l in open(os.path.join(root, "properties.jsonl")):
    validate(json.loads(l), sch)
validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
for p in PROPS:
    assert len(p["title"]) <= 80, p["title"]
    for fn in p["anchors"]["files"]:
        assert os.path.exists("/repo/" + fn), fn
print(len(PROPS), "properties,", len(m["checks"]), "checks")

import re, glob
d = os.path.join(root, "DESIGN.md"); t = open(d).read()
def put(tag, text):
    global t
    t = re.sub(r"<!-- %s -->.*<!-- /%s -->" % (tag, tag), lambda m: "<!-- %s -->\n%s\n<!-- /%s -->" % (tag, text, tag), t, flags=re.S)
rows = []
for p in PROPS:
    c = CHECKS.get(p["id"])
    if p["_na"] or not c:
        rows.append("### %s %s\n\nNot applicable: %s\n" % (p["id"], p["title"], p["_na"] or "no check yet")); continue
    q = sum(len(h.get("quick", [])) for h in c["harnesses"]); th = sum(len(h.get("thorough", [])) for h in c["harnesses"])
    rows.append("### %s %s\n\n%s. Harness: %s (%d entries quick, %d more thorough). Bounds: %s.%s\n\nWhat tests cannot reach: %s\n" % (
        p["id"], p["title"], p["_note"][0].upper() + p["_note"][1:], ", ".join("`harness/%s.cpp`" % h["file"] for h in c["harnesses"]), q, th, "; ".join(c["bounds"]),
        (" Assumed: " + "; ".join(c["assumptions"]) + ".") if c.get("assumptions") else "", p["why_tests_cant"]))
put("TABLE", "\n".join(rows))
put("FINDINGS", "\n".join("* " + l.strip() for l in open(os.path.join(root, "known-findings.txt")) if l.startswith(("fixed:", "finding:"))))
seeds = []
caught = {}
cf = os.path.join(root, "seeded", "caught.json")
if os.path.exists(cf): caught = json.load(open(cf))
for m in sorted(glob.glob(os.path.join(root, "seeded", "*", "meta.json"))):
    j = json.load(open(m)); n = os.path.basename(os.path.dirname(m))
    seeds.append("| %s | %s | %s | %s |" % (n, j["property"], j["what_it_breaks"], caught.get(n, "not measured")))
put("SEEDED", "| bug | property | what it breaks | reported by |\n|---|---|---|---|\n" + "\n".join(seeds))
open(d, "w").write(t)
