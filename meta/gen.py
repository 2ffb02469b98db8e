#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the property descriptions below."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "meta"))
from props import PROPS, NA

TECH = {
    "vg": "gated value-graph dataflow analysis (global value numbering, random interpretation as disequality witness)",
    "ast": "custom lint over the type-checked syntax tree and call graph",
    "flow": "flow-sensitive dataflow over the type-checked syntax tree",
}


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in PROPS + NA:
            q = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
            q["quantifier"] = {"over": q["quantifier"][0], "text": q["quantifier"][1]}
            q["anchors"] = {"files": p["anchors"][0], "mechanism": [{"name": a, "where": b} for a, b in p["anchors"][1]]}
            f.write(json.dumps(q) + "\n")
    m = {"version": 1, "setup_cmd": "python3 vf/extract.py", "checks": [], "not_applicable": []}
    for p in PROPS:
        m["checks"].append({
            "property": p["id"],
            "quick_cmd": "./check.sh %s quick" % p["id"],
            "thorough_cmd": "./check.sh %s thorough" % p["id"],
            "technique": TECH.get(p["technique"], p["technique"]),
            "level": "other",
            "level_note": p["note"],
        })
    for p in NA:
        m["not_applicable"].append({"property": p["id"], "reason": p["reason"]})
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")

    # the table of planted bugs in DESIGN.md
    rows, S = [], os.path.join(V, "seeded")
    for d in sorted(os.listdir(S)) if os.path.isdir(S) else []:
        j = json.load(open(os.path.join(S, d, "meta.json")))
        rows.append((j["property"], "| %s | %s | %s |" % (d, j.get("caught_by", j["property"]), j["needs"])))
    D = os.path.join(V, "DESIGN.md")
    t = open(D).read()
    a, b = "<!-- planted -->\n", "<!-- end planted -->"
    if rows and a in t:
        t = t[:t.index(a) + len(a)] + "| bug | caught by | needs |\n|-|-|-|\n" + "\n".join(r for _, r in sorted(rows)) + "\n" + t[t.index(b):]
        open(D, "w").write(t)


main()
