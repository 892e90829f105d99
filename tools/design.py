"""Writes the generated parts of DESIGN.md (properties, planted changes) from tools/data.py, tools/design.md and seeded/.  python3-vt tools/design.py"""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from data import NA, P  # noqa: E402


def flat(s):
    return " ".join(s.split())


out = [open(os.path.join(ROOT, "tools", "design.md")).read().rstrip(), ""]
for p in P:
    e = {}
    try:
        e = json.load(open(os.path.join(ROOT, "evidence", p["id"] + ".json")))
    except OSError:
        pass
    out += ["### %s %s" % (p["id"], p["title"]), "",
            "* Decided by: " + flat(p["technique"]) + ".",
            "* For: " + flat(p["quant"]) + ".",
            "* Bounds: " + flat(p["note"]),
            "* Why not by tests: " + flat(p["why"]),
            "* Code: " + ", ".join(p["files"]) + ". Check: `checks/%s.py`." % p["id"].lower()]
    if p.get("cost"):
        out += ["* Cost: " + p["cost"]]
    out += [""]
out += ["### Not applicable", ""]
for p in NA:
    out += ["* %s %s: %s" % (p["id"], p["title"], flat(p["reason"]))]
out += ["", open(os.path.join(ROOT, "tools", "design_tail.md")).read().rstrip(), "", "## Planted changes", "",
        "Each was confirmed (builds, stable tests pass, demonstration fails with it and passes without), and then the check of its property was run on it. All listed are caught by the check of their property.", "",
        "| change | property | needs | breaks |", "|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    m = json.load(open(os.path.join(ROOT, "seeded", d, "meta.json")))
    out += ["| %s | %s | %s | %s |" % (d, m["property"], flat(m["needs"]), flat(m["what_it_breaks"]))]
open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(out) + "\n")
