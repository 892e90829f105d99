"""Writes properties.jsonl and MANIFEST.json from tools/data.py.  python3-vt tools/props.py"""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from data import NA, P  # noqa: E402

TRUST = "Trusted: the analyser's reading of Python and numpy (sa/interp.py, sa/equiv.py), the rules and specification functions written down for this repository."


def main():
    lines, checks, na = [], [], []
    for p in P + NA:
        assert len(p["title"]) <= 80, p["id"]
        d = {"id": p["id"], "title": p["title"], "statement": " ".join(p["statement"].split()),
             "quantifier": {"over": p["over"], "text": " ".join(p["quant"].split())},
             "why_tests_cant": " ".join(p["why"].split()),
             "anchors": {"files": ["src/diffpy/srmise/" + f for f in p["files"]],
                         "mechanism": [{"name": n, "where": "src/diffpy/srmise/" + w} for n, w in p["mech"]]}}
        lines.append(json.dumps(d))
        if p in NA:
            na.append({"property": p["id"], "reason": " ".join(p["reason"].split())})
        else:
            assert os.path.exists(os.path.join(ROOT, "checks", p["id"].lower() + ".py")), p["id"]
            checks.append({"property": p["id"], "quick_cmd": "python3-vt run.py " + p["id"],
                           "thorough_cmd": "VERIF_TIER=thorough python3-vt run.py " + p["id"],
                           "technique": " ".join(p["technique"].split()), "level": "other",
                           "level_note": " ".join(p["note"].split()) + " " + TRUST})
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        f.write("\n".join(lines) + "\n")
    man = {"version": 1, "setup_cmd": "python3-vt -m compileall -q sa checks specs run.py >/dev/null 2>&1 || true", "checks": checks, "not_applicable": na,
           "notes": "Static analysis of /repo's current source; nothing of diffpy.srmise is imported or run by a check. VERIF_REPO selects another tree (default /repo)."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    print(len(checks), "claimed,", len(na), "not applicable")


main()
