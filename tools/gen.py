"""Writes properties.jsonl and MANIFEST.json from the table below (python3 tools/gen.py)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from proptable import NOT_APPLICABLE, PROPS

TECH = "bounded symbolic execution of the current Python source with Z3 (SMT, real arithmetic), counterexamples replayed on the jitted code"


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            q = {"id": p["id"], "title": p["title"], "statement": p["statement"],
                 "quantifier": {"over": p.get("over", ["inputs"]), "text": p["quant"]},
                 "why_tests_cant": p["why"],
                 "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                             "observe_at": p.get("obs", []), "hook_needed": None}}
            f.write(json.dumps(q, ensure_ascii=False) + "\n")
    checks = []
    na = {x["property"] for x in NOT_APPLICABLE}
    for p in PROPS:
        if p["id"] in na:
            continue
        checks.append({"property": p["id"], "quick_cmd": f"bash check.sh {p['id']} quick",
                       "thorough_cmd": f"bash check.sh {p['id']} thorough",
                       "technique": p.get("tech", TECH), "level": "model_checking",
                       "level_note": p["note"] + " Trusted: the numpy/numba/scipy stand-ins of nv/, real numbers in place of doubles, Z3. "
                       "A counterexample counts only after it fails on the real jitted code."})
    m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": NOT_APPLICABLE,
         "notes": "No hooks in /repo: the checks load the source of /repo/neutralocean directly. See DESIGN.md."}
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)


main()
