"""Rewrite MANIFEST.json from the check modules: python vp/manifest.py"""

import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from vp import engine  # noqa: E402

TECHNIQUES = {}


def main():
    checks = []
    missing = []
    for line in open(os.path.join(engine.VERIF, "properties.jsonl")):
        cid = json.loads(line)["id"]
        try:
            check = engine.load_check(cid)
        except ModuleNotFoundError:
            missing.append({"property": cid, "reason": "The check has not been written yet."})
            continue
        checks.append(
            {
                "property": cid,
                "quick_cmd": f"./check {cid}",
                "thorough_cmd": f"./check {cid}",
                "evidence_file": f"evidence/{cid}.json",
                "technique": getattr(check, "TECHNIQUE", "stateful property-based testing against built-in containers"),
                "level": check.LEVEL,
                "level_note": check.RULE + " Assumes: " + " ".join(getattr(check, "ASSUMPTIONS", []) or ["nothing further."]),
            }
        )
    manifest = {
        "version": 1,
        "setup_cmd": "true",
        "checks": checks,
        "not_applicable": missing,
        "notes": "Every check imports the library from the working tree of /repo without using cached byte code. "
        "No hooks were added to /repo; its commits only repair defects. See DESIGN.md.",
    }
    with open(os.path.join(engine.VERIF, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")


main()
