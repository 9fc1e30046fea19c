"""Writes properties.jsonl and MANIFEST.json from the table below and the registered checks."""
import json
import os
import sys
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, ROOT)
from analysis.run import registry
from tools.proptable import PROPS, NA

reg = registry()
props, checks, na = [], [], []
for p in PROPS:
    if p["id"] not in reg:
        print("no check registered for", p["id"], "- left out")
        continue
    props.append({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")})
    checks.append({"property": p["id"],
                   "quick_cmd": "python3 -m analysis.run " + p["id"],
                   "thorough_cmd": "VERIF_TIER=thorough python3 -m analysis.run " + p["id"],
                   "technique": p["technique"], "level": "other",
                   "level_note": p["note"]})
for p in NA:
    props.append({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")})
    na.append({"property": p["id"], "reason": p["reason"]})
props.sort(key=lambda x: x["id"])
for p in props:
    assert len(p["title"]) <= 80, p["id"]
missing = set(reg) - {p["id"] for p in PROPS}
assert not missing, missing
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in props:
        f.write(json.dumps(p) + "\n")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "python3 -m analysis.facts", "checks": checks, "not_applicable": na,
               "notes": "All checks are static: a rustc_private driver dumps the type-checked MIR of /repo's current tree, "
                        "and analysis/ decides rules over it. No code of /repo is run. No hooks in /repo."}, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
