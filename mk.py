#!/usr/bin/env python3-vt
"""Writes properties.jsonl and MANIFEST.json from proptext.py."""
import json, os
from proptext import PROPS, NA
H = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for p in PROPS + [n["p"] for n in NA]:
        f.write(json.dumps({k: v for k, v in p.items() if k not in ("level_note", "technique", "level")}) + "\n")
m = {"version": 1,
     "setup_cmd": "true",
     "checks": [{"property": p["id"],
                 "quick_cmd": "cd /verif && python3-vt check.py %s quick" % p["id"],
                 "thorough_cmd": "cd /verif && python3-vt check.py %s thorough" % p["id"],
                 "evidence_file": "evidence/%s.json" % p["id"],
                 "technique": p.get("technique") or
                 "contract-based deductive verification: weakest-precondition/symbolic VCs generated from the clang AST of /repo's current source, discharged by z3 and cvc5; executable contracts replay against the real code",
                 "level": p.get("level", "proof"),
                 "level_note": p["level_note"]} for p in PROPS],
     "not_applicable": [{"property": n["p"]["id"], "reason": n["reason"]} for n in NA],
     "notes": "see DESIGN.md; no hooks are used, the verified text is /repo's own source"}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
