#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py. Claimed = harness has a check (tools/claimed.txt)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path.insert(0, here)
sys.dont_write_bytecode = True
from props import P
claimed = [l.strip() for l in open(os.path.join(here, "claimed.txt")) if l.strip()]
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
          "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
          "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                      "observe_at": p["observe"], "hook_needed": None}}, ensure_ascii=False) + "\n")
checks, na = [], []
for p in P:
    if p["id"] in claimed:
        checks.append({"property": p["id"], "quick_cmd": f"bash run.sh {p['id']} quick",
          "thorough_cmd": f"bash run.sh {p['id']} thorough",
          "evidence_file": f"evidence/{p['id']}.json",
          "technique": p["technique"], "level": "exploration",
          "level_note": p["note"] or "Generated-input search against an explicit oracle; establishes the property on the explored cases only (counts in the evidence file). Trusts the oracle code in harness/src and the generators' reach."})
    else:
        na.append({"property": p["id"], "reason": p["na"] or "check not built yet"})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: all checks drive the public API of the crate built from /repo's working tree. Known findings: known_findings.jsonl."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
print(len(P), "properties,", len(checks), "claimed")
