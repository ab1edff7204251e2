#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json: which properties are claimed and how."""
import json, os, subprocess
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(f"{root}/properties.jsonl")]
exec(open(f"{root}/tools/claims.py").read())
crates = dict(l.split() for l in open(f"{root}/bin/crates.txt") if l.strip())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMS:
        tech, level, note = CLAIMS[i]
        assert i in crates, i
        checks.append({"property": i, "quick_cmd": f"bash bin/check {i}", "thorough_cmd": f"env VERIF_TIER=thorough bash bin/check {i}",
                       "technique": tech, "level": level, "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "no sound check yet")})
m = {"version": 1, "setup_cmd": "bash bin/setup.sh",
     "checks": checks, "not_applicable": na}
if HOOKS: m["hooks"] = HOOKS
json.dump(m, open(f"{root}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
