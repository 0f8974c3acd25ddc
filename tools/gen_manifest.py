#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table of claimed checks below."""
import json, pathlib
root = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(l) for l in open(root / "properties.jsonl")]
TECH = "deterministic simulation with fault injection: seeded scheduler over real threads/tasks, virtual time"
exec(open(root / "tools/claims.py").read())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMS:
        h, note = CLAIMS[i][0], CLAIMS[i][1]
        tech = CLAIMS[i][2] if len(CLAIMS[i]) > 2 else TECH
        checks.append({"property": i, "quick_cmd": f"./check.sh {h} {i} quick", "thorough_cmd": f"./check.sh {h} {i} thorough",
                       "technique": tech, "level": "exploration", "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "not built yet")})
m = {"version": 1, "setup_cmd": "./build.sh", "hooks": HOOKS, "checks": checks, "not_applicable": na}
(root / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "claimed", len(na), "not claimed")
