#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props/*.json (one file per subsystem)."""
import json, glob, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props, checks, na = [], [], []
for f in sorted(glob.glob(os.path.join(root, "tools/props/*.json"))):
    for p in json.load(open(f)):
        m = p.pop("_check", None)
        n = p.pop("_na", None)
        props.append(p)
        if m:
            checks.append({
                "property": p["id"],
                "quick_cmd": f"./check.sh {m['harness']} {p['id']}",
                "thorough_cmd": f"./check.sh {m['harness']} {p['id']}",
                "technique": m.get("technique", "deterministic simulation with fault injection (seeded schedules and faults over the real code)"),
                "level": "exploration",
                "level_note": m["note"],
            })
        else:
            na.append({"property": p["id"], "reason": n})
props.sort(key=lambda p: p["id"]); checks.sort(key=lambda c: c["property"])
with open(os.path.join(root, "properties.jsonl"), "w") as o:
    for p in props:
        assert len(p["title"]) <= 80, p["id"]
        o.write(json.dumps(p) + "\n")
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
  "notes": "No hooks in /repo: the harnesses compile a build-time mirror of the unmodified sources (sim/mirror.py) against simulated std, locks, file system, clock and key-value store. See DESIGN.md."},
  open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(props), "properties,", len(checks), "checks,", len(na), "not applicable")
