#!/usr/bin/env python3
"""write MANIFEST.json from contracts/closure.json and properties.jsonl"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
cfg = json.load(open(f"{V}/contracts/closure.json"))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    c = cfg["properties"].get(i)
    if c is None:
        na.append({"property": i, "reason": cfg.get("not_applicable", {}).get(i, "not claimed yet")})
        continue
    lvl = c.get("level", "proof")
    checks.append({
        "property": i,
        "quick_cmd": f"./check {i}",
        "thorough_cmd": f"VERIF_TIER=thorough ./check {i}",
        "evidence_file": f"evidence/{i}.json",
        "technique": c.get("technique", "deductive verification: Verus contracts on the functions extracted from /repo on every run; failing inputs replayed by a bounded witness search"),
        "level": lvl,
        "level_note": c.get("level_note", "every obligation of the functions in contracts/closure.json discharged for all inputs; assumptions and trusted contracts are listed in the evidence"),
        **({"theorems": c["theorems"]} if "theorems" in c else {}),
    })
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "hooks": {"guard": "none", "enable": "no hooks: the checks read and build /repo as it is", "source_commits": []},
    "checks": checks,
    "not_applicable": na,
    "notes": "see DESIGN.md",
}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
open(f"{V}/MANIFEST.json", "a").write("\n")
