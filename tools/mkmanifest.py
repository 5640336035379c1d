#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of claimed properties."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
}
CLAIMED = json.load(open(os.path.join(here, "tools", "claimed.json")))
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
checks = []
for p in props:
    if p not in CLAIMED:
        continue
    checks.append({
        "property": p,
        "quick_cmd": f"./run.sh {p} quick",
        "thorough_cmd": f"./run.sh {p} thorough",
        "evidence_file": f"evidence/{p}.json",
        "technique": CLAIMED[p]["technique"],
        "level": "exploration",
        "level_note": CLAIMED[p]["note"],
    })
m = {
    "version": 1,
    "setup_cmd": "./run.sh --setup",
    "hooks": {
        "guard": "none in /repo: instrumentation is inserted into scratch copies of the sources by sim/instr and reaches the build through `go build -overlay`",
        "enable": "sim/build.sh OUTDIR (run by every check)",
        "source_commits": [],
    },
    "checks": checks,
    "not_applicable": [{"property": p, "reason": NA.get(p, "Planned, no check yet.")} for p in props if p not in CLAIMED],
    "notes": "Repairs of genuine defects are the fix: commits in /repo, listed in known_findings.txt.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
