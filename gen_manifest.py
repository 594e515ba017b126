#!/usr/bin/env python3
"""writes MANIFEST.json from units.py (developer convenience; the output is committed)"""
import json, os
from units import PROPS, NOT_APPLICABLE
V = os.path.dirname(os.path.abspath(__file__))
checks = []
for pid, p in sorted(PROPS.items()):
    checks.append({
        "property": pid,
        "quick_cmd": f"python3 check.py {pid} quick",
        "thorough_cmd": f"python3 check.py {pid} thorough",
        "evidence_file": f"evidence/{pid}.json",
        "technique": p.get("technique", "contract-based deductive verification: Verus contracts on functions extracted from /repo on every run; executable oracle on the real crates supplies failing inputs"),
        "level": p.get("level", "proof"),
        "level_note": p["note"],
        "theorems": p.get("theorems", []),
    })
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "hooks": {"guard": "cfg(decy_verif)", "enable": "none needed: the checks use only public items of /repo's crates, and extract private functions as text", "source_commits": []},
    "checks": checks,
    "not_applicable": [{"property": k, "reason": r} for k, r in NOT_APPLICABLE],
    "notes": "Each check extracts the functions a property depends on from /repo's working tree (extract/), splices in the contracts of verus/*.vrs and has Verus discharge every obligation; harness/ runs the real crates to find a failing input for a failed obligation.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
