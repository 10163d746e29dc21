#!/usr/bin/env python3
"""Writes MANIFEST.json from units.py and properties.jsonl."""
import json, os
from units import PROPS
HERE = os.path.dirname(os.path.abspath(__file__))
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
NA = {}
try:
    from units import NOT_APPLICABLE as NA
except ImportError:
    pass
checks = []
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        checks.append({
            "property": i,
            "quick_cmd": f"python3 check.py {i}",
            "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}",
            "technique": p["technique"],
            "level": "proof",
            "level_note": p["note"] + " Trusted: " + ("; ".join(p["assumes"]) or "nothing beyond the common base") +
                ". Common base: Verus and Z3, the extraction (vx), the assumed standard library contracts listed in the evidence."
                + (" Bounded: " + "; ".join(p["bounded_parts"]) + "." if p.get("bounded_parts") else ""),
        })
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --build",
    "checks": checks,
    "not_applicable": [
        {"property": i, "reason": NA.get(i, "not built yet")} for i in ids if i not in PROPS
    ],
    "notes": "No hooks: the checks extract functions from /repo/src and use only the public API.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
