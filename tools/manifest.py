#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and drv/*/conf.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = {}
checks, na = [], []
for p in props:
    c = V + "/drv/%s/conf.json" % p["id"]
    if not os.path.exists(c):
        na.append({"property": p["id"], "reason": NA.get(p["id"], "not claimed yet: its driver is still being built")})
        continue
    conf = json.load(open(c))
    checks.append({"property": p["id"],
        "quick_cmd": "python3 check.py " + p["id"],
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": conf.get("technique", "runtime monitoring: reference-model oracle over generated histories, under AddressSanitizer and UBSan"),
        "level": "exploration",
        "level_note": conf.get("note", "Holds on every execution observed; executions are seeded random histories, so unobserved inputs are not covered.")
            + " Trusts the compiler's sanitizers, libstdc++ as oracle where it is used, and the driver's reference model."})
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
    "notes": "No hooks are needed in /repo: all monitors sit in /verif/drv and observe the public API of the real code compiled with sanitizers."},
    open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
