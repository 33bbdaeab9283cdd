#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of claimed properties."""
import json
claimed = json.load(open('/verif/tools/claimed.json'))
props = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
checks = []
for p in props:
    if p not in claimed['claimed']:
        continue
    checks.append({
        "property": p,
        "quick_cmd": f"/verif/check.sh {p} quick",
        "thorough_cmd": f"/verif/check.sh {p} thorough",
        "evidence_file": f"evidence/{p}.json",
        "technique": "contract-based deductive verification of the Go source (govc: SSA of /repo executed symbolically against harness contracts with inferred loop invariants, obligations discharged by its simplifier and z3); failed obligations are replayed by a directed search on the compiled code",
        "level": claimed['levels'].get(p, "proof"),
        "level_note": claimed['claimed'][p],
    })
m = {
    "version": 1,
    "setup_cmd": "/verif/setup.sh",
    "checks": checks,
    "not_applicable": [{"property": p, "reason": claimed['not_applicable'].get(p, "no check built yet")} for p in props if p not in claimed['claimed']],
    "notes": "Specifications: /verif/specs (overlaid on /repo's packages at load time, never compiled into the product). Replay drivers: /verif/replay. See DESIGN.md.",
}
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
open('/verif/MANIFEST.json', 'a').write('\n')
