#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties."""
import json
CLAIMED = "M01 M02 M03 M04 M05 M06 M07 M08 M09 S01 S02 S03 S04 S05 S06 S07 S08 S09 R01 R02 R03 E01 N02 N03 D01 L01 X01".split()
NA = {
 "N01": "A pure function of its input bytes: no schedule, clock, I/O, fault or interleaving for it to depend on, so there is nothing to simulate. (The simulated devices of M06 and M07 compute CRC and LRC independently, so an error in them shows there.)",
}
NOTE = json.load(open("notes.json"))
checks = []
for p in CLAIMED:
    checks.append({
        "property": p,
        "quick_cmd": f"./check.sh {p} quick",
        "thorough_cmd": f"./check.sh {p} thorough",
        "technique": "deterministic simulation with fault injection: seeded schedule and fault search over the real package, " + NOTE[p][0],
        "level": "exploration",
        "level_note": NOTE[p][1],
    })
props = [json.loads(l)["id"] for l in open("properties.jsonl")]
na = [{"property": p, "reason": NA.get(p, "no check built yet")} for p in props if p not in CLAIMED]
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na},
          open("MANIFEST.json", "w"), indent=1)
