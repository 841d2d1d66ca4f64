#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of properties below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

SYNC = ("Seeded simulation of the real sessions of all parties in one process: the seed decides the protocol, every "
        "step of every party, delivery, faults and misbehaviour; a violation is minimised to a replayable list of "
        "choices. Shows absence of violations in the explored runs only; trusts the keyed-hash signature stub and the "
        "reference model in the harness.")
ASYNC = ("Seeded simulation of the real async drivers on the real tokio runtime (a copy with a seam: which task runs "
         "next, which select branch is tried first, when blocking workers run) with virtual time. Shows absence of "
         "violations in the explored schedules only; preemption inside a synchronous section is not simulated.")
CLAIMED = {
    "P01": SYNC, "P02": SYNC, "P03": SYNC, "P04": SYNC, "P05": SYNC, "P06": SYNC, "P07": SYNC, "P08": SYNC,
    "P09": SYNC, "P10": SYNC, "P11": SYNC, "P12": SYNC, "P13": SYNC, "P18": SYNC, "P19": SYNC,
    "P21": SYNC, "P22": SYNC, "P23": SYNC, "P30": SYNC, "P31": SYNC,
}
EXTRA = os.path.join(root, "tools", "claimed_async.txt")
if os.path.exists(EXTRA):
    for l in open(EXTRA):
        if l.strip():
            CLAIMED[l.strip()] = ASYNC
NA = {}
m = {
    "version": 1,
    "setup_cmd": "./check.sh build",
    "checks": [
        {
            "property": p,
            "quick_cmd": f"./check.sh check {p}",
            "thorough_cmd": f"./check.sh check {p} --tier thorough",
            "evidence_file": f"evidence/{p}.json",
            "technique": "deterministic simulation with fault injection (seeded search over schedules and faults)",
            "level": "exploration",
            "level_note": note,
        }
        for p, note in sorted(CLAIMED.items())
    ],
    "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NA.items())],
    "notes": "No hooks in /repo: the seams used (message passing, RNG, signer, wire format, channels, runtime) are public "
             "API; tokio is a vendored copy in /verif/vendor with a scheduling seam. Known defects: known_findings.txt.",
}
listed = {json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))}
for p in listed - set(CLAIMED) - set(NA):
    m["not_applicable"].append({"property": p, "reason": "no check yet"})
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
