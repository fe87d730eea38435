#!/usr/bin/env python3
# Writes MANIFEST.json.
import json, os
CLAIMED = "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19".split()
NA = {
 "C20": "key encoding is a pure function of its arguments: no schedule, clock, I/O or fault can change its answer, so there is nothing for a simulator to decide. Its effect on what tables and indexes return is searched as input variety by C03, C04 and C18.",
 "C21": "serializing a record is a pure function of the record (the pools it uses are exercised under concurrency by C06); nothing for a simulator to decide. Rows of every simulated table pass through the three serializers in all other checks.",
}
BUILDING = "not built yet"
note = {}
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.join(here, "../..")
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
base = ("Seeded random search, not exhaustive: real bond, bloom, Pebble, serializers and (where used) net/http code in one process under a simulated scheduler, "
        "clock, randomness and file system; violations come with a minimised replay file that reproduces exactly. Trusts the simulated disk's model of POSIX durability and the reference model; "
        "runs with single-statement preemption inside bond only.")
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": []}
for i in ids:
    if i in CLAIMED:
        m["checks"].append({"property": i, "quick_cmd": "./check.sh %s 45" % i, "thorough_cmd": "./check.sh %s 780" % i,
            "technique": "deterministic simulation with fault injection (seeded schedule and fault search)", "level": "exploration",
            "level_note": note.get(i, "") + base})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, BUILDING)})
m["notes"] = "No hooks in /repo: the seams are the Go toolchain's overlay (runtime, time, syscall, os, net, bond instrumented at build time) and Pebble's vfs; /repo carries fix commits only (known_findings.txt)."
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
