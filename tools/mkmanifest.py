#!/usr/bin/env python3
# Regenerates MANIFEST.json: CLAIMED lists the properties that have a check.
import json, sys
CLAIMED = {
 "C01": "exploration", "C02": "exploration", "C03": "exploration", "C04": "exploration", "C05": "exploration", "C06": "exploration",
 "C13": "exploration", "C14": "exploration", "C15": "exploration", "C23": "exploration", "C24": "exploration", "C25": "exploration",
 "C21": "exploration", "C22": "exploration", "C10": "exploration", "C11": "exploration", "C12": "exploration",
 "C16": "exploration", "C17": "exploration", "C18": "exploration", "C19": "exploration", "C20": "exploration", "C28": "exploration", "C29": "exploration", "C30": "exploration", "C31": "exploration",
 "C07": "exploration", "C08": "exploration", "C09": "exploration", "C26": "fault_enumeration", "C27": "fault_enumeration",
}
NOTE = {
 "C26": "every system call made under each operation of a workload is a candidate failure; each run fails one or a few of them",
 "C27": "kills and fatal signals at sampled system calls of every operation",
}
BASE = ("the unmodified dunesh binary runs under a deterministic simulator of the kernel (files, processes, pipes, terminal, clock, signals, scheduling); "
        "seeded sampling of workloads, schedules and faults, so a quiet run is evidence and not proof; trusts the simulator's model of Linux and the reference model")
NA = "no schedule, clock, I/O or fault takes part: a pure function of its input, which input generation or proof would decide, not simulation"
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": [], "notes": "No hooks in /repo: the seam is the C library boundary (LD_PRELOAD), so the shipped binary itself is simulated. Replay a violation with: bash check.sh replay FILE"}
for l in open("/verif/properties.jsonl"):
    d = json.loads(l)
    i = d["id"]
    if i in CLAIMED:
        m["checks"].append({"property": i, "quick_cmd": f"bash check.sh {i}", "thorough_cmd": f"bash check.sh {i} thorough", "technique": "deterministic simulation with fault injection: seeded search over workloads, schedules and faults of the real shell process, judged against a reference model",
            "level": CLAIMED[i], "level_note": (NOTE[i] + "; " if i in NOTE else "") + BASE})
    else:
        m["not_applicable"].append({"property": i, "reason": NA if i >= "C40" else "check under construction"})
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
