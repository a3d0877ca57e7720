"""Writes /verif/MANIFEST.json: one check per property that has a module in sim/props."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection: seeded search over schedules and faults, replayable by seed and trace"
NOTE = {
    "C01": "format on a simulated file system; FILE judged after every system call and for every power-failure image",
    "C02": "compile/build on a simulated machine; every artefact judged after every system call and for every power-failure image",
    "C03": "exit status against the artefacts at the end, under assembler, network, disk and signal faults and racing editors",
    "C04": "2-4 real tealish processes under a seeded scheduler of their system calls; compared with running alone and serially",
    "C05": "histories and interleavings of API calls, and directory builds in shuffled order, compared with fresh processes",
    "C06": "real threads under a seeded scheduler switching at byte-code level, compared with fresh processes",
    "C07": "asynchronous exceptions at seeded instants of the interpreter, later calls compared with fresh processes",
    "C08": "random call sequences on one compiler object, with failures and interruptions, compared with fresh compilers",
    "C09": "langspec commands against a simulated server and disk, with other commands running meanwhile and afterwards",
    "C10": "phases of faulted runs on one simulated disk, then a clean run compared with a machine without that past",
    "C11": "peers stalling at every stage in simulated time",
    "C12": "the same run on machines differing in hash seed, enumeration order, pid, clock, locale, umask, cwd, path and I/O sizes",
    "C13": "file tree before and after each command under faults",
    "C14": "what reached a failing or slow standard output, compared with undisturbed runs on every content the files had",
    "C15": "system calls, time and status after a signal at a seeded instant",
}
WHY = "A pure function of one input: no schedule, time, I/O, fault or history for a simulation to vary."
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
done = [p for p in props if os.path.exists("%s/sim/props/%s.py" % (V, p.lower()))]
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "checks": [{"property": p, "quick_cmd": "./check " + p, "thorough_cmd": "VERIF_TIER=thorough ./check " + p,
                 "technique": T, "level": "exploration", "level_note": NOTE[p]} for p in done],
     "not_applicable": [{"property": p, "reason": WHY if p >= "C20" else "No check yet."} for p in props if p not in done]}
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
