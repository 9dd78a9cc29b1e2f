#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, subprocess, os
R = os.path.dirname(os.path.abspath(__file__))
TECH = "deterministic simulation with fault injection: seeded search over schedules and faults"
LEVELS = {
 "C01": "seeded random and PCT-style schedules at basic-block granularity over 2-4 threads and generated FSTs; oracle: executable model of the weighted language",
 "C02": "seeded access orders, cache kinds (incl. a forgetful one and user clears), mid-exploration clones; oracle: executable model of the weighted language",
 "C03": "seeded schedules of 2-4 threads over every cache kind; histories checked by a linearizability checker against a map model",
 "C04": "seeded schedules of 2-4 threads over StateTable incl. cloning and serialising it; histories checked against an interning model",
 "C05": "seeded schedules of expanding threads against a snapshot writer on a simulated disk with faults and process death; oracle: language model plus everything answered before the write began",
 "C06": "seeded objects of every file format written to a simulated disk with short, interrupted, failing and full-disk writes, by one or several threads; read back and compared",
 "C07": "files cut at seeded points and read under short, interrupted and failing reads; oracle: the stored object or an error",
 "C08": "seeded storage damage to files of every format; panic, abort, loop and memory detection by the simulator",
 "C09": "each generated input run in three simulated processes with seeded hash keys; results compared with each other and with an executable model of the weighted language",
 "C10": "each generated input and configuration run in several simulated processes with entropy of their own, by one or more interleaved threads on one (static or lazy) input; results compared with each other, with the paths of the input and with the expected shares",
 "C11": "seeded schedules of 1-3 threads over lazy FSTs whose inputs and operations fail or panic on seeded calls, plus calls for unknown states; afterwards every answer and the whole automaton compared with the failure-free one and the language model",
 "C12": "seeded schedules of 1-3 threads calling the C interface on own, exchanged and shared handles, with failing calls, failing files and wrong kinds of handles; every message, out-pointer and handle compared with the thread's own history and with the library's operation on a mirror",
 "C13": "seeded schedules of 1-4 threads cloning, sharing rows and symbol tables, converting and changing FSTs; every copy compared with its own history and with a copy that shares nothing",
 "C15": "the program's own main() in simulated processes on a simulated disk with seeded faults, three times per command; exit status, output, input and report files compared with the library operation the command names",
 "C14": "seeded schedules over mixed operations on shared objects; deadlock and bounded-progress detection in the simulated scheduler",
}
NA = {
 "C16": "pure functions of their arguments: no schedule, I/O, time, randomness or fault for a simulator to vary",
 "C17": "pure functions of their input FST without hash iteration, I/O or threads; the simulator has nothing to decide (their hash-dependent relatives are C09)",
 "C18": "property bits are computed by pure functions from the FST; nothing depends on schedule, faults or entropy",
 "C19": "needs the OpenFst implementation, which is not installed here; the file format itself is a pure function",
 "C20": "sequential pure data structure; its concurrent use is C13, its files are C06-C08",
}
props = [json.loads(l) for l in open(R + "/properties.jsonl")]
checks = []
for p in props:
    i = p["id"]
    if i in LEVELS:
        checks.append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"./check.sh {i} thorough",
                       "technique": TECH, "level": "exploration", "level_note": LEVELS[i]})
na = [{"property": p["id"], "reason": NA.get(p["id"], "check not built yet")} for p in props if p["id"] not in LEVELS]
m = {"version": 1, "setup_cmd": "./build.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(R + "/MANIFEST.json", "w"), indent=1)
