#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
NA = {
 "C18": "Pure function of its input: packed decimals are decoded from a byte slice with no concurrency, time, I/O, fault or multi-party behaviour, and no other part of the library produces or consumes the type, so there is nothing for a scheduler or fault injector to decide.",
 "C19": "A constant table indexed by a number: no concurrency, time, I/O, fault or multi-party behaviour for the property to depend on.",
}
NOTE = {
 "C01": "Oracle: the server model's durable effect log against what Send reported, over all units of work of the run.",
 "C02": "Oracle: every byte the server receives is decoded by an independent decoder and compared with a tree kept by the generator of the unit of work.",
 "C03": "Oracle: responses compared with the server model's replies; also an independent reading of the bytes delivered.",
 "C04": "Oracle: first injected build error against the error returned, and absence of any transport activity; the next unit of work is checked as for C02.",
 "C05": "Oracle: every transport operation is attributed to the call that issues it; no two calls overlap on a connection.",
 "C06": "Oracle: census of open sockets at every step against sends in flight and pool size; none open at the end.",
 "C07": "Oracle: panics, deadlocks, activity of sends after Close, sockets open after Close.",
 "C08": "Oracle: simulated time at return against the deadline; timeouts before the deadline; KF1 is reported as a known finding.",
 "C09": "Oracle: session state at the server and sockets open when an open returns; errors compared with the server's.",
 "C10": "Oracle: every plaintext byte sent over TCP searched for the password and its hashes; challenge responses compared across challenges.",
 "C11": "Oracle: plaintext bytes sent compared with the negotiation request; results of opens against the server's TLS behaviour.",
 "C12": "Oracle: reference reading of the damaged stream; panics; reuse of the connection.",
 "C13": "Oracle: progress within a step bound after the last fault, epilogue sends, blocked tasks during long stalls; KF2 is reported as a known finding.",
 "C14": "Oracle: socket closed when a failed send returns, no later operation on it.",
 "C15": "Oracle: order of hand-backs against order of reuse; dials only when no connection is idle.",
 "C16": "Oracle: fault-free opens succeed; the server model verifies challenge responses with its own implementation.",
 "C17": "Oracle: transaction and isolation level in which the server model executed each statement.",
 "C21": "Oracle: tasks started by library code that are left, with nothing more happening in hours of simulated time, after the last call and after Close.",
 "C22": "Oracle: a happens-before detector (Go's race detector in the simulated process) that sees the library's accesses and its own synchronisation but not the simulator's: what nothing orders is a race in whatever order the run performed it; reported only if it recurs in a fresh process.",
 "C20": "Oracle: misplaced calls and panics injected into callbacks; refusals, transport activity, and the messages received compared with what the callbacks built.",
}
man = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": [],
 "notes": "No hooks are committed in /repo: sim/cmd/instrument rewrites the current sources into a build overlay under /verif/.build."}
for p in props:
    i = p["id"]
    if i in NA:
        man["not_applicable"].append({"property": i, "reason": NA[i]})
        continue
    man["checks"].append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
        "evidence_file": f"evidence/{i}.json", "technique": "deterministic simulation with fault injection (seeded search over schedules and faults)",
        "level": "exploration",
        "level_note": NOTE[i] + " Holds for the seeds explored, with preemption at statement granularity; trusts the simulated network and the server model."})
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
