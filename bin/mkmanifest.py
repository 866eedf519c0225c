#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl: every property is either checked
by bin/check or listed as not applicable, with the reason."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 "C20": "A pure function of two numbers: no schedule, time, I/O, fault or history can change the outcome, so a simulator has nothing to decide; it would be plain input generation.",
 "C21": "A pure function of one value: no concurrency, time, I/O or fault is involved, so deterministic simulation has nothing to decide.",
 "C22": "A pure relation between values: no schedule, history or fault is involved. (That equality never crashes and is reflexive on decoded values is part of C04; that updates leave values equal to themselves is part of C05.)",
 "C23": "A pure function of one string: no schedule, time, I/O or fault is involved, so deterministic simulation has nothing to decide.",
}
NOTE = {
 "plain": "Seeded search over simulated runs of the real library code in one process per worker; every read, write, delay, stall, crash and entropy draw, and Go's map iteration order, is a recorded choice of the simulator; a violation comes with a minimised replay file that was reproduced twice in fresh processes. Trusts the Go toolchain, the simulator's devices and the reference model; a clean search is evidence, not proof.",
 "coop": "Seeded search over simulated runs of the real library code: goroutines run one at a time and may be preempted between any two statements of the library (yield points added by a build overlay) and at every callback; half of the workers are race-detector builds in which the simulator's own hand-offs are invisible to the detector, so unsynchronised sharing is found from its happens-before relation rather than from luck. A violation comes with a minimised replay file reproduced twice in fresh processes. Trusts the Go toolchain and race detector, the simulator and the reference model; a clean search is evidence, not proof.",
}
COOP = {"C05", "C06", "C08", "C09", "C10", "C11"}
TECH = {
 "C01": "deterministic simulation of byte transports, seeded search, reference MessagePack codec",
 "C02": "deterministic simulation with transport failure and truncation injection, seeded search",
 "C03": "deterministic simulation with write-failure injection, seeded search",
 "C04": "deterministic simulation with data-corruption injection at every decoding entry point, seeded search",
 "C05": "deterministic simulation of goroutine interleavings, seeded search, race detection",
 "C06": "deterministic simulation of optimistic writers with stalls and crashes, linearizability against a reference collection",
 "C07": "deterministic simulation of a replica network with loss, duplication, reordering, partitions and crashes",
 "C08": "deterministic simulation of a hostile network and a failing entropy source, seeded search",
 "C09": "deterministic simulation of goroutine interleavings on first use of types, seeded search, race detection",
 "C10": "deterministic simulation of ownership hand-over with failing update callbacks, reference collection",
 "C11": "deterministic simulation with buffer poisoning at arbitrary points, seeded search, race detection",
 "C12": "deterministic simulation of stalling and resuming stream endpoints, bounded-step liveness, seeded search",
 "C13": "deterministic simulation of a crash-prone disk under a log, seeded search",
}
checks, na = [], []
have = set(os.environ.get("ONLY", " ".join(TECH)).split())
for l in open(os.path.join(root, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p in NA:
        na.append({"property": p, "reason": NA[p]})
    elif p in have:
        checks.append({"property": p, "quick_cmd": "bin/check " + p, "thorough_cmd": "bin/check " + p + " thorough",
            "evidence_file": "evidence/%s.json" % p, "technique": TECH[p], "level": "exploration",
            "level_note": NOTE["coop" if p in COOP else "plain"]})
    else:
        na.append({"property": p, "reason": "its simulated world is not built yet"})
m = {"version": 1, "setup_cmd": "bin/build.sh plain inst race", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: yield points and the seeded runtime randomness come from build overlays made from /repo's current tree on every check (bin/build.sh). bin/replay FILE repeats a reported violation."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
