#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of claims below."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
CLAIMED = {
 "C01": "seeded simulation of users, issuers, network and disks (drop, duplicate, reorder, partition, crash/restore, entropy faults); liveness within a bounded number of exchanges after faults stop",
 "C02": "seeded simulation with an active network adversary and attack library against issuers; history check: accepted implies genuinely shown; proof and MAC engines against reference implementations",
 "C03": "seeded simulation with adversarial credential holders and roster-proof tampering; history check against recorded presentations; proof engine with weakened-transcript forgeries",
 "C04": "seeded simulation with adversarial network and fake issuers; history check: installed implies genuinely issued to this number; proof engine with weakened-transcript forgeries",
 "C05": "seeded fault injection (rejections, entropy failing at every draw) with byte-exact state comparison after every operation",
 "C06": "seeded crash/restore and disk-damage injection over every stored type and encoding; damaged parties are attacked",
 "C07": "seeded injection of corrupt, truncated, spliced and invented bytes into every decoder and operation of all interfaces, arguments against guard pages, runs in child processes; parties must keep serving",
 "C08": "seeded histories of presentations with restarts and repeated requests under a simulated entropy source; linkage tests over the recorded history with the blindings recovered from the secrets",
 "C09": "seeded entropy faults (stuck, repeating, rolled back, either source or both); the simulator, knowing all secrets, recovers every proof's blindings and tests for reuse, constancy and extractability",
 "C10": "seeded call sequences against the C interface with guard-paged arguments, poisoned heap, failing allocations and simulated threads; results re-read after every later call and compared with Rust",
 "C11": "seeded simulation of mixed populations (Rust raw/bincode/JSON, C, JavaScript, reference implementation, earlier release's data) with tampering; verdict and byte agreement",
 "C12": "seeded setups on simulated nodes of every interface with misbehaving entropy sources and aborted attempts; agreement with a reference model and soundness of the result",
 "C13": "seeded thread scheduler (one runnable thread, switches at every function entry, allocation and entropy draw; PCT and random) with injected aborts; every result compared with the same operation run alone",
 "C14": "seeded simulation over families of confusable numbers through all interfaces and every protocol step; history check",
 "C15": "seeded sessions of blinded issuance with tampering, splicing and forgeries on weakened transcripts; verdicts against the reference implementation",
 "C16": "seeded histories with aborts at every entropy draw under an allocator that inspects every block as it is released",
 "C18": "seeded histories of genuine, hostile and aborted operations on all interfaces under an allocator that meters each operation, with entropy and allocation failing part way",
}
NOTE = "Seeded search over schedules, faults and attacks on the real code; finding nothing is evidence, not proof. Trusts the curve, transcript and serialisation crates and the reference model (sim/src/refimpl.rs); rand, wasm-bindgen, network, disks, allocator and thread scheduling are simulated."
EXTRA = {}
NA = {
 "C17": "Constant time is a property of machine-level timing and memory access, which a deterministic simulation that owns the clock and the schedule does not exhibit; nothing in this family of technique can observe it.",
}
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "./check.sh build", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: every seam is reached from outside (a vendored stand-in for rand via [patch], a host stand-in for wasm-bindgen, a global allocator, symbol-level malloc). Replay a failure with ./check.sh replay FILE."}
for p in props:
    i = p["id"]
    if i in CLAIMED:
        m["checks"].append({"property": i, "quick_cmd": "./check.sh %s quick" % i, "thorough_cmd": "./check.sh %s thorough" % i,
                            "technique": "deterministic simulation with fault injection: " + CLAIMED[i], "level": "exploration", "level_note": EXTRA.get(i, "") + NOTE})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "Not yet covered.")})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
