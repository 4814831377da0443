"""Writes MANIFEST.json from properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
    "C01": "deterministic simulation: seeded multi-client array histories with injected faults against a reference array",
    "C02": "deterministic simulation: seeded pairs of construction histories, equality compared with a reference",
    "C03": "deterministic simulation: seeded histories over simulated hash seeds, enumeration compared with a reference",
    "C04": "deterministic simulation with fault injection: allocation failures, panicking callers and misuse inside every array operation, old-or-new check and retry",
    "C05": "deterministic simulation: seeded interning histories over several tables and hash seeds against a reference table",
    "C06": "deterministic simulation with fault injection: allocation failures at every allocation of interning and cloning",
    "C07": "deterministic simulation with fault injection: interleaved clients of one shared word store against a reference store",
    "C08": "deterministic simulation with fault injection: in-place update histories with abandoned and refused updates against a reference value",
    "C09": "deterministic simulation with fault injection: crash/restart and disk faults while snapshots are written and read, twin execution after recovery",
    "C10": "deterministic simulation: seeded thread schedules with compiler-inserted pre-emption points, every result compared with a pristine process",
    "C11": "deterministic simulation with fault injection: storage faults between writing and reading numerals against a reference reader",
    "C12": "deterministic simulation: seeded collection histories over hash seeds against a reference map",
    "C13": "deterministic simulation with fault injection: ledger of the simulated allocator over seeded histories",
    "C14": "deterministic simulation with fault injection: seeded register-machine programs with refused allocations, retries, checkpoints and crashes against a reference machine",
}
N = {
    "C09": " Formats: JSON (text, value tree), CBOR, bincode; JSON cannot represent maps with keys above 64 bits, those arrays are not written as JSON.",
    "C10": " Schedules are sampled at compiler-inserted pre-emption points (sequentially consistent executions; weak-memory reorderings are not simulated). Send and Sync are probed at compile time.",
    "C05": " Two known findings (is_zero/is_one above 64 bits) are listed in known_findings.txt.",
    "C12": " One known finding (Borrow is unimplemented) is listed in known_findings.txt.",
    "C14": " Data flow, failures and restarts are explored by seeded search; the values are sampled (biased to word boundaries, carries and signs), not enumerated.",
    "C13": " The bound for sparse storage is a generous constant (16 table entries per element plus 4 KiB), so only growth unrelated to the contents is reported.",
}
R = "A pure function of its arguments: no schedule, clock, I/O, randomness, callback, allocation failure or other party can influence whether it holds, so there is nothing for a simulator to control or to inject; deciding it is a matter of enumerating inputs, which is another technique. What simulated programs observe of it, with failures and restarts between the steps, is decided by C14. "
NA = {
    "C20": R + "(That arithmetic gives the same result under all schedules, histories and failures is decided by C10.)",
    "C21": R + "(One defect found while simulating is repaired, see known_findings.txt.)",
    "C22": R + "(One defect found while reading is repaired, see known_findings.txt.)",
    "C23": R + "(One defect found while reading is repaired, see known_findings.txt.)",
    "C24": R,
    "C25": R + "(Non-canonical values produced along histories are also seen by C01, C08, C11 and C12, which compare all words.)",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
assert set(ids) == set(T) | set(NA), set(ids) ^ (set(T) | set(NA))
m = {
    "version": 1,
    "setup_cmd": "python3 bin/check.py setup",
    "checks": [{
        "property": p,
        "quick_cmd": "python3 bin/check.py run %s quick" % p,
        "thorough_cmd": "python3 bin/check.py run %s thorough" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": T[p],
        "level": "exploration",
        "level_note": "Seeded search over simulated executions of the real library code in debug and release builds; nothing is proved. Trusts the reference model in sim/harness, "
                      "the simulation runtime in sim/rt and the compiler." + N.get(p, ""),
    } for p in ids if p in T],
    "not_applicable": [{"property": p, "reason": NA[p]} for p in ids if p in NA],
    "notes": "No hooks in /repo: allocator, hash keys, clock, threads (compiler-inserted callbacks) and caller-supplied conversions are seams that exist from outside. "
             "Replay a violation with: python3 bin/check.py replay FILE. Determinism of the simulator: python3 bin/check.py selftest.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
