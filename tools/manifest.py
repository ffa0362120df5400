"""Writes MANIFEST.json."""
import json
CL = {
 "C01": "histories of constructions over seeded key lists, hash seeds, hasher qualities and misbehaving input iterators, compared with a reference map",
 "C02": "a panic or failed allocation injected at a seeded callback or allocation of a construction; object and allocator ledgers, retry without the fault",
 "C03": "operation histories over up to four live maps, every result and every map's contents compared with a reference map",
 "C04": "a panic or error injected at a seeded callback of a seeded operation, contents of all live collections audited afterwards and along the rest of the history",
 "C05": "get_disjoint_mut with seeded key arrays (repeated, equivalent but unequal, absent) and injected panics; addresses and written values checked",
 "C06": "iterators driven by seeded scripts, cut, cloned, formatted with injected failures and dropped at any point, against a multiset of remaining items",
 "C07": "histories with panics injected in destructors, clones and constructions; every object's birth and death and every allocation recorded",
 "C08": "set algebra between frozen and standard sets under seeded overlap, hash seeds and injected panics, against mathematical sets",
 "C09": "seeded baton scheduler over real threads: context switches at every callback and at single machine instructions inside operations; stalls, panics and re-entry injected; results compared with the result of the same read alone",
 "C10": "serialization and formatting into simulated sinks that fill up, fail or refuse elements at seeded instants; accepted bytes and calls checked",
 "C11": "deserialization from simulated sources with seeded chunking, truncation, corruption, I/O errors, lying size announcements; a reference reader decides",
 "C12": "write, crash (torn image) and restart with another hash seed, read back as another type; contents compared",
 "C13": "clone histories with injected panics and failed allocations; independence and ledgers checked",
 "C14": "the same entries built under different hash seeds, hashers, orders and implementations; same histories must answer alike and compare equal",
 "C15": "self-contradicting trait implementations driven by a seeded adversary; red zones, quarantine, object ledger and address checks",
 "C16": "callback counters and allocator high-water marks against bounds, over seeded key sets and hasher qualities",
 "C17": "collections generated by the macros and the emitter under several build seeds, driven by the same histories, faults and reference model as run-time ones",
}
NA = {
 "C18": "Pure function of one key with no schedule, clock, fault, randomness or history in it; simulating it would be plain input generation.",
 "C19": "A statement about execution speed; the simulator deliberately has no notion of real time, and simulation decides nothing about performance.",
 "C20": "A pure function from macro input to a compiler diagnostic, evaluated at compile time; there is no run to simulate.",
 "C21": "A property of build configurations; each is one deterministic build without schedule or fault. (The simulator itself runs the std+serde configuration.)",
}
import sys
done = sys.argv[1:] or sorted(CL)
na = [{"property": k, "reason": v} for k, v in NA.items()]
for k in sorted(CL):
    if k not in done:
        na.append({"property": k, "reason": "not built yet"})
m = {
 "version": 1,
 "setup_cmd": "bash build.sh",
 "checks": [{
   "property": k,
   "quick_cmd": f"bash check.sh {k} quick",
   "thorough_cmd": f"bash check.sh {k} thorough",
   "evidence_file": f"evidence/{k}.json",
   "technique": "deterministic simulation with fault injection: " + CL[k],
   "level": "exploration",
   "level_note": "Seeded search over simulated runs of the real library code; a clean batch is evidence, not proof. Trusts the simulator's keys, values, hashers, allocator, sinks and reference model; foldhash's two randomness sources are replaced by seeded ones.",
 } for k in done],
 "not_applicable": sorted(na, key=lambda x: x["property"]),
 "notes": "No hooks were needed in /repo: the traits the library calls (keys, values, hashers, iterators, serde), the allocator and the hash crate are the seams. known_findings.txt lists the defects repaired on the way.",
}
open("MANIFEST.json", "w").write(json.dumps(m, indent=1) + "\n")
