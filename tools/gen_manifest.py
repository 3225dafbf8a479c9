#!/usr/bin/env python3
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DST = "deterministic simulation with fault injection: "
C = {}
def c(pid, tech, note): C[pid] = (tech, note)
c("C01", "seeded scheduler over the real change feed, per-consumer history checked against a keyed-latest model", "Seeded search, no bound proof. Real shareable_cache and protobuf messages; simulated threads, locks and condition variables (spurious wake-ups, stalls), sequentially consistent memory.")
c("C02", "seeded scheduler, bounded-progress check after the last publication", "Seeded search. Progress is judged at quiescence under fair scheduling, so a stall is exact, not a timeout.")
c("C03", "real recorder and services over a simulated network; stream completion checked at quiescence", "Seeded search. gRPC is a stub (handler thread per call, bounded window, disconnects); clients keep reading or disconnect before the recorder is destroyed.")
c("C04", "seeded scheduler over stoppable threads and stop flags with stop/move/join/detach placed anywhere", "Seeded search; real stop flag and thread wrapper, simulated threads.")
c("C05", "seeded scheduler with vector-clock race detection, exact use-after-free and deadlock detection", "Seeded search over instrumented accesses; sequentially consistent memory, races judged by happens-before.")
c("C06", "simulated clients replay the recorded streams; result compared with the live graph at quiescence", "Seeded search; one graph thread as the library requires, oracle walks the real graph through its public interface.")
c("C07", "random graph histories over seeded heap placement, address reuse and allocation failures; every read compared with a reference model and with the same expression rebuilt", "Seeded search. Notification order is decided by simulated addresses; values are judged within propagated rounding bounds.")
c("C08", "random rewiring histories of bare and real nodes, with rewiring inside callbacks; links compared from both ends with a reference relation after every operation", "Seeded search. Registered positions are read off notifications; heap ledger proves observers alive; minimal observers derive from the library's own bases.")
c("C09", "random destruction points in random graph histories over a seeded poisoned heap; survivors, victims and leaks judged by the heap ledger", "Seeded search under AddressSanitizer with quarantine by the simulated heap.")
c("C11", "random freeze/thaw histories; frozen values pinned, thawed values compared with a reference model", "Seeded search; graph growth, merging, moves and destruction while frozen included.")
c("C20", "random graph histories under seeded heap placement and address reuse; written list compared with the live graph after every operation", "Seeded search; real recorder, CSV text compared in all output modes with the links of live nodes.")
c("C15", "models saved through a system-call level fault injector (failed, short, interrupted and refused opens, writes, syncs, closes and renames, full disks); every reported success is read back and compared bit for bit", "Seeded search. Real model, protobuf, stream and libc code; only the kernel's answers are simulated.")
c("C16", "crashes before, inside and after every storage call and power-loss images of the simulated disk; surviving file compared with the old and the new state", "Seeded search. Power loss keeps synced data and a seeded torn, reordered or lost subset of the rest.")
c("C17", "seeded damage of model files and failing reads during loads; every value loaded is compared with what was saved, targets must keep their contents when a load is refused", "Seeded search under AddressSanitizer; damaged contents may be missing but never wrong.")
c("C18", "random save/load histories of several models, labels and files with crashes and faults in between; every label compared with a reference store", "Seeded search; bit patterns including NaN payloads, infinities and denormals.")
c("C10", "random histories of whole models (steps, predictions, saves, loads, copies, moves, failing allocations); every step compared with plain-number backpropagation from the parameters read just before it", "Seeded search over histories, heap placement and allocation failures; 1e-9 relative tolerance.")
c("C21", "random store/train/act histories with uniquely marked experiences; batches, intervals, capacity and steps compared with a reference agent", "Seeded search over histories, generator seeds and allocation failures.")
c("C22", "random copy/move/assign/destroy histories of every model kind over a seeded poisoned heap; parameters and predictions of all models compared after every operation", "Seeded search under AddressSanitizer.")
c("C23", "random histories of acting, training, loads, copies, moves and failing allocations; each action compared with the scores of the same observation, exploration rates with the schedule", "Seeded search; once exploration has ended the greedy choice is exact, before that rates are judged with Bernstein bounds so that a sound agent does not alarm.")
c("C12", "the same seeded program run in simulated worlds that differ in heap layout, address reuse, clock behaviour and what the process did before seeding; bitwise transcripts compared", "Seeded search over programs and worlds; random graphs, training, acting, saving, contrastive divergence and pretraining.")
c("C13", "random histories of draws interleaved with reseeding, uuid creation, clock jumps and graph work; every draw checked for range, freshness, support and moments", "Seeded search; moment limits at 8 standard errors so that a sound stream does not alarm.")
c("C14", "identifiers created in random histories under frozen, jumping and backward simulated clocks, reseeding and forced address reuse; all identifiers of the execution compared", "Seeded search; GUI client identifiers are read at a stub of the transport.")
c("C19", "memory refused at seeded requests of random tensor and leaf histories over four allocators; a ledger of every block and an unfailed twin decide", "Seeded search over histories and refusal points; retries compared with the same operation on a clone that was never refused.")
NA = {
 "C30": "pure function of its input tensors: no schedule, time, I/O, randomness or fault can change it, so simulation decides nothing a plain comparison would not",
 "C31": "pure function of the expression and the leaf values; no nondeterminism for a simulator to control",
 "C32": "pure function of two matrices; no nondeterminism for a simulator to control",
 "C33": "pure shape arithmetic; no nondeterminism for a simulator to control",
}
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 tools/build.py",
 "checks": [{"property": p, "quick_cmd": "./check %s quick" % p, "thorough_cmd": "./check %s thorough" % p,
   "evidence_file": "evidence/%s.json" % p, "technique": DST + C[p][0], "level": "exploration", "level_note": C[p][1]} for p in props if p in C],
 "not_applicable": [{"property": p, "reason": NA.get(p, "check still being built")} for p in props if p not in C],
 "notes": "No hooks in /repo: every seam is existing (templates, link-time and compile-time interposition). One seed is one run; ./check <id> prints the replay file of a violation; build/<flavour>/sim --replay FILE [--trace] repeats it."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
