#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
T="deterministic simulation with fault injection: seeded search over schedules, entropy and message faults, "
checks={
"C01":("verdict oracle over elections with faulty networks, restarts and steered entropy","honest ballots; candidates, groups, entropy and delivery are sampled"),
"C02":("Byzantine voter strategies against real collectors, plaintext checked with the election key","a library of deviating provers, sampled; forging by breaking discrete logarithms or the hash is out of reach"),
"C03":("message alteration and splicing by the simulated network","every component and kind of change is drawn with known frequency; scalars equal modulo the order count as equal"),
"C04":("message corruption by the simulated network, honest traffic around it","corruptions are sampled; hangs are judged by a statement budget"),
"C05":("statement-level preemption and task death over shared parameters, digests as invariant","interleavings are sampled at statement granularity of the repository's code; the libraries run atomically"),
"C06":("entropy replay and a transparent group that exposes every blinding factor","blinding factors are read where the group is replaced by one with visible logarithms; the proof code is the real one"),
"C07":("entropy failure at every read position reached","read positions and failure shapes are sampled; a panic counts as publishing nothing"),
"C08":("stuck, extreme and steered entropy; own prover for transcripts at the bounds","bounds, sizes and entropy patterns are sampled; progress is bounded at 2000 draws after recovery"),
"C09":("honest and Byzantine provers against the real verifier","sampled values, bit lengths, groups and deviations"),
"C10":("honest and Byzantine provers against the real verifier","sampled secrets, group pairs, sizes and deviations; challenges of 64 bits or more for false statements"),
"C11":("honest, altered and Byzantine aggregated proofs against the real verifier","sampled values, counts, bit lengths, groups and deviations"),
"C12":("relay between parties, damaged encodings, own membership arithmetic","element classes include identity and coordinates with up to three leading zero bytes; the rest is sampled"),
"C13":("concurrent register machines against a model of discrete logarithms and own arithmetic","histories are sampled; tasks only share elements they read"),
"C15":("slow nodes, slow entropy and wall-clock adjustments on simulated clocks, reported times against where the time went","stalls are attributed to the part of the work they happen in by the call stack; the benchmark runs with two iterations instead of a thousand"),
"C14":("repeated, interleaved, killed and restarted set-ups compared within and across processes","histories are sampled; eight processes per check"),
}
na={
"N01":"hiding and zero-knowledge are statements about all efficient distinguishers; no schedule, fault or history makes a violation observable in a run (the observable part, fresh full-width blinding, is C06 to C08)",
"N02":"a hardness assumption about hashing to the group; nothing a simulated run could observe",
"N03":"a pure function of its integer arguments: no concurrency, time, I/O, entropy or other party for it to depend on",
"N04":"real time of single operations; simulated time says nothing about it, and the README disclaims side-channel resistance",
}
m={"version":1,"setup_cmd":"bash setup.sh",
"hooks":{"guard":"none in /repo: seams are added by a build overlay (go build -overlay) that run.sh generates; crypto/rand.Reader is the entropy seam","enable":"run.sh builds /repo's working tree with the overlay from sim/instr","source_commits":[]},
"checks":[{"property":k,"quick_cmd":f"bash run.sh {k} quick","thorough_cmd":f"bash run.sh {k} thorough","evidence_file":f"evidence/{k}.json","technique":T+v[0],"level":"exploration","level_note":"Seeded exploration of the real code under a deterministic scheduler: "+v[1]+". Exact replay from the file a violation names."} for k,v in checks.items()],
"not_applicable":[{"property":k,"reason":v} for k,v in na.items()],
"notes":"See DESIGN.md. run.sh replay FILE reproduces a violation."}
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1)
