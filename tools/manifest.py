#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the tables below."""
import json,sys,os
d=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(d+'/properties.jsonl')]
T="deterministic simulation with fault injection"
LV={
"C01":("exploration","Seeded search: each analysis and stage call is re-executed in simulated environments that differ in everything the caller does not pass (hash keys, heap addresses and contents, CPU count, environment, free-list order) and compared bit for bit with a reference execution. Trusts the simulator's seams (DESIGN.md); samples inputs and environments."),
"C02":("exploration","Seeded search over preemptive interleavings at every control-flow edge, atomic access, lock and allocation of the real code, compared call by call with the same calls made alone. Interleavings are sequentially consistent; weak-memory reorderings are not simulated."),
"C03":("exploration","Seeded search over call histories (orders, repeats, neighbours, failures in between) in one process, each call compared bit for bit with the same call in a fresh process."),
"C04":("fault_enumeration","Aborts (failing allocation, panicking log sink) placed at seeded points of calls, in sequence and concurrently, and every later or concurrent call compared with its undisturbed result. Every allocation and log record of a call can be an abort point; points are drawn by seed, not all enumerated in one quick run."),
"C05":("exploration","Seeded monotonic leaps, real-time steps, rate changes and stalls injected at control-flow edges inside calls; results compared with an undisturbed run and the reported processing time with the simulated time that passed."),
"C06":("exploration","Seeded log levels, level changes mid-call, slow or re-entrant sinks, debug track settings and failing stderr writes; results compared bit for bit with a silent run."),
"C07":("exploration","Seeded damage (loss, duplication, reordering, bit flips, byte shifts, truncation, wrong rate, NaN/Inf/extreme samples) on streams and intermediate spectra; any panic, abort or signal is a violation. Integer overflow checks are on."),
"C08":("exploration","Every result returned under seeded damage and configurations is checked against a fixed list of well-formedness rules."),
"C09":("exploration","Control-flow steps, peak heap and retained heap of every call are counted by the runtime under damage and aborts, and compared with fixed bounds, with the undamaged call and across rounds of the same calls."),
"C10":("exploration","Seeded histories of updates, clones, checkpoints, crashes with restore and thread migrations of several interleaved trackers, checked against a small reference model after every event."),
"C11":("fault_enumeration","Aborts at seeded allocations and log records, and rejected inputs, at any point of a history; the object is compared with its state before and after the complete operation."),
"C12":("exploration","Results written through a simulated disk (short, failed, lost, torn writes, crash with unsynced tail lost) and read back after restart."),
"C13":("exploration","Seeded isolated packet faults in clear synthetic tracks; tempo and key compared with the undamaged analysis, for tracks stable under neutral perturbations."),
}
NA={
"C14":"Only an example binary (examples/analyze_batch.rs) implements it: a rayon pool around symphonia decoders, both uninstrumented third-party code, with inputs taken from process arguments. The simulator schedules the library crate's code in-process; it has no seam for the example's file reads and argument vector, and the library part of the guarantee (concurrent analyses are independent and fault-contained) is decided by C02 and C04. Not built.",
}
PURE="A pure function of the arguments with no concurrency, time, I/O, randomness or failure for the property to depend on: deciding it is a question about inputs and a numerical oracle, which simulation with fault injection adds nothing to."
checks=[];na=[]
for p in props:
    i=p["id"]
    if i in LV:
        checks.append({"property":i,"quick_cmd":f"./check.sh {i}","thorough_cmd":f"VERIF_TIER=thorough ./check.sh {i}","technique":T,"level":LV[i][0],"level_note":LV[i][1]})
    else:
        na.append({"property":i,"reason":NA.get(i,PURE)})
json.dump({"version":1,"setup_cmd":"./build.sh","checks":checks,"not_applicable":na,"notes":"No hooks in /repo: all seams are at the libc, allocator, log, std and compiler level (see DESIGN.md). known_findings.jsonl lists repaired defects."},open(d+'/MANIFEST.json','w'),indent=1)
