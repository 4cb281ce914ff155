#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the list of claimed checks."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
LN = {
 "L01": "threads at every memory access (instrumented builds) or machine instruction (shipped build)", "L02": "operands in read-only pages: any store to them, even of the same value, faults", "L03": "preemption at every access of component updates", "L04": "nested interrupting calls at every access or instruction",
 "L05": "stall, abandon and kill faults with a step bound as the liveness check", "L06": "allocation and system-call failure windows on small guarded stacks", "L07": "poisoned stack, registers, heap and operand surroundings, guard pages", "L08": "perturbed ambient state, compared before and after", "L09": "seeded histories against the first-call reference", "L10": "seeded orders of constructors and exit handlers",
 "L11": "refused requests, interleavings and ending threads, with every resource taken and given back counted", "L12": "far-out operands and modes with a step and basic-block bound as the liveness check",
 "L13": "restarts on simulated machines that differ in addresses, identities, start time, environment and processor features",
}
GN = {
 "G01": "file-system faults, exit status against the undisturbed corpus", "G02": "structural model of the corpus over many seeded clocks", "G03": "crash, power loss and failure points followed by a re-run, against the undisturbed corpus", "G04": "journal of every mutation and byte comparison of bystander files",
 "G05": "disturbed runs at one clock second, byte for byte", "G06": "step bound under persistent faults, success under recoverable ones", "G07": "bad and racing invocations, journal must stay empty", "G08": "simulated corpora over many clocks, every distinct function body compiled and every called function linked",
 "G09": "several generators interleaved at every system call by a seeded scheduler, against the undisturbed corpus", "G10": "bad invocations, file-system faults and kills, printed text against that of undisturbed runs",
}
claimed = [a for a in sys.argv[1:]] or list(LN) + list(GN)
checks, na = [], []
WHY = "A pure function of its arguments: no schedule, clock, I/O, fault, crash or history can change whether it holds, so deterministic simulation with fault injection has nothing to decide; example-based, property-based or symbolic testing would be a different technique."
WHY18 = "A single-shot, single-process Python script of pure enumeration printing to stdout, with no schedule, clock, state or fault that its output depends on; simulation has nothing to decide."
WHY15 = "A property of compilations (include orders, language mode, configuration macros), not of executions: there is no schedule, fault or history to simulate."
for p in props:
    i = p["id"]
    if i in claimed:
        lib = i[0] == "L"
        note = ("Seeded search, not exhaustive: " + (LN if lib else GN)[i] + ". ")
        note += ("The real library (three builds of /repo's sources) runs under the simulator; allocator, locks, clocks, environment and system calls are stubs. The oracle is the same call alone in a freshly started image. Trusts g++, libm, and sequentially consistent interleaving at instrumented accesses (instruction level for the shipped build)."
                 if lib else "The real generator, libstdc++, libfmt and C stdio run in a forked process whose every system call and clock read is answered by a simulated file system and clock. Trusts the fault model of that file system (ordered metadata, unsynced data may be lost or torn) and g++.")
        checks.append(dict(property=i, quick_cmd=f"python3 check.py --property {i} --tier quick", thorough_cmd=f"python3 check.py --property {i} --tier thorough", evidence_file=f"evidence/{i}.json",
            technique="deterministic simulation with fault injection (seeded schedule and fault search, replayable)", level="exploration", level_note=note))
    else:
        r = WHY18 if i == "M18" else WHY15 if i == "M15" else WHY
        if i[0] in "LG": r = "check under construction"
        na.append(dict(property=i, reason=r))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
    notes="No hooks were needed in /repo: the seams are compiler instrumentation, symbol renaming at link time and Syscall User Dispatch, applied to builds made outside /repo. Replay a reported violation with: python3 check.py --replay FILE")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
