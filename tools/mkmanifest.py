#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": "deterministic simulation: seeded scheduling of real threads at machine-instruction and arithmetic-operation granularity, each call compared with its lone execution",
 "C02": "deterministic simulation: seeded histories of calls, failures and table updates, each call compared with its lone execution in a pristine process and with a reference model",
 "C03": "deterministic simulation with fault injection: threads stopped at seeded instructions, panics and failed conversions injected into the number type",
 "C04": "deterministic simulation with fault injection: callers stalled for ever at seeded instructions, progress of the others bounded in steps",
 "C05": "deterministic simulation with fault injection: stored and requested bits corrupted at seeded moments, guard-page memory, step bounds",
 "C06": "deterministic simulation with fault injection: seeded damage to stored values and points, results outside the damage compared with undamaged lone runs",
 "C07": "deterministic simulation with fault injection: every allocation refused during seeded constructions and calls",
 "C08": "deterministic simulation: seeded requests on painted stacks, compared with the need of the smallest grid",
 "C09": "deterministic simulation with fault injection: storage reads failing on a seeded plan",
 "C10": "deterministic simulation with fault injection: requests damaged on a seeded plan, guard-page memory",
 "C11": "deterministic simulation with fault injection: seeded aliasing of request buffers, compared with unaliased lone execution",
 "C12": "deterministic simulation: seeded scheduling of real Python threads at bytecode and native-instruction granularity",
 "C13": "deterministic simulation with fault injection: asynchronous exceptions raised at seeded bytecode boundaries",
 "C14": "deterministic simulation: seeded histories with save, process restart and restore; bit-for-bit comparison across generations",
 "C15": "deterministic simulation with fault injection: torn, truncated, overwritten and bit-flipped saves restored; data compared with what the document literally says",
 "C16": "deterministic simulation with fault injection: caller arrays overwritten, resized and freed at seeded instants, results compared with an untouched twin",
 "C17": "deterministic simulation with fault injection: seeded damage of Python requests including sequences that fail while being read",
 "C18": "deterministic simulation with fault injection: seeded histories over a tree of processes with buffer reuse, interruptions and killed workers, each call compared with its lone execution in a pristine process",
 "C20": "deterministic simulation with fault injection: other calls made at seeded bytecode boundaries of a call and while it reads its arguments, each compared with its lone execution",
 "C19": "deterministic simulation with fault injection: interrupt handlers run at seeded instructions of a call and make calls themselves, each compared with its lone execution",
}
NOTE = {
 "C01": "Sampled schedules, not all. Sequentially consistent interleavings of one logical CPU; single-stepping covers every instruction boundary of the compiled library.",
 "C02": "Sampled histories. The reference model accepts 8 times a running error bound; it trusts the documentation's method definitions as modelled in sim/src/refm.rs.",
 "C03": "Sampled interruption points; a stopped thread is never resumed. Panics are injected at arithmetic operations of a wrapped f64.",
 "C04": "Sampled stall points. The bound is 8 times the lone step count plus 2000.",
 "C05": "Sampled corruptions; out-of-bounds reads are seen when they cross the guard page behind or before an array, or panic.",
 "C06": "Sampled damage; points within rounding distance of a cell border count both cells as their stencil.",
 "C07": "Sampled requests; functions documented to allocate (_alloc) are excluded.",
 "C08": "Sampled requests; compares measured peak stack within 512 bytes, in the build used by the check.",
 "C09": "Sampled failure plans over the library's grids and a storage of the simulator's own.",
 "C10": "Sampled damage; checks results, output, guard pages and the following intact request.",
 "C11": "Sampled overlaps. A call on overlapping arrays may raise or compute; either way every byte of every buffer is compared.",
 "C12": "Sampled schedules of one GIL build of CPython 3.12; hand-overs at bytecode instructions, and inside native code only where the extension itself gives up the GIL.",
 "C13": "Sampled instants. Exceptions inside pydantic's own Python frames are not injected (pydantic swallows some of them); MemoryError only in frames of the package.",
 "C14": "Sampled interpolators and histories; a restart is a freshly executed Python process.",
 "C15": "Sampled damage. What the document literally says is decided by an independent JSON reader in the simulator; documents whose meaning is disputable may be refused or accepted.",
 "C16": "Sampled mutations, also from a second thread at bytecode boundaries after construction returned.",
 "C18": "Sampled histories; a pristine process is a fork of one that has only imported the package. Workers are killed at bytecode boundaries of the package.",
 "C20": "Sampled instants: bytecode boundaries and accesses to the sequence of observation points, at most four levels deep. Native code without callbacks is one step.",
 "C19": "Sampled instants: any recorded instruction of a call outside the C library's string functions, at most three levels of calls inside calls.",
 "C17": "Sampled damage. Sequences that lie about their length beyond memory are excluded (pyo3 itself aborts on them).",
}
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
ready = json.load(open(os.path.join(HERE, "tools", "ready.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in ready:
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i} quick", "thorough_cmd": f"python3 check.py {i} thorough",
                       "technique": T[i], "level": "exploration", "level_note": NOTE[i]})


NAR = {
 "N01": "A pure function of its input: no schedule, time, I/O, storage or other party for a simulator to vary (C02's reference model checks the values on the inputs it meets).",
 "N02": "A pure function of its input, as N01.",
 "N03": "A pure function of its input, as N01.",
 "N04": "Compares pure functions with each other on the same input: nothing nondeterministic is involved.",
 "N05": "A pure function of its input; C05, C10, C12, C13 and C17 cover its behaviour under faults and schedules.",
 "N06": "A relation between separately compiled programs on the same input, with no runtime nondeterminism.",
 "N07": "Pure helper functions of their input.",
 "N08": "A pure dispatch on its input; its behaviour under interrupts, threads and damage is C12, C13 and C17.",
 "N09": "Elapsed time and asymptotic cost of a deterministic computation: no seam for a simulator to control; bounded steps under faults are part of C04 and C05.",
}
na = [{"property": p["id"], "reason": NAR[p["id"]]} for p in props if p["id"] in NAR]
na += [{"property": p["id"], "reason": "Planned (see DESIGN.md), no check yet."} for p in props if p["id"] not in NAR and p["id"] not in ready]
m = {"version": 1, "setup_cmd": "python3 check.py setup",
     "checks": checks, "not_applicable": na,
     "notes": "Deterministic simulation with fault injection. Every check rebuilds from /repo's working tree, is driven by VERIF_SEED, writes evidence/<id>.json, and on a violation writes a minimised replay file under replays/; 'python3 check.py replay FILE' reproduces it. No hooks in /repo are needed: threads are scheduled by single-stepping, the number type, the allocator, storage (Grid1D) and memory are the seams; Python threads are scheduled through sys.monitoring instruction events and a link-time wrapper of the three GIL functions the extension imports."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
