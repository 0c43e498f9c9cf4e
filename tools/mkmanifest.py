#!/usr/bin/env python3
"""Writes MANIFEST.json from the property list and the checks."""
import json, os, sys
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(here, "dst")); sys.dont_write_bytecode = True
import props
TRUST = " Seeded search, not exhaustive. Trusts the simulator (sim/libsim.c: sequentially consistent, one thread at a time, preemption at basic blocks, memory accesses and intercepted calls of workspace code) and the reference model in dst/oracle.py; solvers are scripted stubs, everything inside the tool's process is the real code."
NOTE = {
 "C01": "Every success report is justified by a refutation in the recorded history.",
 "C02": "Outcome, number of rounds and tries equal the reference model's.",
 "C03": "Every failing call class and failing solver, injected singly and combined at seeded positions, must surface as an error.",
 "C04": "Signals, waits and process lifetimes of every simulated run are checked, including process-id reuse.",
 "C05": "Deadlock is detected exactly, livelock and slow progress by bounds on simulated time and steps.",
 "C06": "Launch sets, options and round counts equal the reference model's.",
 "C07": "Every file is snapshotted when a solver opens it, re-compared while it runs, and checked by an independent SMT-LIB reader.",
 "C08": "Files of differently scheduled, seeded, laid out and configured runs are equal after canonical renaming.",
 "C09": "Files of one round and of to-file mode are equal after canonical renaming and dialect normalisation.",
 "C10": "Files of successive rounds are compared under metamorphic changes of solver output.",
 "C11": "Order and assumptions of the problem files are compared with those of the lemmas in isolation.",
 "C12": "After every run the file tree is compared with a fault-free reference.",
 "C13": "The file tree after every run is compared with the launches in its history.",
 "C14": "Chunked, interrupted and failing input is compared with a plain reading of the same bytes.",
 "C15": "Exit status and report are compared with the reference model's outcome in every format.",
 "C16": "Fuzzed solver output; verdict and survival compared with the reference model.",
 "C18": "Runs are killed at seeded instructions and calls; a later run over the (torn) leftovers equals the same run in fresh directories.",
 "C19": "The same scenario with and without logging, on good and failing log streams, gives the same history.",
 "C17": "Each problem of a multi-problem call is compared with the same problem run alone.",
}
EXTRA = {}
NA = {
 "C40": "Soundness of generated axioms is a fact about a pure function of the input (no schedule, clock, I/O or second party is involved) and its oracle is a computational semantics; simulation has nothing to vary. It would need proof or translation validation.",
 "C41": "The subterm search is a pure single-threaded function of the input; what a simulator controls does not influence it (C08 checks that it does not).",
 "C42": "The parser and type checker are a pure function from text to accept/reject; no nondeterminism or fault can reach it beyond reading the text, which C14 covers. Needs a grammar-based differential oracle, which is another technique.",
 "C43": "The Squirrel conversion is a pure function of the dump; its oracle is a semantics of Squirrel, and the simulator has nothing to vary. How a call with several problems is executed is C17.",
 "C44": "Formula operations are pure in-memory functions; no concurrency, time, I/O or multi-party behaviour is involved.",
 "C45": "The prototype takes no input, starts nothing and only prints: it is a sequential, pure computation on two terms built into it, which the tool never uses. Soundness of its rewriting rules needs a semantics, not a history.",
}
ps = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks = []
for p in ps:
    i = p["id"]
    if i not in props.PROPS: continue
    checks.append(dict(property=i, quick_cmd="VERIF_TIER=quick ./check %s" % i, thorough_cmd="VERIF_TIER=thorough ./check %s" % i, technique="deterministic simulation with fault injection (seeded schedules and faults, history checked against a reference model)", level=props.PROPS[i].level, level_note=NOTE[i] + EXTRA.get(i, "") + TRUST))
m = dict(version=1, setup_cmd="bash tools/build.sh", checks=checks, not_applicable=[dict(property=p["id"], reason=NA[p["id"]]) for p in ps if p["id"] not in props.PROPS],
         notes="No hooks in /repo: the seams are libc calls (interposed) and compiler-inserted coverage callbacks in a separate instrumented build under /verif/build. 'check replay FILE' re-runs a recorded violation; 'check det CNN N' runs cases twice and compares the histories.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
