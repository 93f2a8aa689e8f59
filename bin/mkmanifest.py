#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of harnesses that exist."""
import json, os, glob, re
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
T = {
 "C01": "simulated interleavings of prover views against a single-builder model",
 "C02": "simulated request histories under controlled entropy against an exact gate registry",
 "C03": "simulated independent parties with differing entropy, heap and pass order, compared byte by byte",
 "C04": "simulated interleavings of table views against a single-copy table model",
 "C05": "simulated interleaved batch requests against direct evaluation",
 "C06": "simulated histories of constant use and batching with before/after comparison",
 "C07": "simulated reservation histories with allocation faults against a list model",
 "C08": "allocation-fault injection into building histories, compared with fault-free runs",
 "C09": "simulated thread schedules with race detection and refused thread creation against the defining function",
 "C10": "file and stream fault injection against an independent reader",
 "C11": "output stream fault injection against an independent writer",
 "C12": "cell corruption injection against independent constraint evaluation",
 "C13": "simulated opcode sequences of interleaved machines with trace corruption",
 "C14": "simulated interleavings of component placements and passes with output corruption",
 "C15": "simulated thread schedules with race detection against positional arithmetic",
 "C16": "simulated interleavings of hash, curve, foreign-field and verifier component placements with corruption",
 "C17": "simulated readers and lying provers of interleaved zkEVM bytecode tables against an independent reading of the code",
 "C18": "simulated sequences of stretched components of drawn structure against harness arithmetic, with corrupted and exchanged traces",
 "C19": "simulated callers evaluating drawn expressions and polynomial checks through shared batches, with interleaved passes and false values",
}
PURE = {
 "P01": "pure function of its input: no schedule, clock, fault or interleaving in it",
 "P02": "pure function of its input: no schedule, clock, fault or interleaving in it",
 "P03": "each component alone is a pure function of its input; what depends on interleaving and faults is claimed as C05, C12, C14 and C16",
 "P04": "pure function of a component description: nothing to schedule or to fail",
 "P05": "pure tables and conversions: nothing to schedule or to fail",
 "P07": "pure function of the gadget's inputs",
}
have = {os.path.basename(f)[:3].upper() for f in glob.glob(os.path.join(root, "checks", "c*_*.cpp"))}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        checks.append({"property": i, "quick_cmd": "bin/check " + i, "thorough_cmd": "VERIF_TIER=thorough bin/check " + i,
            "evidence_file": "evidence/%s.json" % i, "technique": "deterministic simulation: " + T[i], "level": "exploration",
            "level_note": "seeded search over simulated runs; a clean batch is evidence, not proof; fields and the constraint-system base classes of crypto3 are a stand-in"})
    elif i in PURE:
        na.append({"property": i, "reason": PURE[i]})
    else:
        na.append({"property": i, "reason": "simulation planned, harness not built yet"})
m = {"version": 1, "setup_cmd": "bash bin/setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo are needed: all seams are outside it (entropy, allocation, threads, files, streams). Repairs of genuine defects are separate fix: commits listed in known_findings.txt."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json"))); print("manifest valid,", len(checks), "checks")
except ImportError: pass
