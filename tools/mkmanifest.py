#!/usr/bin/env python3
"""Write MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = "monitored executions: "
T = {
 "D01": M + "apply(create) compared with the modified text, byte for byte",
 "D02": M + "every hunk recomputed from the two texts by an independent reader",
 "D03": M + "script length compared with an independent shortest-edit computation",
 "D04": M + "context and grouping recomputed from the changes, compared across context lengths",
 "D05": M + "position of every block of changes compared with the lines that follow it",
 "R01": M + "reverse applied to the modified text; structural comparison of reversals",
 "F01": M + "write, parse, compare",
 "F02": M + "written bytes compared with an independent renderer under all settings; escape-sequence automaton",
 "F03": M + "fault injection at every write call and every byte of the output",
 "P01": M + "parse of texts rendered from random models compared with the model",
 "P02": M + "corrupted texts must be rejected; accepted texts re-read by an independent strict reader",
 "A01": M + "result explained as disjoint in-order replacements by an independent matcher",
 "A02": M + "result or failing hunk compared with a reference model of nearest-match application",
 "A03": M + "patches between distinct-line texts applied to texts edited elsewhere, compared with the constructed result and with the merge",
 "M01": M + "merges with an unchanged or identical side compared with the expected side",
 "M02": M + "clean result explained by an alignment search over the four texts",
 "M03": M + "conflict blocks parsed back and explained by an alignment search",
 "M04": M + "merges of region edits with known outcome compared with it",
 "M05": M + "all style and marker-length settings compared with one another; marker grammar",
 "M06": M + "merge compared with the merge of exchanged sides",
 "O01": M + "sequences of settings and uses compared with a model of the option objects and with fresh objects",
 "V01": M + "equality of families of patches compared with equality of all they show",
 "H01": M + "chains of versions replayed forward and backward through written patches",
 "S01": M + "text and byte interface run side by side",
 "S02": M + "hostile inputs with checked arithmetic, panic capture, step, memory and stack limits in an optimised and an unoptimised build; AddressSanitizer; Miri",
 "S03": M + "results digested in other orders, threads, buffers and processes; Miri and ThreadSanitizer race detection",
 "S04": M + "control-flow edges and peak allocation per call compared with a bound from the input size; instructions counted by callgrind on growing inputs; small stack",
 "S06": M + "calls of the C library's doors to the outside (output, files, environment, clock, threads, processes, sockets) counted during every operation",
 "S07": M + "allocated bytes compared between repetitions and along histories of distinct inputs of equal size",
 "S05": M + "differential runs against GNU patch, GNU diff and git",
}
NOTE = {
 "F03": "every fault position of each generated patch within the size bound is injected; patches are sampled plus an enumeration of small ones",
 "S02": "held on the inputs run in the checked-arithmetic, release, AddressSanitizer and (small inputs) Miri builds; the crate has no unsafe code at present",
 "S03": "interleavings are those the scheduler and Miri produced; the crate has no shared state at present",
 "S04": "work is counted in compiler-inserted control-flow-edge callbacks inside diffy, not in time; bounds are about ten times what the present code needs; work inside the standard library is counted as instructions under callgrind on 43 shapes of growing inputs, also against reference counts",
 "S06": "sees what goes through the C library (as everything in std does), not raw system calls; reading the random seed of a hash map is allowed",
 "S07": "sees memory of the global allocator, not of foreign allocators",
 "S05": "trusts GNU diffutils 3.10, GNU patch 2.7 and git as installed; git apply only with context",
}
checks = []
for i, t in T.items():
    checks.append({
        "property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}",
        "evidence_file": f"evidence/{i}.json", "technique": t, "level": "fault_enumeration" if i == "F03" else "exploration",
        "level_note": "Held on every execution of the run (boundary cases, enumerated small inputs, random and coverage-mutated inputs, in a checked-arithmetic instrumented build and the release build); says nothing about inputs not run. Trusts the oracle in harness/src. " + NOTE.get(i, ""),
    })
m = {
    "version": 1, "setup_cmd": "python3 check.py setup", "checks": checks, "not_applicable": [],
    "notes": "No hooks in /repo: everything is observable through the public interface; diffy is instrumented by the compiler (SanitizerCoverage through RUSTC_WRAPPER, sanitizers, Miri) without source changes. Repairs: see known_findings.txt.",
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
