#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
NOTE = {
 "C01": "Sampled schedules (about nine million runs per quick check, each function as the focus in eight configurations); switches at every load, store, branch and seam. On the ARM and WebAssembly configurations plain stores to module state may reach other threads late and out of order; delayed loads are not simulated.",
 "C02": "Every store is seen (access hooks on a build with all of cglm instrumented; copies in 8-byte pieces) and shared inputs also lie in read-only pages, so a store that no hook sees faults.",
 "C03": "Every load and store is checked byte-exactly against the extents of the call's own arguments; unhooked accesses are caught only at page edges (faults) or, if they write, by the pattern around the objects.",
 "C04": "Handlers run at any hooked instant, nested up to five deep; a handler repeats its call up to 300 times.",
 "C05": "Calls abandoned at any hooked instant by longjmp or thread death; the dead keep their locks and half-written outputs.",
 "C06": "Histories up to 300 calls (functions seen to touch module state: up to 3000 calls or 140000 repeats) against the call as first of the process.",
 "C07": "Two differently dirtied surroundings are compared; a dependence that shows for neither pair of fills is missed.",
 "C08": "Control words are compared after every hooked step; results against the same call alone in the same state.",
 "C09": "Bound: 60000 own steps (the longest call on the current tree takes about 5400, the product of many matrices) and 128 KB of stack (deepest now: 34 KB, 4-D Perlin noise built at -O0); instances of unbounded loops longer than that are reported, slower growth is not.",
 "C10": "Sequential consistency in lock order; sampled.",
 "C11": "The text is parsed by structure (rows, columns, forms) by an independent formatter; the heading's wording is not judged.",
 "C12": "Faults are placed at any device operation; libc's own stdio is real and trusted to set its indicator.",
 "C13": "Switches at every stdio call and hooked access; libc's stream locking inside one stdio call is trusted.",
}
NA = "A pure function of its arguments: no schedule, clock, I/O, fault or history enters it, so simulation has nothing to decide; it would be input generation in simulator vocabulary."
extra = {"C21": NA + " (The simulator runs SSE2, SSE4, AVX, NEON, WebAssembly and scalar builds, but comparing them decides rounding of pure functions.)", "C22": NA + " (For printing, where a stream and its device are involved, the agreement of the three APIs is part of C11.)",
         "C20": NA + " (Aliased calls do occur in C01, C04-C06 and C10, compared with the same aliased call alone.)", "C32": "A compile-time fact about types: nothing executes, so there is nothing to simulate."}
m = {"version": 1, "setup_cmd": "python3 gen/build.py", "hooks": {"guard": "none", "enable": "No hook was added to /repo: the checks compile its unmodified sources with -fsanitize=thread -fsanitize-coverage=trace-pc and link them to the simulator's own runtime; libc calls are renamed with objcopy.", "source_commits": []}, "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in NOTE:
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i, "evidence_file": "evidence/%s.json" % i,
                            "technique": "deterministic simulation: seeded schedules and faults, replayable", "level": "exploration", "level_note": NOTE[i]})
    else: m["not_applicable"].append({"property": i, "reason": extra.get(i, NA)})
m["notes"] = "known_findings.txt lists repaired defects; a violation's replay file is re-run with: python3 check.py --replay FILE"
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
