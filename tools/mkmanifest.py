#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EX = "bounded exhaustive exploration of the real code: every input of constructively enumerated families (all run/gap/symbol/tail combinations within bounds) x every codec x every SIMD level, "
T = {
 "C01": EX + "oracle: decompressed output equals the input",
 "C02": EX + "oracle: every (encoding level, decoding level) pair restores the input",
 "C03": EX + "oracle: guard pages directly around input and output bound, both ends",
 "C04": EX + "oracle: guard pages directly around stream buffer and documented output size, both ends",
 "C05": EX + "oracle: streams/outputs equal across all enumerated buffer placements, stale contents and call histories",
 "C06": "exhaustive enumeration of invalid argument combinations (every declared size below the required one, every truncation, every missing buffer) on the real code at every level, with guard pages directly behind the declared sizes",
 "C07": "stateless model checking of the real code: every interleaving (up to a preemption bound) of two threads at every access to the library's shared data, under a controlled scheduler driven by page protection and single stepping",
 "C08": "explicit-state executable model of the transforms, conformance-checked against every level/alignment implementation on all enumerated contents and lengths",
 "C09": "bounded exhaustive exploration of (input, section count, level) and (statistics input, data input) on the real code",
 "C10": EX + "x declared sizes x trailing bytes, oracle: exact length and content",
 "C11": EX + "with a breakpoint on every instruction above the enabled level; oracle: none is executed",
 "C12": "exhaustive exploration of virtual processors (CPUID/XCR0 states) with cpuid/xgetbv of the real code emulated; oracle: specification of the feature flags",
 "C13": "exhaustive fault injection: every (codec, kind of failure, byte position, bit) injected into the real test and fuzz drivers; oracle: exit status",
 "C14": "exhaustive enumeration of command lines of the real tool with recording codecs; oracle: executed codec set, feature flags and exit status computed from codec names",
 "C15": EX + "restricted to lengths in windows around every format boundary, up to tens of MiB, and to data of the largest accepted size (2^30 bytes) for every codec",
 "C16": EX + "cross-checked in both directions with a reference build of the pinned source",
 "C17": "bounded exhaustive exploration of (codec, level, run length, gap, number of runs, symbol pattern) on the real code; oracle: size bound linear in the number of runs",
 "C18": "explicit-state enumeration of the fuzzer's input space (all section lengths, kinds, symbol lengths, alignments for one and two sections), every element replayed against the real generator; exhaustive fault injection for the preserved input",
 "C19": "exhaustive enumeration of call durations, sizes, contents, options and failing codecs under a controlled clock in the real tool; oracle: figures computed from what was measured",
 "C20": "bounded exhaustive enumeration of file contents through the real tool, compared with an executable model of the statistics; guard page behind the data",
 "C21": "exhaustive exploration of call histories, failing OpenCL calls, transfer schedules and work group interleavings of the real host code and kernels on a controlled OpenCL stand-in; oracle: CPU result, handle and allocation state",
 "C22": "bounded exhaustive enumeration of lengths, positions and values through the real packing functions; oracle: unpacked values, guard pages, returned ends",
}
NOTE = {
 "C18": "complete for one and two sections; three and six sections: only reproducibility of the first inputs",
 "C07": "exhaustive up to 2 (quick) / 3 (thorough) preemptions for two threads; exploration is of sequentially consistent interleavings at machine-instruction granularity of the actual binary",
 "C12": "complete over the feature bits used and every single irrelevant bit; not over all 2^160 register values",
}
have = [x for x in sys.argv[1:]] or sorted(T)
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "checks": [{"property": p, "quick_cmd": "python3 tools/check.py %s quick" % p, "thorough_cmd": "python3 tools/check.py %s thorough" % p, "technique": T[p], "level": "model_checking",
                 "level_note": NOTE.get(p, "exhaustive within the enumerated families/bounds (see DESIGN.md); inputs outside of them are not covered")} for p in props if p in have],
     "not_applicable": [{"property": p, "reason": "check under construction"} for p in props if p not in have],
     "notes": "tools/check.py builds from /repo's working tree into /verif/.build (removed afterwards). tools/check.py --replay FILE re-runs a counterexample."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1); print(len(m["checks"]))
