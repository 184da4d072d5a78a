#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
T = "symbolic execution of the compiled library's LLVM IR, path conditions and obligations decided by SMT solvers (z3, cvc5)"
LAY = "Every value of strides, buffer lengths (64 bits) is symbolic and the addresses accessed are exact; widths, heights, formats, color spaces and instruction sets are enumerated up to the bounds in the evidence. Trusted: the executor (its predictions are compared with the real code on every run), z3, rustc's IR generation."
VAL = "All pixel values are symbolic; widths, heights, formats, color spaces and instruction sets are enumerated up to the bounds in the evidence, which span every vector body and tail. Trusted: the executor (its predicted bytes are compared with the real code on every run), z3, rustc's IR generation."
checks = {
 "P01": LAY, "P02": LAY, "P03": LAY, "P04": VAL, "P05": VAL, "P06": VAL, "P07": VAL,
 "P14": LAY + " The IR is that of a build with overflow checks, so every checked operation is a path to a panic that has to be infeasible.",
 "P08": VAL + " Results are also compared for all strides and buffer lengths.",
 "P09": "Widths, heights and plane counts are 32-bit symbols, every pair of formats and color spaces is encoded. Trusted: the executor (predictions compared with the real code), the solvers, rustc's IR generation.",
 "P10": "Widths, heights, plane counts and strides are symbolic without bounds, formats and array lengths enumerated. Trusted: the executor (predictions compared with the real code), the solvers, rustc's IR generation.",
 "P11": LAY, "P12": LAY + " Enumeration values and plane counts of C structures are 32-bit symbols.",
 "P13": "Every answer of CPUID leaves 0, 1 and 7 and of XGETBV is a symbol, for every supported conversion. Trusted: the executor (the code that runs and the description are compared with the real code on made-up processors on every run), the solvers, rustc's IR generation.",
 "P15": VAL + " Sequences of up to four calls.",
 "P16": VAL, "P17": VAL, "P18": VAL,
}
na = {
 "P19": "NEON and WebAssembly code cannot be compiled (no such target's standard library is installed) nor replayed (no emulator) here.",
 "P20": "The schedules of the one-time initialisation are those of the standard library's OnceLock, whose code is not part of the repository and is reached through one call only; the executor encodes a single thread.",
}
for p in ["P08", "P09", "P10", "P11", "P12", "P13", "P15", "P17", "P18"]:
    if p not in checks: na[p] = "Not claimed yet: its check is being built."
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": [{"property": k, "reason": v} for k, v in sorted(na.items())]}
for p, n in sorted(checks.items()):
    m["checks"].append({"property": p, "quick_cmd": f"bash check.sh {p} quick", "thorough_cmd": f"bash check.sh {p} thorough", "evidence_file": f"evidence/{p}.json",
        "technique": T, "level": "model_checking", "level_note": n})
json.dump(m, open(os.path.join(os.path.dirname(__file__), "..", "MANIFEST.json"), "w"), indent=1)
