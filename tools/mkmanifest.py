#!/usr/bin/env python3
# regenerate MANIFEST.json from the harness files present and the not-applicable list below
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 "C27": "The operators of constexpr_wrapper only ever see template arguments and literal characters that the C++ front end evaluates while compiling; no IR is produced with these values as inputs, so there is nothing a solver could quantify over (and re-implementing the literal parser as an encoding would check a model, not the code).",
}
NOTE = "Bounded: decided by Z3 for every value of every symbolic input (lane values, masks, memory contents, indexes, range lengths, alignments) within the instantiated element types, widths and lengths listed in harness/%s*.cpp; trusts clang's front end (IR), the symbolic executor in engine/ (cross-checked by native replay of witnesses and counterexamples) and Z3."
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
have = {re.match(r"(C\d+)", f)[1] for f in os.listdir(os.path.join(V, "harness")) if re.match(r"C\d+(_\w+)?\.cpp$", f)}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        checks.append({"property": i, "quick_cmd": "python3 tools/check.py %s --tier quick" % i, "thorough_cmd": "python3 tools/check.py %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": "symbolic execution of the compiled headers' LLVM IR + SMT (Z3 bit-vectors/IEEE floats), counterexamples replayed natively",
                       "level": "other", "level_note": NOTE % i})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "python3 tools/check.py build", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo are needed: the library is header-only and the harnesses in /verif/harness include its headers."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
