#!/usr/bin/env python3
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}  # property -> reason
m = {"version": 1, "setup_cmd": "bash engine/build.sh .build/setup && rm -rf .build/setup", "checks": [], "not_applicable": [],
     "notes": "engine/ is a symbolic executor for LLVM IR (rsym); harness/Cxx*.cpp drive the real headers of /repo; check.py compiles, executes, decides with z3/cvc5, replays natively and writes evidence."}
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)["id"]
    if p in NA: m["not_applicable"].append({"property": p, "reason": NA[p]}); continue
    if not glob.glob(V + "/harness/" + p + "*.cpp"): m["not_applicable"].append({"property": p, "reason": "no check built yet"}); continue
    m["checks"].append({"property": p, "quick_cmd": "python3 check.py %s --tier quick" % p, "thorough_cmd": "python3 check.py %s --tier thorough" % p,
        "technique": "symbolic execution of the compiled headers (LLVM IR) with SMT (z3, cvc5); counterexamples replayed natively", "level": "model_checking",
        "level_note": "Holds for every value of the symbolic inputs within the bounds listed in the evidence file (coverage.bounds, coverage.cuts_taken); says nothing outside them. Trusts clang 18's IR generation, the executor's IR semantics (cross-checked by replaying solver-made witnesses natively) and the SMT solvers."})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not claimed")
