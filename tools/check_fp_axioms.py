#!/usr/bin/env python3
"""Has z3 confirm, on half-precision floats and with the operations defined exactly, every axiom by which the executor
abstracts floating-point + - * / sqrt (engine/solver.cpp, Printer::absAxioms). Exit 0 if all hold. Not a registered check."""
import os, subprocess, sys, tempfile, concurrent.futures as cf
here = os.path.dirname(os.path.abspath(__file__))
with tempfile.TemporaryDirectory() as t:
    fl = subprocess.run("llvm-config-18 --cppflags", shell=True, capture_output=True, text=True).stdout.split()
    ld = subprocess.run("llvm-config-18 --ldflags --libs core irreader analysis demangle support", shell=True, capture_output=True, text=True).stdout.split()
    subprocess.run(["clang++", "-std=c++17", "-O1", "-w", "-fno-rtti", "-fno-exceptions"] + fl + [here + "/fp_axioms.cpp", here + "/../engine/solver.cpp", here + "/../engine/expr.cpp", "-o", t + "/ax"] + ld + ["-lpthread"], check=True)
    out = subprocess.run([t + "/ax"], capture_output=True, text=True, check=True).stdout
qs = sorted(set(q.strip() + "\n" for q in out.split("(pop)\n") if q.strip()))
def one(q):
    q = q.replace("(push)\n", "")
    for f in ("5 11", "4 6"): # half precision; where that is out of reach, a format of ten bits (possible when no literal of the wider format occurs)
        if f != "5 11" and "(fp #" in q: break
        r = ask(q.replace("5 11", f))
        if r[-1:] == ["unsat"]: return r + [f]
        if r[-1:] == ["sat"]: break
    return r + [f]
def ask(q):
    try: r = subprocess.run(["z3-new", "-in", "-smt2", "-T:20"], input=q, capture_output=True, text=True, timeout=40).stdout
    except subprocess.TimeoutExpired: r = "timeout"
    return r.strip().splitlines()
bad = 0; fmts = {}
with cf.ThreadPoolExecutor(int(sys.argv[1]) if len(sys.argv) > 1 else 4) as ex:
    for l in ex.map(one, qs):
        fmts[l[-1]] = fmts.get(l[-1], 0) + 1
        if l[-2:-1] != ["unsat"]: bad += 1; print("NOT CONFIRMED", l, flush=True)
print(len(qs), "axioms,", len(qs) - bad, "confirmed; formats (exponent significand):", fmts)
sys.exit(bad != 0)
