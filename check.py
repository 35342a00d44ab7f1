#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--entry NAME] [--keep]

Decides one property by symbolic execution of the real code (LLVM IR of /repo's current headers) and
SMT solving, replays counterexamples natively, and writes evidence/<property>.json."""
import sys, os, re, json, subprocess, hashlib, time, shutil, tempfile, fcntl, glob, threading
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
GUARD = "/opt/vp/guard"
T0 = time.time()
CPUS = 8
INC = ["-I" + V + "/harness", "-I" + REPO + "/include"] + (["-I" + GUARD] if os.path.isdir(GUARD) else [])
COMMON = ["-std=gnu++17", "-fno-exceptions", "-ffp-contract=off", "-fno-math-errno", "-w", "-DBOOST_ENABLE_ASSERT_HANDLER",
          "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-include", V + "/harness/vp.h"]
BC = ["-O2", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-Xclang", "-disable-lifetime-markers",
      "-fno-stack-protector", "-fcf-protection=none", "-emit-llvm", "-c", "-g0", "-fno-builtin-printf",
      "-mllvm", "-simplifycfg-sink-common=false"]

def log(*a): print(*a, flush=True)

def build_engine():
    h = hashlib.sha256()
    for f in sorted(glob.glob(V + "/engine/*")):
        h.update(open(f, "rb").read())
    d = V + "/.build"; os.makedirs(d, exist_ok=True)
    key = h.hexdigest()[:16]; exe = d + "/rsym-" + key
    if os.path.exists(exe): return exe
    with open(d + "/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe): return exe
        tmp = tempfile.mkdtemp(dir=d)
        p = subprocess.run(["bash", V + "/engine/build.sh", tmp], capture_output=True, text=True)
        if p.returncode: log(p.stdout[-3000:], p.stderr[-3000:]); sys.exit(3)
        os.rename(tmp + "/rsym", exe); shutil.rmtree(tmp)
    return exe

class Unit:
    def __init__(self, path):
        self.path = path; self.name = os.path.basename(path)[:-4]
        src = open(path).read(); self.flags = []; self.bounds = []; self.assume = []; self.nativeflags = []; self.extra = []
        self.opts = {}
        for l in src.split("\n"):
            m = re.match(r"// vp-(\w+): (.*)", l)
            if not m: continue
            k, v = m.group(1), m.group(2).strip()
            if k == "flags": self.flags += v.replace("$REPO", REPO).split()
            elif k == "native": self.nativeflags += v.replace("$REPO", REPO).split()
            elif k == "bound": self.bounds.append(v)
            elif k == "assume": self.assume.append(v)
            elif k == "opt":
                a = v.split(None, 1); self.opts.setdefault(a[0], []).extend(a[1].split())

def run(cmd, timeout, **kw):
    try:
        return subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, errors="replace", **kw)
    except subprocess.TimeoutExpired as e:
        class R: pass
        r = R(); r.returncode = 124; r.stdout = ""; r.stderr = "timeout"; return r

def killpg(q):
    try: os.killpg(q.pid, 9)
    except OSError: pass

def main():
    args = sys.argv[1:]; prop = args[0]; tier = os.environ.get("VERIF_TIER", "quick"); only = None; keep = False; entryopts = []
    i = 1
    while i < len(args):
        if args[i] == "--tier": tier = args[i + 1]; i += 1
        elif args[i] == "--entry": only = args[i + 1]; i += 1
        elif args[i] == "--keep": keep = True
        elif args[i] == "--opt": entryopts += args[i + 1].split(); i += 1
        i += 1
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    exe = build_engine()
    scratch = tempfile.mkdtemp(prefix="vp-" + prop + "-")
    try: rc = check(prop, tier, only, keep, seed, exe, scratch, entryopts)
    finally:
        if keep: log("scratch", scratch)
        else: shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)

def check(prop, tier, only, keep, seed, exe, scratch, entryopts):
    budget = 840 if tier == "quick" else 6 * 3600
    deadline = T0 + budget
    units = [Unit(p) for p in sorted(glob.glob(V + "/harness/" + prop + "*.cpp"))]
    if not units: log("no harness for", prop); return 2
    tierdef = ["-DVP_THOROUGH=1"] if tier == "thorough" else []
    pool = ThreadPoolExecutor(CPUS); errors = []
    def compile_bc(u):
        out = scratch + "/" + u.name + ".bc"
        p = run(["clang++"] + COMMON + BC + tierdef + u.flags + INC + [u.path, "-o", out], 600)
        if p.returncode: errors.append("compile %s: %s" % (u.name, p.stderr[-3000:])); return None
        n = run(["llvm-nm-18", "--defined-only", out], 60)
        if n.returncode: n = run(["llvm-nm", "--defined-only", out], 60)
        u.entries = sorted(x for x in re.findall(r" T (\w+)$", n.stdout, re.M) if re.match(r"[qtk]_", x))
        u.bc = out; return out
    nat = {}
    def native_flags(u, kind):
        fl = COMMON + tierdef + [f for f in u.flags if not f.startswith("-fsanitize") and f != "-DVP_UB"] + u.nativeflags + INC
        return fl
    def compile_native(u, kind):
        out = scratch + "/" + u.name + "." + kind
        if kind == "san": cc = ["clang++", "-O1", "-g", "-ftrivial-auto-var-init=pattern", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
        else: cc = ["g++", "-O2", "-ftrivial-auto-var-init=pattern"]
        p = run(cc + native_flags(u, kind) + [u.path, V + "/harness/vp_native.cpp", "-rdynamic", "-ldl", "-o", out], 600)
        if p.returncode: errors.append("native compile %s (%s): %s" % (u.name, kind, p.stderr[-3000:])); return None
        return out
    fb = {u: pool.submit(compile_bc, u) for u in units}
    for u in units: nat[(u.name, "opt")] = pool.submit(compile_native, u, "opt")
    jobs = []
    for u in units:
        if fb[u].result() is None: continue
        for e in u.entries:
            if e.startswith("t_") and tier == "quick" and not only: continue
            if only and not re.fullmatch(only, e): continue
            jobs.append((u, e))
    if errors:
        for e in errors: log("ERROR", e)
        return 2
    if not jobs: log("no entries"); return 2
    # longest first, from the hints in the harness
    def hint(j): return -int((j[0].opts.get("cost:" + j[1]) or ["0"])[0])
    jobs.sort(key=hint)
    stop = threading.Event(); live = set(); confirmed = {}
    def run_entry(j):
        u, e = j
        if stop.is_set(): return (u, e, {"status": "skipped", "error": "a violation was already found", "violations": []})
        r = run_entry1(j)
        if r[2].get("status") == "violated" and r[2].get("generalised") and not stop.is_set() and not any(confirm(replay, u, e, v) for v in r[2]["violations"]):
            r = run_entry1(j, ["--nogen"]) # look for a counterexample reachable from the inputs
        if stop.is_set() and r[2].get("status") in ("error", "unknown"): r[2]["status"] = "skipped"; r[2]["error"] = "a violation was already found"
        if r[2].get("status") == "violated" and not e.startswith("k_"):
            confirmed[(u.name, e)] = [confirm(replay, u, e, v) for v in r[2]["violations"]]
            if any(confirmed[(u.name, e)]) and not only:
                stop.set()
                for q in list(live): killpg(q)
        return r
    def run_entry1(j, more=[]):
        u, e = j; out = scratch + "/" + u.name + "-" + e + ".json"
        left = deadline - time.time()
        if left < 5: return (u, e, {"status": "unknown", "error": "no time left", "violations": []})
        tot = int(min(left, 700 if tier == "quick" else 3 * 3600)); ob = 300 if tier == "quick" else 3000
        o = ["--total", str(tot), "--oblig", str(ob)] + u.opts.get("all", []) + [x for k, v in u.opts.items() if k != "all" and re.fullmatch(k, e) for x in v] + entryopts + more
        q = subprocess.Popen([exe, u.bc, "--entry", e, "--out", out, "--scratch", scratch] + (["--keep", scratch] if keep else []) + o, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", start_new_session=True)
        live.add(q)
        try: so, se = q.communicate(timeout=tot + 60)
        except subprocess.TimeoutExpired: killpg(q); so, se = q.communicate()
        live.discard(q)
        class P: pass
        p = P(); p.returncode = q.returncode; p.stderr = se
        try: r = json.load(open(out))
        except Exception: r = {"status": "error", "error": "executor exit %s %s" % (p.returncode, (p.stderr or "")[-500:]), "violations": []}
        r["stderr"] = (p.stderr or "")[-500:]
        return (u, e, r)
    # ---- translator validation: witnesses of the symbolic run replayed natively
    validated = 0; samples = []; viol = []; bad = []
    os.makedirs(V + "/evidence/replay", exist_ok=True)
    def write_inputs(path, u, e, inputs):
        with open(path, "w") as f:
            f.write("!unit %s\n!entry %s\n" % (u.name, e))
            for k, v in inputs.items(): f.write("%s %s\n" % (k, v))
    def replay(u, e, inputs, kind, tag):
        b = nat.get((u.name, kind))
        if b is None: b = nat[(u.name, kind)] = pool.submit(compile_native, u, kind)
        b = b.result()
        if not b: return None
        path = scratch + "/" + u.name + "-" + e + "-" + tag + ".in"; write_inputs(path, u, e, inputs)
        p = run([b, e, path], 70, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=1"))
        return p
    runpool = ThreadPoolExecutor(CPUS)
    results = list(runpool.map(run_entry, jobs))
    def validate(j):
        u, e, r = j; n = 0; out = []
        for lab, inp in list((r.get("witness") or {}).items())[:3 if tier == "quick" else 20]:
            p = replay(u, e, inp, "opt", "w%d" % n); n += 1
            if p is None: return (u, e, n, "native build failed", out)
            if ("REACHED " + lab) not in p.stdout and r["status"] == "ok":
                return (u, e, n, "witness for %s did not reach it natively: exit %s %s" % (lab, p.returncode, p.stdout[-300:]), out)
            if r["status"] == "ok" and p.returncode not in (0, 77, 78): return (u, e, n, "native run of a witness failed: exit %s %s" % (p.returncode, p.stdout[-300:]), out)
            if p.returncode in (0, 78): out.append({"entry": u.name + ":" + e, "label": lab, "inputs": {k: inp[k] for k in list(inp)[:12]}, "native": "exit %d" % p.returncode})
        return (u, e, n, None, out)
    vres = list(pool.map(validate, [x for x in results if x[2].get("status") in ("ok", "violated")]))
    for u, e, n, err, out in vres:
        validated += len(out); samples += out
        if err: bad.append("%s:%s encoding does not match the real code: %s" % (u.name, e, err))
    # ---- counterexamples
    known = [k for k in json.load(open(V + "/known_findings.json"))["findings"] if k["property"] == prop] if os.path.exists(V + "/known_findings.json") else []
    replays = 0; knownhit = []; undecided = []
    for u, e, r in results:
        if e.startswith("k_"):
            kf = [k for k in known if k["entry"] == u.name + ":" + e]
            if r["status"] == "violated":
                v = r["violations"][0]; conf = confirm(replay, u, e, v)
                replays += 1
                if conf and kf: knownhit.append((kf[0], v)); continue
                if conf: viol.append((u, e, v, conf)); continue
                bad.append("%s:%s counterexample does not replay" % (u.name, e))
            elif r["status"] not in ("ok", "vacuous"): bad.append("%s:%s %s %s" % (u.name, e, r["status"], r.get("error", "")))
            continue
        if r["status"] == "violated":
            okc = False
            for v, conf in zip(r["violations"], confirmed.get((u.name, e), [])):
                replays += 1
                if conf: viol.append((u, e, v, conf)); okc = True; break
            if not okc: bad.append("%s:%s counterexample for '%s' does not replay natively: %s" % (u.name, e, r["violations"][0]["label"], json.dumps(r["violations"][0]["inputs"])[:600]))
        elif r["status"] == "skipped": pass
        elif r["status"] == "unknown" and len(results) > 1: undecided.append("%s:%s %s %s" % (u.name, e, r.get("error", ""), json.dumps(r.get("unknowns", ""))[:600]))
        elif r["status"] != "ok":
            bad.append("%s:%s %s %s %s %s" % (u.name, e, r["status"], r.get("error", ""), ("unreached: " + r.get("vacuous", "")) if r["status"] == "vacuous" else "", json.dumps(r.get("unknowns", ""))[:400] + r.get("stderr", "")))
    for kf, v in knownhit: log("KNOWN-FINDING: property=%s %s" % (prop, kf["what"]))
    wall = time.time() - T0
    fns = sorted({f for _, _, r in results for f in r.get("functions", []) if "boost::random" in f or "boost::uuids" in f})
    S = lambda k: sum(r.get(k, 0) or 0 for _, _, r in results)
    by = {}
    for _, _, r in results:
        for k, n in (r.get("by_solver") or {}).items(): by[k] = by.get(k, 0) + n
    cuts = {}
    for _, _, r in results:
        for k, n in (r.get("cuts") or {}).items(): cuts[k] = cuts.get(k, 0) + n
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": round(wall, 2), "violations": len(viol),
          "coverage": {"states": S("nodes"), "transitions": S("steps"), "traces_validated_against_impl": validated + replays,
                       "samples": samples[:6] + [{"violation": v["label"], "inputs": v["inputs"]} for _, _, v, _ in viol][:4],
                       "explanation": "states = distinct symbolic expression nodes built by executing the real code's LLVM IR; transitions = IR instructions executed symbolically; traces_validated_against_impl = solver-made input assignments replayed through a native build of the same harness and agreeing with the encoding.",
                       "entries": [{"entry": u.name + ":" + e, "status": r.get("status"), "obligations": r.get("n_obligations", 0), "unsat": r.get("unsat", 0), "sat": r.get("sat", 0), "undecided": r.get("undecided", 0), "queries": r.get("queries", 0), "solver_s": round(r.get("solver_s", 0), 2), "wall_s": round(r.get("wall_s", 0), 2), "forks": r.get("forks", 0), "merges": r.get("merges", 0), "instructions": r.get("steps", 0), "slowest_obligation_s": round(r.get("slowest", 0), 2), "symbolic_inputs": len(r.get("inputs", {})), "symbolic_input_bits": sum((r.get("inputs") or {}).values())} for u, e, r in results],
                       "obligations": S("n_obligations"), "discharged": S("unsat"), "queries": S("queries"), "feasibility_checks": S("feasibility_checks"), "solver_s": round(S("solver_s"), 2), "decided_by": by,
                       "functions_encoded": fns, "bounds": [b for u in units for b in u.bounds], "cuts_taken": cuts,
                       "known_findings": [k["what"] for k, _ in knownhit], "errors": bad, "undecided": undecided},
          "assumptions": sorted({a for u in units for a in u.assume} | {a for _, _, r in results for a in r.get("assumptions", [])})}
    if not only: json.dump(ev, open(V + "/evidence/" + prop + ".json", "w"), indent=1)
    for u, e, r in results:
        log("  %-40s %-9s obl %4d q %5d forks %4d steps %8d solver %6.1fs wall %6.1fs slowest %5.1f %s" % (u.name + ":" + e, r.get("status"), r.get("n_obligations", 0), r.get("queries", 0), r.get("forks", 0), r.get("steps", 0), r.get("solver_s", 0), r.get("wall_s", 0), r.get("slowest", 0), r.get("slowest_label", "")))
    for b in bad: log("ERROR", b)
    for b in undecided: log("UNDECIDED (not explored)", b)
    if len(undecided) * 4 > len(results): bad.append("more than a quarter of the entries undecided")
    for u, e, v, conf in viol:
        path = V + "/evidence/replay/%s-%s-%s.in" % (prop, u.name, e); write_inputs(path, u, e, v["inputs"])
        open(path, "a").write("!label %s\n!where %s\n!native %s\n" % (v["label"], v["where"], conf.replace("\n", " | ")))
        log("violated: %s in %s:%s (%s); native replay: %s" % (v["label"], u.name, e, v["where"], conf))
        log("VIOLATION property=%s replay=%s" % (prop, path))
    log("%s %s: %d entries, %d obligations, %d discharged, %d violations, %.1fs" % (prop, tier, len(results), S("n_obligations"), S("unsat"), len(viol), wall))
    if errors:
        for e in errors: log("ERROR", e)
    if viol: return 1
    return 2 if bad or errors else 0

def confirm(replay, u, e, v):
    """a counterexample counts when a native build of the same harness fails on it too"""
    for kind in ("san", "opt"):
        p = replay(u, e, v["inputs"], kind, "v")
        if p is None: continue
        if p.returncode == 1 and ("ASSERTION FAILED" in p.stdout or "FAILED:" in p.stdout): return kind + ": " + p.stdout.strip().split("\n")[-1][:300]
        if p.returncode not in (0, 77, 78, 3, 1) or "runtime error" in p.stderr or "AddressSanitizer" in p.stderr:
            m = re.search(r"(runtime error: .*|ERROR: AddressSanitizer: .*)", p.stderr); return kind + ": exit %s %s" % (p.returncode, m.group(1)[:300] if m else "")
        if p.returncode == 1: return kind + ": exit 1 " + p.stderr[-200:]
    return None
main()
