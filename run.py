#!/usr/bin/env python3
"""Solver-based checking of LNLib: build the instrumented code from /repo, run the symbolic jobs of a property,
replay every counterexample natively, report.   run.py check PID [--tier quick|thorough] | setup | job ... """
import sys, os, json, hashlib, subprocess, glob, time, re, shutil, threading, signal
from concurrent.futures import ThreadPoolExecutor, as_completed
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("LN_REPO", "/repo")
BUILD = os.environ.get("LN_BUILD", os.path.join(HERE, "build"))
ENG = os.path.join(HERE, "engine"); HAR = os.path.join(HERE, "harness")
NPROC = min(8, os.cpu_count() or 8)
sys.path.insert(0, HERE)

INC = ["-isystem", "/usr/include/eigen3", "-I%s/src/LNLib/include" % REPO, "-I%s" % ENG, "-I%s" % HAR, "-I%s/dotnet/CAPI/include" % REPO]
DEFS = ["-std=c++17", "-DLNLIB_HOME", "-DEIGEN_DONT_VECTORIZE", "-D_GLIBCXX_ASSERTIONS", "-DEIGEN_DONT_PARALLELIZE", "-w"]

def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode != 0:
        raise RuntimeError("command failed (%d): %s\n%s" % (p.returncode, " ".join(cmd), p.stdout[-6000:]))
    return p.stdout

def fhash(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:24]

def headers():
    r = []
    for root in (REPO + "/src/LNLib", REPO + "/dotnet/CAPI"):
        for d, _, fs in os.walk(root):
            r += [os.path.join(d, f) for f in fs if f.endswith((".h", ".hpp", ".inl", ".hxx"))]
    return sorted(r)

def lib_sources(capi=False):
    r = []
    for d, _, fs in os.walk(REPO + "/src/LNLib"):
        r += [os.path.join(d, f) for f in fs if f.endswith((".cpp", ".cc", ".cxx"))]
    return sorted(r) + (sorted(glob.glob(REPO + "/dotnet/CAPI/src/*.cpp")) if capi else [])

def atomic(out, fn):
    tmp = out + ".tmp%d_%d" % (os.getpid(), threading.get_ident())
    fn(tmp); os.replace(tmp, out)

def build_plugin():
    src = ENG + "/symfp_pass.cpp"; out = "%s/symfp-%s.so" % (BUILD, fhash([src]))
    if not os.path.exists(out):
        atomic(out, lambda t: sh(["clang++-18", "-O1", "-shared", "-fPIC", "-fno-rtti", "-std=c++17", "-I/usr/lib/llvm-18/include",
            "-D_GNU_SOURCE", "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS", src, "-o", t]))
    return out

def build_rt():
    srcs = [ENG + "/symrt.cpp", ENG + "/sym.h"]; out = "%s/symrt-%s.o" % (BUILD, fhash(srcs))
    if not os.path.exists(out):
        atomic(out, lambda t: sh(["g++", "-std=c++17", "-O2", "-w", "-I" + ENG, "-c", srcs[0], "-o", t]))
    return out

def build_nrt():
    srcs = [ENG + "/nativert.cpp", ENG + "/sym.h"]; out = "%s/nativert-%s.o" % (BUILD, fhash(srcs))
    if not os.path.exists(out):
        atomic(out, lambda t: sh(["g++", "-std=c++17", "-O1", "-w", "-I" + ENG, "-c", srcs[0], "-o", t]))
    return out

HEADHASH = None
def hh():
    global HEADHASH
    if HEADHASH is None: HEADHASH = fhash(headers() + glob.glob(REPO + "/src/LNLib/Algorithm/*.cpp") + glob.glob(HAR + "/*.h") + [ENG + "/sym.h"])
    return HEADHASH

def libhh():
    return fhash(headers())

def compile_sym(src, plugin, key):
    out = "%s/s-%s-%s.o" % (BUILD, os.path.basename(src)[:-4], fhash([src], key + os.path.basename(plugin)))
    if os.path.exists(out): return out
    bc, bc2 = out + ".%d.bc" % os.getpid(), out + ".%d.2.bc" % os.getpid()
    try:
        sh(["clang++-18"] + DEFS + INC + ["-O1", "-Xclang", "-disable-llvm-passes", "-fPIC", "-emit-llvm", "-c", src, "-o", bc])
        sh(["opt-18", "-load-pass-plugin=" + plugin, "-passes=symfp,default<O1>", bc, "-o", bc2])
        atomic(out, lambda t: sh(["llc-18", "-relocation-model=pic", "-O1", "-filetype=obj", bc2, "-o", t]))
    finally:
        for f in (bc, bc2):
            if os.path.exists(f): os.unlink(f)
    return out

def compile_nat(src, key):
    out = "%s/n-%s-%s.o" % (BUILD, os.path.basename(src)[:-4], fhash([src], key))
    if not os.path.exists(out):
        atomic(out, lambda t: sh(["g++"] + DEFS + INC + ["-O1", "-fPIC", "-c", src, "-o", t]))
    return out

def build_sym(harness):
    """instrumented library + harness + symbolic runtime -> executable"""
    os.makedirs(BUILD, exist_ok=True)
    hs = [os.path.join(HAR, h + ".cpp") for h in harness]
    lk = libhh(); hk = hh()
    with ThreadPoolExecutor(NPROC) as ex:
        frt = ex.submit(build_rt)
        plugin = build_plugin()
        big = sorted(lib_sources("capi" in harness), key=lambda p: -os.path.getsize(p))
        fl = [ex.submit(compile_sym, s, plugin, lk) for s in big]
        fh = [ex.submit(compile_sym, s, plugin, hk) for s in hs]
        objs = [f.result() for f in fl]; hobjs = [f.result() for f in fh]; rt = frt.result()
    exe = "%s/sym-%s-%s" % (BUILD, harness[0], hashlib.sha256(" ".join(objs + hobjs + [rt]).encode()).hexdigest()[:20])
    if not os.path.exists(exe):
        atomic(exe, lambda t: sh(["g++", "-o", t, rt] + hobjs + objs + ["-lgmpxx", "-lgmp"]))
    return exe

NLOCK = threading.Lock()
def build_nat(harness):
    with NLOCK:
        hs = [os.path.join(HAR, h + ".cpp") for h in harness]; lk = libhh(); hk = hh()
        with ThreadPoolExecutor(NPROC) as ex:
            frt = ex.submit(build_nrt)
            fl = [ex.submit(compile_nat, s, lk) for s in sorted(lib_sources("capi" in harness), key=lambda p: -os.path.getsize(p))]
            fh = [ex.submit(compile_nat, s, hk) for s in hs]
            objs = [f.result() for f in fl]; hobjs = [f.result() for f in fh]; rt = frt.result()
        exe = "%s/nat-%s-%s" % (BUILD, harness[0], hashlib.sha256(" ".join(objs + hobjs + [rt]).encode()).hexdigest()[:20])
        if not os.path.exists(exe):
            atomic(exe, lambda t: sh(["g++", "-o", t] + hobjs + objs + [rt, "-lgmpxx", "-lgmp"]))
        return exe

# ------------------------------------------------------------------ jobs
class Stop: flag = False; procs = set(); lock = threading.Lock()

def jobname(j):
    return j["h"] + ("[" + ",".join("%s=%s" % kv for kv in sorted(j.get("p", {}).items())) + "]" if j.get("p") else "")

def run_job(exe, j, tier, deadline):
    if Stop.flag: return None
    left = deadline - time.time()
    if left < 3: return {"job": jobname(j), "skipped": True}
    budget = min(j.get("budget", 40 if tier == "quick" else 300), left)
    ptmo = int(min(j.get("path_timeout", 30 if tier == "quick" else 200), budget + 2))
    cmd = [exe, "--harness", j["h"], "--budget", "%.1f" % budget, "--path-timeout", str(ptmo), "--tier", "1" if tier == "thorough" else "0",
           "--query-timeout", str(j.get("qt", 3000 if tier == "quick" else 20000)), "--max-terms", str(j.get("max_terms", 60000))]
    for k, v in j.get("p", {}).items(): cmd += ["--param", "%s=%d" % (k, v)]
    env = dict(os.environ); env["VERIF_SEED"] = os.environ.get("VERIF_SEED", "1")
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env, start_new_session=True)
    with Stop.lock: Stop.procs.add(p)
    try:
        out, _ = p.communicate(timeout=budget + ptmo + 60)
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        p.communicate(); out = ""
    with Stop.lock: Stop.procs.discard(p)
    if Stop.flag and p.returncode != 0: return None
    try: r = json.loads(out.strip().splitlines()[-1])
    except Exception: r = {"job_error": "engine produced no result (rc %s)" % p.returncode, "violations": []}
    r["job"] = jobname(j); return r

def replay(nexe, j, cand, path, tier):
    """cand: kind|what|c:..|r:..  -> (reproduced, labels, output)"""
    fs = cand.split("|"); i = 2
    while i < len(fs) and not re.match(r"^[cr]:", fs[i]): i += 1
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write("# harness=%s params=%s kind=%s obligation=%s\n" % (j["h"], json.dumps(j.get("p", {})), fs[0], "|".join(fs[1:i])))
        f.write("# replay: python3 run.py replay %s\n" % os.path.basename(path))
        for x in fs[i:]: f.write(x + "\n")
    return replay_file(nexe, j, path, tier)

def replay_file(nexe, j, path, tier, trace=False):
    cmd = [nexe, "--harness", j["h"], "--model", path, "--tier", "1" if tier == "thorough" else "0"]
    if trace: cmd.append("--trace")
    for k, v in j.get("p", {}).items(): cmd += ["--param", "%s=%d" % (k, v)]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=20, cwd="/tmp")
    except subprocess.TimeoutExpired as e:
        return True, ["hang: the call does not return (20 s)"], "TIMEOUT"
    o = p.stdout.decode(errors="replace")
    labs = [l.split("\t")[1] for l in o.splitlines() if l.startswith("FAIL\t")]
    if p.returncode < 0: return True, labs + ["crash: signal %d" % -p.returncode], o
    return p.returncode == 1, labs, o

def load_known():
    p = HERE + "/known_findings.json"
    return json.load(open(p))["findings"] if os.path.exists(p) else []

def known_match(known, pid, j, labels):
    """every failing label of this replay must be covered by listed findings of this harness"""
    hit = set()
    for l in labels:
        ok = None
        for k in known:
            if k.get("status") != "known" or k["property"] != pid or not re.fullmatch(k["harness"], jobname(j)): continue
            if re.fullmatch(k["obligation"], l): ok = k["id"]; break
        if ok is None: return None
        hit.add(ok)
    return hit

def check(pid, tier):
    import props
    P = props.PROPS[pid]; t0 = time.time(); known = load_known()
    exe = build_sym(P["harness"]); tb = time.time() - t0
    jobs = [dict(j) for j in P["jobs"](tier)]
    total = P.get("budget", {}).get(tier, 150 if tier == "quick" else 1500)
    deadline = time.time() + total
    res, viol, kn, unconf, nexe = [], [], {}, [], None
    seen = set(); lock = threading.Lock()
    rdir = os.path.join(HERE, "build", "replays")
    def handle(j, r):
        nonlocal nexe
        with lock:
            per = {}
            for c in r.get("violations", []):
                fs = c.split("|"); key = (jobname(j), fs[0], fs[1] if fs[0] not in ("crash", "hang") else "")
                per[key] = per.get(key, 0) + 1
                if per[key] > 3 or key in seen: continue
                if nexe is None: nexe = build_nat(P["harness"])
                rp = os.path.join(rdir, "%s-%s.model" % (pid, hashlib.sha256(c.encode()).hexdigest()[:12]))
                ok, labs, out = replay(nexe, j, c, rp, tier)
                if not ok: unconf.append({"job": jobname(j), "candidate": c[:600], "replay": out[-300:]}); os.unlink(rp); continue
                seen.add(key)
                ids = known_match(known, pid, j, labs)
                if ids is not None:
                    for i in ids: kn[i] = kn.get(i, 0) + 1
                    continue
                viol.append((j, fs[1], labs, rp))
                if os.environ.get("LN_KEEPGOING"): continue
                Stop.flag = True
                with Stop.lock:
                    for p in list(Stop.procs):
                        try: os.killpg(p.pid, signal.SIGKILL)
                        except ProcessLookupError: pass
                return
    err = None
    with ThreadPoolExecutor(NPROC) as ex:
        futs = {ex.submit(run_job, exe, j, tier, deadline): j for j in jobs}
        for f in as_completed(futs):
            r = f.result()
            if r is None: continue
            res.append(r)
            if not Stop.flag and r.get("violations"):
                handle(futs[f], r)
    ran = [r for r in res if not r.get("skipped") and "job_error" not in r]
    S = lambda k: sum(r.get(k, 0) for r in ran)
    fns = sorted(set(x for r in ran for x in r["functions"])); reached = sorted(set(x for r in ran for x in r["reached"]))
    missing = [t for t in P.get("must_reach", []) if t not in reached]
    vac = [r["job"] for r in ran if r["obligations"] == 0 and not r["violations"]]
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other",
          "coverage": {
            "explanation": "Bounded symbolic execution of the LLVM IR of the listed functions, regenerated from /repo on this run; each path's "
              "obligations are decided by the SMT solver (z3-new, QF_NRA/QF_LRA) over all real values of the symbolic inputs within the stated bounds.",
            "functions_encoded": fns, "bounds": P["bounds"], "jobs": len(jobs), "jobs_run": len(ran), "jobs_skipped_for_time": [r["job"] for r in res if r.get("skipped")],
            "paths": S("paths"), "paths_completed": S("complete"), "paths_pruned_by_assumption": S("pruned_by_assume"), "jobs_with_all_paths_explored": sum(1 for r in ran if r["exhausted"]),
            "path_timeouts": S("path_timeouts"), "branches_undecided": S("unknown_branches"), "decisions": S("decisions"),
            "queries": S("queries"), "sat": S("sat"), "unsat": S("unsat"), "unknown": S("unknown"), "unsat_by_interval_solver": S("icp"), "solver_s": round(S("solver_s"), 2),
            "obligations": S("obligations"), "discharged_exactly": S("exact"), "discharged_within_tolerance": S("within_tol"),
            "boolean_on_path": S("path_boolean"), "inconclusive": S("inconclusive"), "inconclusive_labels": sorted(set(x for r in ran for x in r["inc"]))[:40],
            "concretizations": S("concretized"), "reached": reached, "must_reach_missing": missing, "jobs_without_obligation": vac,
            "unconfirmed_candidates": unconf[:20], "known_findings": kn, "job_errors": [r["job"] for r in res if "job_error" in r],
            "samples": [{k: r[k] for k in ("job", "paths", "queries", "unsat", "sat", "obligations", "exact", "solver_s", "wall_s")} for r in ran[:12]]},
          "assumptions": P.get("assumptions", []) + props.COMMON_ASSUMPTIONS, "wall_s": round(time.time() - t0, 2), "build_s": round(tb, 2), "violations": len(viol)}
    os.makedirs(HERE + "/evidence", exist_ok=True)
    json.dump(ev, open(HERE + "/evidence/%s.json" % pid, "w"), indent=1)
    for i, n in sorted(kn.items()):
        d = next(k for k in known if k["id"] == i)
        print("KNOWN-FINDING: property=%s %s" % (pid, d["what"]))
    print("%s %s: jobs %d/%d paths %d queries %d (unsat %d sat %d unknown %d) solver %.1fs obligations %d exact %d tol %d bool %d inconclusive %d wall %.1fs build %.1fs" % (
        pid, tier, len(ran), len(jobs), S("paths"), S("queries"), S("unsat"), S("sat"), S("unknown"), S("solver_s"), S("obligations"), S("exact"), S("within_tol"), S("path_boolean"), S("inconclusive"), time.time() - t0, tb))
    if os.environ.get("LN_VERBOSE"):
        for r in sorted(ran, key=lambda r: -r["wall_s"]):
            print("  %-60s paths %d/%d q %d ob %d ex %d tol %d inc %d unkb %d pto %d ex=%s wall %.1f" % (r["job"], r["complete"], r["paths"], r["queries"], r["obligations"], r["exact"], r["within_tol"], r["inconclusive"], r["unknown_branches"], r["path_timeouts"], r["exhausted"], r["wall_s"]))
            for x in r["inc"][:5]: print("      inc:", x)
        for u in unconf[:20]: print("  UNCONFIRMED", u)
        for e in ev["coverage"]["job_errors"]: print("  JOBERROR", e)
        if missing: print("  MISSING", missing)
        if vac: print("  VACUOUS", vac)
    if viol:
        keep = os.path.join(HERE, "replays"); os.makedirs(keep, exist_ok=True)
        for j, what, labs, rp in (viol if os.environ.get("LN_KEEPGOING") else viol[:5]):
            dst = os.path.join(keep, os.path.basename(rp)); shutil.copy(rp, dst)
            print("violated obligation: %s in %s (replayed natively: %s)" % (what, jobname(j), "; ".join(labs[:4])))
            print("VIOLATION property=%s replay=%s" % (pid, dst))
        return 1
    return 0

def main():
    a = sys.argv[1:]
    if a[0] == "check":
        tier = a[a.index("--tier") + 1] if "--tier" in a else os.environ.get("VERIF_TIER", "quick")
        sys.exit(check(a[1], tier))
    if a[0] == "setup":
        import props
        hs = sorted(set(h for p in props.PROPS.values() for h in p["harness"]))
        os.makedirs(BUILD, exist_ok=True)
        for h in hs: build_sym([h])
        for h in hs: build_nat([h])
        print("built", len(hs), "harness executables"); return
    if a[0] == "replay":
        import props
        path = a[1]; line = open(path).readline(); m = re.match(r"# harness=(\S+) params=(\{.*?\}) ", line)
        j = {"h": m.group(1), "p": json.loads(m.group(2))}; pid = os.path.basename(path).split("-")[0]
        os.makedirs(BUILD, exist_ok=True)
        ok, labs, out = replay_file(build_nat(props.PROPS[pid]["harness"]), j, os.path.abspath(path), "quick", True)
        print(out); print("reproduced" if ok else "not reproduced", labs); sys.exit(1 if ok else 0)
    if a[0] == "job":   # run.py job HARNESSFILE name k=v ...
        exe = build_sym([a[1]]); j = {"h": a[2], "p": {}, "budget": 100}
        for x in a[3:]:
            k, v = x.split("=")
            if k in ("budget", "qt", "path_timeout"): j[k] = int(v)
            else: j["p"][k] = int(v)
        print(exe); r = run_job(exe, j, os.environ.get("VERIF_TIER", "quick"), time.time() + 3000)
        vs = r.pop("violations", []); fn = r.pop("functions", []); print(json.dumps(r, indent=None)); print("functions", len(fn))
        for v in vs[:8]: print("CAND", v[:700])
        if vs:
            n = build_nat([a[1]])
            for v in vs[:4]:
                print("REPLAY", replay(n, j, v, BUILD + "/tmp.model", "quick"))
        return
main()
