#!/usr/bin/env python3
"""Runs the solver-based check of one property against /repo's current working tree.

  check.py ID [--tier quick|thorough]     decide the property (exit 0 held / 1 VIOLATION)
  check.py --replay FILE                  re-run a saved counterexample natively
  check.py --setup                        build the engine
"""
import concurrent.futures as cf, fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.path.join(V, "build")
LLVM = "/usr/lib/llvm-18/bin/"
GCCDIR = "/usr/lib/gcc/x86_64-linux-gnu/10"
CXX = "g++-10" if shutil.which("g++-10") else "g++"
JOBS = os.cpu_count() or 8
BCFLAGS = ["-std=c++14", "-O1", "-Xclang", "-disable-llvm-passes", "-emit-llvm", "-c", "-DNDEBUG",
           "-fno-threadsafe-statics", "-gline-tables-only", "-w", "-I", V + "/rt", "-I", V + "/harness", "-I", REPO + "/src"]
if os.path.isdir(GCCDIR): BCFLAGS.insert(0, "--gcc-install-dir=" + GCCDIR)
NATFLAGS = ["-std=c++14", "-O0", "-g1", "-DNDEBUG", "-fsanitize=address,return,unreachable", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-w",
            "-I", V + "/rt", "-I", V + "/harness", "-I", REPO + "/src"]
sys.path.insert(0, V)

def sh(cmd, timeout=None, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True, errors="replace", **kw)

def build_engine():
    os.makedirs(B, exist_ok=True)
    with open(B + "/.lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = sh(["make", "-j2", "-C", V + "/engine", "B=" + B])
        if r.returncode: raise SystemExit("engine build failed:\n" + r.stdout + r.stderr)

def sources():
    """library sources of the tree under test (programs with their own main are not part of the library)"""
    out = []
    for root, ds, fs in os.walk(REPO + "/src/candy"):
        ds.sort()
        for f in sorted(fs):
            if f.endswith((".cc", ".cpp", ".cxx")):
                p = os.path.join(root, f)
                rel = os.path.relpath(p, REPO + "/src/candy")
                if re.search(r"\bint\s+main\s*\(", open(p, errors="replace").read()): continue
                out.append((rel, p))
    return out

def tree_hash():
    h = hashlib.sha256()
    for root, ds, fs in os.walk(REPO + "/src/candy"):
        ds.sort()
        for f in sorted(fs):
            if f.endswith((".h", ".hpp", ".cc", ".cpp", ".cxx", ".inc", ".tcc")):
                p = os.path.join(root, f); h.update(p.encode()); h.update(open(p, "rb").read())
    h.update(repr((BCFLAGS, NATFLAGS, CXX)).encode())
    h.update(open(V + "/rt/support.cc", "rb").read()); h.update(open(V + "/rt/native_rt.cc", "rb").read()); h.update(open(V + "/rt/sym.h", "rb").read())
    return h.hexdigest()[:20]

def prune_cache(keep):
    ds = sorted(glob.glob(B + "/cache/*"), key=os.path.getmtime, reverse=True)
    for d in ds[6:]:
        if os.path.basename(d) != keep and time.time() - os.path.getmtime(d) > 1800: shutil.rmtree(d, ignore_errors=True)

def compile_many(jobs):
    """jobs: (cmd, out). Returns list of (out, ok, stderr)."""
    def one(j):
        cmd, out = j
        if os.path.exists(out): return (out, True, "")
        tmp = out + ".tmp%d" % os.getpid()
        r = sh(cmd + ["-o", tmp])
        if r.returncode == 0: os.rename(tmp, out); return (out, True, "")
        return (out, False, r.stderr)
    with cf.ThreadPoolExecutor(JOBS) as ex: return list(ex.map(one, jobs))

class Tree:
    def __init__(self):
        self.h = tree_hash(); self.dir = B + "/cache/" + self.h; os.makedirs(self.dir, exist_ok=True); os.utime(self.dir)
        prune_cache(self.h)
        self.src = sources(); self.notes = []
    def precompile(self, excludes=[[]]):
        """every translation unit a harness links, once as bitcode and once natively"""
        a = list({j[1]: j for e in excludes for k in ("bc", "nat") for j in self._jobs(k, e)}.values())
        a.sort(key=lambda j: 0 if "CandyBuilder" in j[1] else 1)
        self.fail = {o: err for o, ok, err in compile_many(a) if not ok}
        for o, err in self.fail.items(): self.notes.append("%s: %s" % (os.path.basename(o), err.strip().splitlines()[0][:300] if err.strip() else "failed"))
    def objs(self, kind, exclude): return [o for _, o in self._jobs(kind, exclude) if o not in self.fail]
    def _jobs(self, kind, exclude):
        jobs = []
        for rel, p in self.src:
            if any(re.search(x, rel) for x in exclude): continue
            o = self.dir + "/" + rel.replace("/", "_") + (".bc" if kind == "bc" else ".o")
            if kind == "bc": jobs.append(([LLVM + "clang++"] + BCFLAGS + [p], o))
            else: jobs.append(([CXX] + NATFLAGS + ["-c", p], o))
        if kind == "bc": jobs.append(([LLVM + "clang++"] + BCFLAGS + ["-fno-builtin", V + "/rt/support.cc"], self.dir + "/support.bc"))
        else: jobs.append(([CXX] + NATFLAGS + ["-c", V + "/rt/native_rt.cc"], self.dir + "/native_rt.o"))
        return jobs

def harness_key(h, tier): return hashlib.sha256(json.dumps([h["file"], defs(h, tier), [h.get(k, []) for k in ("cflags", "bcflags", "ncflags")], h.get("exclude", [])], sort_keys=True).encode()).hexdigest()[:12]

def params(h, tier):
    d = dict(h.get("params", {}))
    if tier == "thorough": d.update(h.get("tparams", {}))
    return d

def defs(h, tier):
    d = dict(h.get("defs", {}))
    if tier == "thorough": d.update(h.get("tdefs", {}))
    return ["-D%s=%s" % (k, v) for k, v in sorted(d.items())]

def build_bc(tree, h, tier, scratch):
    objs = tree.objs("bc", h.get("exclude", []))
    hb = os.path.join(scratch, harness_key(h, tier) + ".bc"); lb = hb[:-3] + ".l.bc"; pb = hb[:-3] + ".p.bc"
    r = sh([LLVM + "clang++"] + BCFLAGS + defs(h, tier) + h.get("cflags", []) + h.get("bcflags", []) + [V + "/harness/" + h["file"], "-o", hb])
    if r.returncode: return None, "harness does not compile: " + r.stderr.strip()[:1500]
    r = sh([LLVM + "llvm-link", hb] + objs + ["-o", lb])
    if r.returncode: return None, "link: " + r.stderr.strip()[:800]
    r = sh([B + "/symex", "prep", lb, pb, "harness"])
    if r.returncode: return None, "prep: " + r.stderr.strip()[:800]
    os.unlink(lb); os.unlink(hb)
    return pb, None

def build_native(tree, h, tier, scratch):
    objs = tree.objs("nat", h.get("exclude", []))
    ho = os.path.join(scratch, harness_key(h, tier) + ".o"); exe = ho[:-2] + ".exe"
    r = sh([CXX] + NATFLAGS + defs(h, tier) + h.get("cflags", []) + h.get("ncflags", []) + ["-c", V + "/harness/" + h["file"], "-o", ho])
    if r.returncode: return None, r.stderr[:1500]
    r = sh([CXX, "-fsanitize=address,return,unreachable", "-Wl,--gc-sections", "-Wl,--unresolved-symbols=ignore-all", "-o", exe, ho] + objs + ["-lz", "-lpthread"])
    if r.returncode: return None, r.stderr[:1500]
    return exe, None

def run_native(exe, syms, scratch, par={}, timeout=25):
    vf = tempfile.NamedTemporaryFile("w", dir=scratch, suffix=".val", delete=False)
    for n, w, v in syms: vf.write("%s %d %d\n" % (n, w, v))
    vf.close(); of = vf.name + ".obs"; cwd = tempfile.mkdtemp(dir=scratch)
    env = dict(os.environ, **{"SYM_PARAM_" + k: str(v) for k, v in par.items()}, SYM_REPLAY=vf.name, SYM_OBS=of, ASAN_OPTIONS="exitcode=99:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0", UBSAN_OPTIONS="print_stacktrace=1")
    try:
        r = subprocess.run([exe], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=timeout, text=True, errors="replace", cwd=cwd)
        rc, err = r.returncode, r.stderr
    except subprocess.TimeoutExpired: rc, err = "timeout", "did not finish within %d s" % timeout
    obs = []
    if os.path.exists(of):
        for l in open(of):
            k, v = l.rsplit(None, 1); obs.append([k, int(v)])
        os.unlink(of)
    os.unlink(vf.name); shutil.rmtree(cwd, ignore_errors=True)
    return rc, err, obs

def confirmed(rc): return rc in (101, 99, 102, 1, "timeout") or (isinstance(rc, int) and rc < 0)

def demangle(names):
    if not names: return []
    try: return subprocess.run(["c++filt"], input="\n".join(names), stdout=subprocess.PIPE, text=True).stdout.splitlines()
    except OSError: return names

FOUND = []
def run_harness(tree, h, tier, scratch, deadline, bcf, nat):
    """symbolic execution of one harness, native replay of its counterexamples and sampled paths"""
    res = {"name": h["name"], "bounds": h.get("bounds", ""), "status": "ok", "violations": [], "known": [], "unconfirmed": [], "validated": 0, "mismatch": [], "samples": []}
    t0 = time.time(); par = params(h, tier)
    pb, err = bcf.result()
    if len(FOUND) >= 3: res["status"] = "skipped"; res["reason"] = "enough violations found already"; return res
    if time.time() > deadline - 45: res["status"] = "not-run"; res["reason"] = "time limit of the tier reached"; return res
    if not pb: res["status"] = "not-run"; res["reason"] = err; return res
    out = os.path.join(scratch, h["name"] + ".jsonl")
    budget = h.get("ttime", 600) if tier == "thorough" else h.get("time", 120)
    budget = max(10, min(budget, deadline - time.time() - 40))
    args = [B + "/symex", "--time=%d" % budget, "--out=" + out, "--jobs=%d" % JOBS, "--samples=%d" % h.get("samples", 8), "--maxerr=6"] + h.get("args", []) + ["--param=%s=%s" % kv for kv in par.items()] + [pb]
    res["build_s"] = round(time.time() - t0, 1)
    try: r = sh(args, timeout=budget + 120)
    except subprocess.TimeoutExpired: res["status"] = "engine-timeout"; return res
    if os.environ.get("VERIF_STDERR"): print(r.stderr[-6000:])
    recs = []
    if os.path.exists(out):
        for l in open(out, errors="replace"):
            try: recs.append(json.loads(l))
            except ValueError: pass
    done = [x for x in recs if x["type"] == "done"]
    if not done: res["status"] = "engine-failed"; res["reason"] = (r.stderr or "")[-800:]; return res
    d = done[-1]; res["stats"] = {k: d[k] for k in d if k not in ("type",)}
    res["functions"] = sorted({f for x in recs if x["type"] == "functions" for f in x["names"]})
    res["unsupported"] = [x["what"] + " at " + x["loc"] for x in recs if x["type"] == "unsupported"][:10]
    crashes = [x for x in recs if x["type"] == "crash"]
    res["complete"] = not (d["pending"] or d["timeout_paths"] or d["limited"] or d["unsupported"] or d["unknown"] or crashes or d["stopped"])
    if crashes: res["engine_crashes"] = len(crashes)
    missing = [l for l in h.get("reach", []) if not d["reach"].get(l)]
    if missing: res["not_reached"] = missing
    exe, nerr = nat.result()
    if not exe: res["native_build_error"] = nerr
    errs = [x for x in recs if x["type"] == "error"]
    seen = set()
    for e in errs:
        key = (e["kind"], e["msg"].split("\n")[0], e["loc"])
        if key in seen or len(res["violations"]) >= 3: continue
        if not exe: res["unconfirmed"].append({"kind": e["kind"], "msg": e["msg"], "loc": e["loc"], "why": "no native build"}); continue
        rc, err, _ = run_native(exe, e["syms"], scratch, par)
        rec = {"kind": e["kind"], "msg": e["msg"], "loc": e["loc"], "trace": e["trace"], "syms": e["syms"], "native": rc, "native_stderr": err[-3000:], "harness": h["name"]}
        if confirmed(rc):
            seen.add(key); res["violations"].append(rec)
            if not h.get("finding"): FOUND.append(h["name"])
            if rc == "timeout": break
        elif len(res["unconfirmed"]) < 6: res["unconfirmed"].append({k: rec[k] for k in ("kind", "msg", "loc", "native", "syms")})
    for s in [x for x in recs if x["type"] == "sample"]:
        if exe:
            rc, err, obs = run_native(exe, s["syms"], scratch, par)
            if rc == 0 and [list(o) for o in s["obs"]] == obs: res["validated"] += 1
            elif len(res["mismatch"]) < 4: res["mismatch"].append({"syms": s["syms"], "expected": s["obs"][:40], "native": rc, "got": obs[:40], "err": err[-600:]})
        if len(res["samples"]) < 2: res["samples"].append({"harness": h["name"], "inputs": s["syms"][:64], "observations": s["obs"][:32], "path_constraints": s["constraints"], "instructions": s["steps"]})
    res["wall_s"] = round(time.time() - t0, 1)
    return res

def check(pid, tier):
    import props
    t0 = time.time(); seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = props.PROPS[pid]
    limit = 860 if tier == "quick" else 36000
    deadline = t0 + limit
    build_engine()
    os.makedirs(B, exist_ok=True); scratch = tempfile.mkdtemp(prefix="run-%s-" % pid, dir=B)
    os.makedirs(V + "/evidence", exist_ok=True)
    known = json.load(open(V + "/known_findings.json"))["findings"] if os.path.exists(V + "/known_findings.json") else []
    try:
        tree = Tree(); results = []
        hs = [h for h in spec["harnesses"] if tier != "quick" or not h.get("thorough_only")]
        sel = os.environ.get("VERIF_ONLY")
        if sel: hs = [h for h in hs if re.search(sel, h["name"])]
        tree.precompile([h.get("exclude", []) for h in hs])
        ex = cf.ThreadPoolExecutor(JOBS)
        bk, nk = {}, {}
        for h in hs:
            k = harness_key(h, tier)
            if k not in bk: bk[k] = ex.submit(build_bc, tree, h, tier, scratch)
        for h in hs:
            k = harness_key(h, tier)
            if k not in nk: nk[k] = ex.submit(build_native, tree, h, tier, scratch)
        bcs = [bk[harness_key(h, tier)] for h in hs]; nats = [nk[harness_key(h, tier)] for h in hs]
        cf.wait(bcs)
        pool = cf.ThreadPoolExecutor(int(os.environ.get("VERIF_PAR", "5")))
        futs = [pool.submit(run_harness, tree, h, tier, scratch, deadline, b, n) for h, b, n in zip(hs, bcs, nats)]
        for fu in futs:
            results.append(fu.result())
            if os.environ.get("VERIF_DEBUG"): print(json.dumps({k: v for k, v in results[-1].items() if k not in ("functions", "samples")}, indent=1)[:6000])
    finally: shutil.rmtree(scratch, ignore_errors=True)
    viol = []; rc = 0
    shutil.rmtree(V + "/evidence/replay-" + pid, ignore_errors=True)
    for r in results:
        hs = [h for h in spec["harnesses"] if h["name"] == r["name"]][0]
        for v in r["violations"]:
            if hs.get("finding"):
                kf = [k for k in known if k["id"] == hs["finding"] and k["property"] == pid and k.get("status") == "known"]
                if kf and re.search(kf[0].get("match", "."), v["msg"] + " @ " + v["loc"]): r["known"].append(kf[0]["what"]); continue
            viol.append((r, v))
    for r in results:
        for w in sorted(set(r["known"])): print("KNOWN-FINDING: property=%s %s" % (pid, w))
    for i, (r, v) in enumerate(viol):
        os.makedirs(V + "/evidence/replay-" + pid, exist_ok=True)
        f = V + "/evidence/replay-%s/%d.json" % (pid, i)
        json.dump({"property": pid, "tier": tier, **v}, open(f, "w"), indent=1)
        print("violation of %s in harness %s: %s: %s\n  at %s\n  inputs: %s\n  native replay: exit %s" % (pid, r["name"], v["kind"], v["msg"].split("\n")[0], v["loc"], " ".join("%s=%d" % (n, x) for n, w, x in v["syms"])[:600], v["native"]))
        print("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(f, V))); rc = 1
    ran = [r for r in results if "stats" in r]
    st = lambda k: sum(r["stats"].get(k, 0) for r in ran)
    fns = demangle(sorted({f for r in ran for f in r["functions"]}))
    repo_fns = sorted({f for f in fns if "Candy::" in f.split("(")[0] or f.startswith("ipasir")})
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": round(time.time() - t0, 2), "violations": len(viol),
          "coverage": {"states": st("paths") + st("assume_cut"), "transitions": st("steps"), "traces_validated_against_impl": sum(r["validated"] for r in results),
                       "samples": [s for r in results for s in r["samples"]][:6],
                       "exhaustive": bool(ran) and len(ran) == len(results) and all(r["complete"] for r in ran),
                       "meaning": "states = symbolic paths explored to the end (each stands for all inputs satisfying its path condition); transitions = IR instructions interpreted; exhaustive = every path within the stated bounds was explored and every query was decided",
                       "obligations_checked": st("obligations"), "solver_queries": st("queries"), "solver_sat": st("sat"), "solver_unsat": st("unsat"), "solver_unknown": st("unknown"), "solver_s": round(st("solver_s"), 2),
                       "functions_encoded": len(fns), "repo_functions_encoded": repo_fns[:400],
                       "harnesses": [{k: r.get(k) for k in ("name", "bounds", "status", "reason", "complete", "stats", "unsupported", "not_reached", "unconfirmed", "mismatch", "validated", "native_build_error", "engine_crashes", "wall_s", "known") if r.get(k) not in (None, [], "")} for r in results],
                       "compile_notes": tree.notes},
          "assumptions": spec.get("assumptions", []) + ["claims hold within the bounds listed per harness only", "the executor (/verif/engine), clang 18's IR and Z3 4.8.12 are trusted; sampled paths are replayed natively to validate them"]}
    json.dump(ev, open(V + "/evidence/%s.json" % pid, "w"), indent=1)
    n_ok = len(ran); tot = len(results)
    print("%s: %d/%d harnesses decided, %d paths, %d obligations, %d queries (%.1f s in solver), %d traces validated natively, exhaustive within bounds: %s, %.1f s" % (pid, n_ok, tot, st("paths"), st("obligations"), st("queries"), st("solver_s"), ev["coverage"]["traces_validated_against_impl"], ev["coverage"]["exhaustive"], time.time() - t0))
    for r in results:
        if r["status"] != "ok": print("  harness %s: %s %s" % (r["name"], r["status"], (r.get("reason") or "")[:400]))
        for k in ("unsupported", "not_reached", "mismatch", "unconfirmed"):
            if r.get(k): print("  harness %s: %s %s" % (r["name"], k, json.dumps(r[k])[:500]))
    if rc == 0 and n_ok == 0: print("no harness could be run: property not decided"); return 2
    return rc

def replay(f):
    import props
    v = json.load(open(f)); build_engine(); tree = Tree(); tree.precompile(); os.makedirs(B, exist_ok=True)
    h = [h for h in props.PROPS[v["property"]]["harnesses"] if h["name"] == v["harness"]][0]
    scratch = tempfile.mkdtemp(prefix="replay-", dir=B)
    try:
        exe, err = build_native(tree, h, v["tier"], scratch)
        if not exe: print(err); return 2
        rc, err, obs = run_native(exe, v["syms"], scratch, params(h, v["tier"])); print(err); print("exit", rc); return 1 if confirmed(rc) else 0
    finally: shutil.rmtree(scratch, ignore_errors=True)

if __name__ == "__main__":
    a = sys.argv[1:]
    if a and a[0] == "--setup": build_engine(); print("engine ready"); sys.exit(0)
    if a and a[0] == "--replay": sys.exit(replay(a[1]))
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a: i = a.index("--tier"); tier = a[i + 1]; del a[i:i + 2]
    sys.exit(check(a[0], "thorough" if tier == "thorough" else "quick"))
