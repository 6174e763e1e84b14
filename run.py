#!/usr/bin/env python3
"""Decide one property by solver-based symbolic execution of /repo's current code.

    run.py ID          quick tier, or thorough with VERIF_TIER=thorough
    run.py ID --only E run a single entry (development)

exit 0: every assertion held on everything explored; exit 1: VIOLATION line;
exit 2: the check itself could not run.
"""
import sys, os, re, json, time, glob, hashlib, shutil, subprocess, tempfile, itertools
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("NSYM_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
NSYM = os.path.join(BUILD, "nsym")
NPROC = min(8, os.cpu_count() or 8)
CXX_COMMON = ["-std=gnu++17", "-include", "cstring", "-D__error_t_defined=1", "-w"]
IRFLAGS = ["-O1", "-gline-tables-only", "-emit-llvm", "-c", "-fno-delete-null-pointer-checks", "-fwrapv",
           "-fno-strict-aliasing", "-fno-vectorize", "-fno-slp-vectorize", "-fno-jump-tables",
           "-D_GLIBCXX_EXTERN_TEMPLATE=0"]
# the sources test "this" against null, which the unoptimised project build keeps
NOUB = ["-fno-delete-null-pointer-checks", "-fwrapv", "-fno-strict-aliasing"]
VARIANTS = {  # native replay builds: (flags, environment)
    "plain": (["-O0", "-g"], {}),
    "asan": (["-O1", "-g", *NOUB, "-fsanitize=address"], {"ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=0:detect_stack_use_after_return=1"}),
    "pattern": (["-O1", "-g", *NOUB, "-ftrivial-auto-var-init=pattern"], {"MALLOC_PERTURB_": "50"}),
}

def die(msg):
    print("ERROR: " + msg, flush=True); sys.exit(2)

def engine():
    """build the symbolic executor if it is missing or older than its sources"""
    src = sorted(glob.glob(os.path.join(ROOT, "engine", "*")))
    h = hashlib.sha256()
    for f in src: h.update(open(f, "rb").read())
    stamp = NSYM + ".sha"
    if os.path.exists(NSYM) and os.path.exists(stamp) and open(stamp).read() == h.hexdigest(): return
    os.makedirs(BUILD, exist_ok=True)
    cfg = lambda *a: subprocess.check_output(["llvm-config-18", *a], text=True).split()
    tmp = NSYM + ".%d" % os.getpid()
    cmd = ["g++", "-O2", "-g0", *cfg("--cxxflags"), "-fexceptions", "-std=c++17", "-w", os.path.join(ROOT, "engine", "engine.cpp"), "-o", tmp, *cfg("--ldflags", "--libs", "core", "irreader", "support"), "-lz3"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode: die("engine build failed\n" + r.stderr[-3000:])
    os.replace(tmp, NSYM); open(stamp, "w").write(h.hexdigest())

def sources():
    s = sorted(glob.glob(os.path.join(REPO, "source", "lib_*", "**", "*.cpp"), recursive=True))
    if not s: die("no sources under %s/source" % REPO)
    return s
def includes():
    return ["-I" + d for d in sorted(glob.glob(os.path.join(REPO, "source", "lib_*")))] + ["-I" + os.path.join(REPO, "source")]

def with_files(harness):
    """//@ with FILE: one more translation unit of the harness"""
    return [os.path.join(ROOT, "harness", f) for f in re.findall(r"^//@ with (\S+)", open(harness).read(), re.M)]

def sh(cmd, cwd=None):
    r = subprocess.run(cmd, capture_output=True, text=True, cwd=cwd)
    if r.returncode: raise RuntimeError("%s\n%s" % (" ".join(cmd), (r.stderr or r.stdout)[-4000:]))

def build_ir(work, harness):
    jobs, objs = [], []
    for i, f in enumerate(sources()):
        o = os.path.join(work, "r%d_%s.bc" % (i, os.path.basename(f)[:-4])); objs.append(o)
        jobs.append(["clang++-18", *CXX_COMMON, *IRFLAGS, *includes(), f, "-o", o])
    o = os.path.join(work, "rt.bc"); objs.append(o)
    jobs.append(["clang++-18", "-O1", "-gline-tables-only", "-emit-llvm", "-c", "-fno-builtin", "-D__NO_INLINE__", "-w", "-fno-vectorize", "-fno-slp-vectorize", "-std=c++17", os.path.join(ROOT, "runtime", "rt.cpp"), "-o", o])
    o = os.path.join(work, "h.bc"); objs.append(o)
    jobs.append(["clang++-18", *CXX_COMMON, *IRFLAGS, *includes(), "-I" + os.path.join(ROOT, "harness"), harness, "-o", o])
    for i, f in enumerate(with_files(harness)):
        o = os.path.join(work, "w%d.bc" % i); objs.append(o)
        jobs.append(["clang++-18", *CXX_COMMON, *IRFLAGS, *includes(), "-I" + os.path.join(ROOT, "harness"), f, "-o", o])
    def one(cmd):
        # the sources bind references to null and test "this" for it: no dereferenceability assumptions before optimising
        o = cmd[-1]; ll = o + ".ll"
        sh([x for x in cmd[:-1] if x != "-c"] + [ll, "-S", "-Xclang", "-disable-llvm-passes"])
        t = open(ll).read()
        open(ll, "w").write(re.sub(r" (dereferenceable|dereferenceable_or_null)\(\d+\)", "", t))
        sh(["opt-18", "-passes=default<O1>", "-vectorize-loops=false", "-vectorize-slp=false", ll, "-o", o])
    with ThreadPoolExecutor(NPROC) as ex: list(ex.map(one, jobs))
    out = os.path.join(work, "all.bc")
    sh(["llvm-link-18", *objs, "-o", out])
    return out

def build_native(work, harness, variant):
    flags, _ = VARIANTS[variant]
    d = os.path.join(work, variant); os.makedirs(d, exist_ok=True)
    jobs, objs = [], []
    for i, f in enumerate(sources() + with_files(harness) + [harness, os.path.join(ROOT, "runtime", "native.cpp")]):
        o = os.path.join(d, "o%d.o" % i); objs.append(o)
        # the harness itself by clang, as in the IR, so that it evaluates its own arguments in the same order
        cc = ["clang++-18"] + [x for x in flags if not x.startswith("-fsanitize")] if f == harness else ["g++", *flags]
        jobs.append([*cc, *CXX_COMMON, *includes(), "-I" + os.path.join(ROOT, "harness"), "-c", f, "-o", o])
    with ThreadPoolExecutor(NPROC) as ex: list(ex.map(sh, jobs))
    exe = os.path.join(d, "replay")
    sh(["g++", *flags, *objs, "-rdynamic", "-ldl", "-o", exe])
    return exe

def native(exe, variant, entry, inputs, tier, args, timeout=20):
    """-> (status, output); status in ok, fail, crash, hang"""
    scratch = tempfile.mkdtemp(prefix="nsym_replay_")
    try:
        inp = os.path.join(scratch, ".inputs")
        with open(inp, "w") as f:
            for n, i, w, v in inputs: f.write("%s %d %d %d\n" % (n, i, w, v))
        env = dict(os.environ); env.update(VARIANTS[variant][1])
        def lim():
            import resource
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if variant != "asan": resource.setrlimit(resource.RLIMIT_AS, (300 << 20, 300 << 20))
            resource.setrlimit(resource.RLIMIT_FSIZE, (64 << 20, 64 << 20))
        p = subprocess.Popen([exe, entry, inp, str(tier), *map(str, args)], cwd=scratch, env=env, stdin=subprocess.DEVNULL,
                             stdout=subprocess.PIPE, stderr=subprocess.STDOUT, preexec_fn=lim)
        try: out, _ = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill(); out, _ = p.communicate()
            return "hang", out.decode("latin1")[-2000:]
        out = out.decode("latin1")
        if "NSYM-DONE" in out and p.returncode == 0: return "ok", out
        if "NSYM-ASSUME-FALSE" in out and p.returncode == 0: return "assume", out
        if p.returncode == 77: return "fail", out
        return "crash", out + "\n[exit %d]" % p.returncode
    finally: shutil.rmtree(scratch, ignore_errors=True)

def expand(spec):
    r = []
    for part in spec.split(","):
        m = re.fullmatch(r"(-?\d+)-(\d+)", part)
        if m: r += range(int(m.group(1)), int(m.group(2)) + 1)
        else: r.append(int(part))
    return r

def entries(text, tier):
    """//@ entry NAME key=value ... ; args/args1/args2 list the integer parameters"""
    es = []
    for m in re.finditer(r"^//@ entry (\S+)(.*)$", text, re.M):
        kv = dict(x.split("=", 1) for x in m.group(2).split())
        if kv.get("tier") == "thorough" and tier == 0: continue
        g = lambda k, d=None: kv.get("t" + k, kv.get(k, d)) if tier else kv.get(k, d)
        lists = [expand(g(k)) for k in ("args", "args1", "args2") if g(k)]
        for a in itertools.product(*lists):
            es.append(dict(entry=m.group(1), args=list(a), time=float(g("time", "60" if tier == 0 else "600")), steplim=int(g("steps", "100000000"))))
    return es

def findings():
    r = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) entry=(\S+) msg=/(.*?)/ (.*)", l.strip())
            if m: r.append(m.groups())
    return r

def main():
    pid = sys.argv[1]
    tier = 1 if os.environ.get("VERIF_TIER", "quick") == "thorough" else 0
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    only = sys.argv[sys.argv.index("--only") + 1] if "--only" in sys.argv else None
    keep = "--keep" in sys.argv
    verbose = "-v" in sys.argv
    harness = os.path.join(ROOT, "harness", pid.lower() + ".cpp")
    if not os.path.exists(harness): die("no harness for " + pid)
    text = open(harness).read()
    t0 = time.time()
    engine()
    work = tempfile.mkdtemp(prefix="w_%s_" % pid, dir=BUILD)
    code = 2
    try: code = check(pid, tier, seed, only, harness, text, work, t0, verbose)
    except RuntimeError as e: print("ERROR: " + str(e), flush=True)
    finally:
        if keep: print("kept", work)
        else: shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)

def check(pid, tier, seed, only, harness, text, work, t0, verbose):
    jobs = entries(text, tier)
    if only: jobs = [j for j in jobs if re.fullmatch(only, j["entry"])]
    if not jobs: die("no entries")
    bc = build_ir(work, harness)
    t_build = time.time() - t0
    budget = (420 if tier == 0 else 6 * 3600)
    dump = None
    if tier: dump = os.path.join(work, "smt"); os.makedirs(dump)
    def run(k):
        j = jobs[k]
        left = budget - (time.time() - t0)
        if left < 5: return dict(j, skipped=True, complete=False, why="check time budget")
        out = os.path.join(work, "j%d.json" % k)
        cmd = [NSYM, bc, j["entry"], "--qtime", "120" if tier else "20", "--atime", "120" if tier else "20", "--time", "%.0f" % min(j["time"], left), "--steps", str(j["steplim"]), "--tier", str(tier), "--out", out]
        if dump: cmd += ["--dump", dump]
        for a in j["args"]: cmd += ["--arg", str(a)]
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=min(j["time"], left) * 2 + 120)
        if r.returncode or not os.path.exists(out): return dict(j, complete=False, why="engine failed: " + r.stderr[-300:], dead=True)
        res = json.load(open(out)); res.update(j)
        if verbose or r.stderr: print("   ", j["entry"], j["args"], "paths", res["paths"], "q", res["queries"], "%.1fs" % res["wall_s"], "" if res["complete"] else "INCOMPLETE " + res["why"], r.stderr[-200:], flush=True)
        return res
    with ThreadPoolExecutor(NPROC) as ex: res = list(ex.map(run, range(len(jobs))))
    live = [r for r in res if "paths" in r]
    print("%s: %d runs, %d paths, %d queries (%.1fs solver), build %.1fs, total %.1fs" % (pid, len(res), sum(r["paths"] for r in live), sum(r["queries"] for r in live), sum(r["solver_s"] for r in live), t_build, time.time() - t0), flush=True)

    # ---- violations: replay natively, report only what reproduces
    exes = {}
    def exe(v):
        if v not in exes: exes[v] = build_native(work, harness, v)
        return exes[v]
    kf = findings()
    reported, known, unconf = [], [], []
    seen = set()
    for r in live:
        for v in r["violations"]:
            key = (r["entry"], v["kind"], v["msg"], v["site"])
            if key in seen or len(reported) >= 8: continue
            f = [x for x in kf if x[0] == pid and re.fullmatch(x[1], r["entry"]) and re.search(x[2], v["msg"] + " @ " + v["site"])]
            ok = None
            for var in ("plain", "asan", "pattern"):
                st, out = native(exe(var), var, r["entry"], v["inputs"], tier, r["args"], 20)
                if st in ("fail", "crash", "hang"): ok = (var, st, out); break
            rec = dict(entry=r["entry"], args=r["args"], **{k: v[k] for k in ("kind", "msg", "site", "stack", "notes", "inputs")})
            if not ok: unconf.append(rec); continue
            seen.add(key)
            rec["replay"] = dict(variant=ok[0], status=ok[1], output=ok[2][-2000:])
            (known if f else reported).append(rec)
            if f: rec["finding"] = f[0][3]
    # ---- translator validation: witnesses of explored paths against the native build
    validated = mismatched = 0; mism = []
    wl = [(r, w) for r in live for w in r.get("witnesses", [])]
    cap = 160 if tier == 0 else 2000
    if len(wl) > cap: wl = [wl[i * len(wl) // cap] for i in range(cap)]
    if wl and not reported:
        e = exe("plain")
        def val(x):
            r, w = x
            st, out = native(e, "plain", r["entry"], w["inputs"], tier, r["args"], 30)
            outs = [int(o) for o in re.findall(r"^OUT (\d+)$", out, re.M)]
            return st == "ok" and outs == w["outs"], st, out
        with ThreadPoolExecutor(NPROC) as ex: vals = list(ex.map(val, wl))
        for (r, w), (ok, st, out) in zip(wl, vals):
            if ok: validated += 1
            else: mismatched += 1; mism.append(dict(entry=r["entry"], args=r["args"], status=st, inputs=w["inputs"][:40], expected=w["outs"][:40], output=out[-600:]))
    # ---- thorough: a second solver on the dumped assertion queries
    cross = None
    if dump:
        qs = sorted(glob.glob(dump + "/*.smt2")); n = len(qs)
        if n > 400: qs = [qs[i * n // 400] for i in range(400)]
        def x(q):
            t = open(q).read()
            def go(c):
                try: o = subprocess.run(c, capture_output=True, text=True, timeout=60).stdout
                except subprocess.TimeoutExpired: return "timeout"
                return "error" if "(error" in o else (o.split() or ["none"])[0]
            return go(["z3-new", q]), go(["cvc5", "--lang=smt2", q]), q
        with ThreadPoolExecutor(NPROC) as ex: rr = list(ex.map(x, qs))
        cross = dict(dumped=n, rerun=len(qs), agree=sum(a == b and a in ("sat", "unsat") for a, b, _ in rr), disagree=[q for a, b, q in rr if {a, b} == {"sat", "unsat"}], undecided=sum(not (a in ("sat", "unsat") and b in ("sat", "unsat")) for a, b, _ in rr))

    # ---- evidence
    checks = {}
    for r in live:
        for m, c in r["checks"].items():
            d = checks.setdefault(m, dict(reached=0, folded=0, solver=0, failed=0, undecided=0))
            for k in d: d[k] += c[k]
    inc = [dict(entry=r["entry"], args=r["args"], why=r["why"]) for r in res if not r.get("complete")]
    S = lambda k: sum(r[k] for r in live)
    cov = dict(
        states=S("paths"), transitions=S("steps"), traces_validated_against_impl=validated,
        samples=[dict(entry=r["entry"], args=r["args"], inputs=s) for r in live[:: max(1, len(live) // 12)] for s in r["samples"][:1]] or [dict(entry=r["entry"], args=r["args"]) for r in live[:3]],
        exhaustive=not inc, rule="states = complete symbolic paths, each standing for all inputs that satisfy its path condition; transitions = LLVM IR instructions interpreted",
        runs=len(res), forks=S("forks"), queries=S("queries"), queries_sat=S("sat"), queries_unsat=S("unsat"), queries_unknown=S("unknown"), queries_cached=S("cached"),
        branches_by_domain=S("domain"), branches_by_model=S("bymodel"), solver_s=round(S("solver_s"), 2), slowest_query_s=max([r["qmax_s"] for r in live] or [0]),
        symbolic_variables=S("nvars"), assertions=checks, covers={k: sum(r["covers"].get(k, 0) for r in live) for r in live for k in r["covers"]},
        functions_encoded=sorted({f for r in live for f in r["functions"]}),
        bounds=[m.strip() for m in re.findall(r"^//@ bounds (.*)$", text, re.M)],
        outside=[m.strip() for m in re.findall(r"^//@ outside (.*)$", text, re.M)],
        incomplete=inc[:50], unconfirmed=unconf[:20], witness_mismatches=mism[:20], known_findings=[k["finding"] for k in known],
        seconds_per_entry={e: round(sum(r["wall_s"] for r in live if r["entry"] == e), 1) for e in sorted({r["entry"] for r in live})})
    if cross: cov["second_solver"] = cross
    ev = dict(property=pid, tier="thorough" if tier else "quick", seed=seed, level="model_checking", coverage=cov,
              assumptions=["bounds as listed under coverage.bounds; nothing is claimed outside them",
                           "the IR is clang 18 -O1 of the current sources, the models in engine/models.hpp and runtime/rt.cpp stand for libc and libstdc++",
                           "Z3's verdicts are trusted" + (" (cross-checked, see second_solver)" if cross else "")],
              wall_s=round(time.time() - t0, 2), violations=len(reported))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", pid + ".json"), "w"), indent=1)

    for u in unconf: print("UNCONFIRMED (not reproduced natively, not reported): %s %s: %s @ %s" % (u["entry"], u["args"], u["msg"], u["site"]))
    for m in mism[:5]: print("WITNESS MISMATCH (encoding differs from the native build): %s %s %s" % (m["entry"], m["args"], m["status"]))
    if inc: print("incomplete runs: %d of %d, e.g. %s %s: %s" % (len(inc), len(res), inc[0]["entry"], inc[0]["args"], inc[0]["why"]))
    for f in sorted({k["finding"] for k in known}): print("KNOWN-FINDING: property=%s %s" % (pid, f))
    if reported:
        rd = os.path.join(ROOT, "replay", pid)
        shutil.rmtree(rd, ignore_errors=True); os.makedirs(rd)
        for i, v in enumerate(reported):
            p = os.path.join(rd, "v%d.json" % i); json.dump(v, open(p, "w"), indent=1)
            print("VIOLATION property=%s replay=%s" % (pid, p))
            print("   %s%s: %s: %s @ %s [%s: %s]" % (v["entry"], v["args"], v["kind"], v["msg"], v["site"], v["replay"]["variant"], v["replay"]["status"]))
            vals = " ".join("%s[%d]=%d" % (n, ix, val) for n, ix, w, val in v["inputs"][:16])
            print("   " + vals + ("  notes: " + "; ".join(x for x in v["notes"] if not x.startswith("var "))[:400]))
        print("replay one with: python3 %s/tools/replay.py %s" % (ROOT, os.path.join(rd, "v0.json")), flush=True)
        return 1
    if not live or not checks or all(c["reached"] == 0 for c in checks.values()) or sum(1 for r in live if r["paths"]) == 0:
        print("ERROR: nothing was explored"); return 2
    return 0

if __name__ == "__main__": main()
