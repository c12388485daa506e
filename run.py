#!/usr/bin/env python3
"""Driver: decides one property by symbolic execution of /repo's current headers (engine/sigsym), and replays what the
solver found against the really compiled code.   run.py PROPERTY [--tier quick|thorough]"""
import argparse, concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.abspath(__file__)); OUT = os.environ.get("VP_OUT", V); REPO = os.environ.get("VP_REPO", "/repo")
sys.path.insert(0, V)
import checks
ENG, HAR, BLD = V + "/engine", V + "/harness", V + "/build"
CPU = os.cpu_count() or 8
CXX = "clang++-18"
BC = ["-std=gnu++17", "-fwrapv", "-w", "-gline-tables-only", "-fno-vectorize", "-fno-slp-vectorize", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-emit-llvm", "-c", "-I" + REPO, "-I" + HAR]
CODES = {0: "ok", 40: "assertion failed", 41: "observations differ", 42: "data race", 43: "memory error", 44: "deadlock", 45: "terminate", 46: "lock misuse", 47: "missing input", 48: "assumption", 49: "schedule not followed", 214: "does not terminate"}

class Inconclusive(Exception): pass
def sh(cmd, timeout=600, env=None, check=True):
    e = dict(os.environ); e.update(env or {})
    try: p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, env=e, errors="replace")
    except subprocess.TimeoutExpired: raise Inconclusive("timeout: " + " ".join(cmd[:6]))
    if check and p.returncode: raise Inconclusive("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p
def digest(*files):
    h = hashlib.sha256()
    for f in files: h.update(open(f, "rb").read())
    return h.hexdigest()[:16]
def build_engine():
    src = [ENG + "/" + f for f in ("sigsym.cpp", "sigsym.h", "exec.inc")]
    out = BLD + "/sigsym-" + digest(*src)
    if not os.path.exists(out):
        os.makedirs(BLD, exist_ok=True); tmp = out + ".%d" % os.getpid()
        sh(["g++", "-O1", "-std=c++17", "-fno-rtti", "-w", "-I/usr/lib/llvm-18/include", src[0], "-o", tmp, "-lLLVM-18", "-L/usr/lib/llvm-18/lib", "-lz3"]); os.rename(tmp, out)
    return out
def hpath(src): return src if src.startswith("/") else HAR + "/" + src
def build_bc(w, src, defs, opt):
    n = w + "/" + re.sub(r"\W", "_", os.path.basename(src) + "_".join(defs) + opt)
    sh([CXX, *BC, opt, *defs, hpath(src), "-o", n + ".h.bc"]); sh([CXX, *BC, opt, ENG + "/rt.cpp", "-o", n + ".rt.bc"])
    sh(["llvm-link-18", n + ".h.bc", n + ".rt.bc", "-o", n + ".bc"]); return n + ".bc"
def build_asan(w, src, defs):
    n = w + "/" + re.sub(r"\W", "_", os.path.basename(src) + "_".join(defs)) + ".asan"
    sh([CXX, "-std=gnu++17", "-fwrapv", "-w", "-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-I" + REPO, "-I" + HAR, *defs, hpath(src), ENG + "/native_rt.cpp", "-o", n, "-pthread", "-ldl", "-rdynamic"]); return n
def build_plain(w, src, defs):
    n = w + "/" + re.sub(r"\W", "_", os.path.basename(src) + "_".join(defs)) + ".plain"
    sh([CXX, "-std=gnu++17", "-fwrapv", "-w", "-O0", "-g", "-I" + REPO, "-I" + HAR, *defs, hpath(src), ENG + "/native_rt.cpp", "-o", n, "-pthread", "-ldl", "-rdynamic"]); return n
def build_sched(w, src, defs):
    n = w + "/" + re.sub(r"\W", "_", os.path.basename(src) + "_".join(defs)) + ".sched"
    sh([CXX, *BC, "-O1", *defs, hpath(src), "-o", n + ".s.bc"])
    sh(["opt-18", "-passes=forceattrs,tsan-module,function(tsan)", "-force-attribute=sanitize_thread", n + ".s.bc", "-o", n + ".t.bc"])
    sh([CXX, "-std=gnu++17", "-w", "-O1", "-DVP_SCHED", "-I" + HAR, "-c", ENG + "/native_rt.cpp", "-o", n + ".o"])
    sh([CXX, "-O1", "-w", n + ".t.bc", n + ".o", "-o", n, "-pthread", "-ldl", "-rdynamic"]); return n
def write_cases(path, items):
    with open(path, "w") as f:
        for s in items:
            f.write("case\n" + "".join("in %s %d\n" % (n, v) for n, v in s["inputs"] if n != "uninit") + "".join("log %d\n" % v for v in s["log"]) + "sched " + " ".join(map(str, s["sched"])) + "\nend\n")
def run_cases(prog, cases, entry):
    p = sh([prog, cases, entry], env={"ASAN_OPTIONS": "detect_leaks=0:detect_stack_use_after_return=1", "UBSAN_OPTIONS": "print_stacktrace=0"}, check=False)
    codes = [int(m.group(2)) for m in re.finditer(r"^CASE (\d+) (\d+)$", p.stdout, re.M)]
    return codes, p.stdout

def main():
    ap = argparse.ArgumentParser(); ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick"); ap.add_argument("--entry"); ap.add_argument("--keep", action="store_true"); ap.add_argument("--verbose", "-v", action="store_true")
    a = ap.parse_args(); seed = int(os.environ.get("VERIF_SEED") or "1"); tier = a.tier; t0 = time.time()
    P = checks.PROPS[a.prop]; jobs = [j for j in P["jobs"] if tier in j.get("tiers", ("quick", "thorough")) and (not a.entry or j["entry"] == a.entry)]
    os.makedirs(BLD, exist_ok=True); os.makedirs(OUT + "/evidence", exist_ok=True)
    w = tempfile.mkdtemp(prefix="w-%s-" % a.prop, dir=BLD); rc = 2
    try: rc = decide(a, P, jobs, w, tier, seed, t0)
    except Inconclusive as e: print("INCONCLUSIVE property=%s %s" % (a.prop, e)); rc = 2
    finally:
        if not a.keep: shutil.rmtree(w, ignore_errors=True)
    sys.exit(rc)

def decide(a, P, jobs, w, tier, seed, t0):
    ex = cf.ThreadPoolExecutor(CPU); prop = a.prop
    fe = ex.submit(build_engine)
    def key(j): return (j.get("file", P["file"]), tuple(["-DTIER=%d" % (1 if tier == "thorough" else 0)] + j.get("defs", [])))
    bcs, nats, units, nocompile = {}, {}, [], []
    def opts(j):
        if os.environ.get("VP_LINES"): return ["-O0"]   # line coverage (development)
        return j.get("opt", ["-O1"]) + (j.get("opt_thorough", [] if j.get("threads") else ["-O0"]) if tier == "thorough" else [])
    def kindof(j): return "sched" if j.get("threads") else "asan"
    def submit(k, j):
        for o in opts(j):
            if (k, o) not in bcs: bcs[(k, o)] = ex.submit(build_bc, w, k[0], list(k[1]), o)
        if (k, kindof(j)) not in nats: nats[(k, kindof(j))] = ex.submit(build_sched if kindof(j) == "sched" else build_asan, w, k[0], list(k[1]))
    for j in jobs: submit(key(j), j)
    eng = fe.result(); bcf = {}; alone = {}
    for j in jobs:   # a harness that does not compile as a whole is compiled entry by entry: what still compiles still decides
        k = key(j)
        if any(bcs[(k, o)].exception() for o in opts(j)):
            if all(x["entry"] == j["entry"] for x in jobs if key(x) == k): nocompile.append("%s does not compile: %s" % (j["entry"], str(bcs[(k, opts(j)[0])].exception())[-900:])); continue
            f = "%s/%s_%s.cpp" % (w, os.path.basename(k[0])[:-4], j["entry"])
            open(f, "w").write("".join(l for l in open(hpath(k[0])).read().splitlines(True) if not l.startswith('extern "C" void') or l.startswith('extern "C" void %s(' % j["entry"])))
            alone[id(j)] = (f, k[1]); submit((f, k[1]), j)
    for j in jobs:
        k = alone.get(id(j), key(j)); e = [bcs[(k, o)].exception() for o in opts(j)]
        if any(e):
            if id(j) in alone: nocompile.append("%s does not compile: %s" % (j["entry"], [str(x) for x in e if x][0][-900:]))
            continue
        for o in opts(j): bcf[(k, o)] = bcs[(k, o)].result(); units.append((j, k, o))
    if not units: raise Inconclusive("\n".join(nocompile))
    limit = P.get("time", {}).get(tier, 240 if tier == "quick" else 3600)
    budget = P.get("budget", {}).get(tier, 600 if tier == "quick" else 6 * 3600); skipped = []
    def work(u, i, m):
        j, k, o = u; out = w + "/%s_%s_%d.json" % (j["entry"], o, i)
        left = t0 + budget - time.time()
        if left < 5: skipped.append("%s %s slice %d/%d" % (j["entry"], o, i, m)); return None
        cmd = [eng, bcf[(k, o)], "-entry", j["entry"], "-o", out, "-time", str(int(min(150 if j.get("soft") and tier == "quick" else limit, left))), "-seed", str(seed), "-samples", str(max(2, (24 if tier == "quick" else 120) // m)), "-maxviol", "3", "-mem", "3500"]
        if m > 1: cmd += ["-slice", "%d/%d" % (i, m), "-slicedepth", str(j.get("slicedepth", 2))]
        cmd += j.get("args", []) + (j.get("args_thorough", []) if tier == "thorough" else j.get("args_quick", []))
        if os.environ.get("VP_LINES"): cmd.append("-lines")
        p = sh(cmd, timeout=limit + 120, check=False)
        if not os.path.exists(out): raise Inconclusive("engine failed on %s: %s" % (j["entry"], p.stdout[-2000:]))
        r = json.load(open(out)); r["entry"], r["key"], r["opt"], r["job"] = j["entry"], k, o, j; return r
    fs = []
    for u in units:
        m = u[0].get("slices", 1)
        if isinstance(m, dict): m = m[tier]
        for i in range(m): fs.append(ex.submit(work, u, i, m))
    res = [r for r in (f.result() for f in fs) if r]
    nat = {k: f.result() for k, f in nats.items() if any(u[1] == k[0] for u in units)}
    # --- violations: only those that the real code reproduces are reported
    viols = [(r, v) for r in res for v in r["violations"]]; confirmed = []; unconf = []
    for n, (r, v) in enumerate(viols):
        if len(confirmed) >= 3 or n > 12: break
        c = confirm(w, n, r, v, nat)
        (confirmed if c else unconf).append((r, v, c))
    rep = OUT + "/replay"; known = load_known(prop); news = []
    for r, v, c in confirmed:
        sigtxt = "%s|%s|%s" % (r["entry"], v["kind"], v["msg"])
        if sigtxt in known: print("KNOWN-FINDING: property=%s %s" % (prop, known[sigtxt])); continue
        news.append((r, v, c))
    # --- vacuity: every witness must have been reached
    missing = {}
    hit = {}
    for r in res: hit.setdefault(r["entry"], set()).update(r["covers"])
    for j in jobs:
        need = set(j.get("covers", [])) - hit.get(j["entry"], set())
        if need and j["entry"] in hit: missing[j["entry"]] = sorted(need)
    # --- validation of the encoding: solver models of whole paths, run natively, must give the same observations
    validated, mism = 0, []
    groups = {}
    for r in res:
        for s in r["samples"]: groups.setdefault((r["entry"], r["key"], "sched" if r["job"].get("threads") else "asan"), []).append(s)
    def val(g, items):
        cf_ = w + "/val_%s_%s.txt" % (g[0], g[2]); write_cases(cf_, items); codes, out = run_cases(nat[(g[1], g[2])], cf_, g[0]); return g, items, codes, out
    if not news:
        for f in [ex.submit(val, g, it) for g, it in groups.items()]:
            g, items, codes, out = f.result()
            if len(codes) != len(items): mism.append("%s: native run incomplete: %s" % (g[0], out[-500:]))
            for s, c in zip(items, codes):
                if c == 0: validated += 1
                elif c not in (41, 47, 48, 49, 214) and len(news) < 3:   # the real code fails on a path's own solver model
                    r0 = next(r for r in res if r["entry"] == g[0]); news.append((r0, {"kind": "native", "msg": "the compiled code fails on the model of an explored path: " + CODES.get(c, "sanitizer report"), "where": "native run", "stack": [], "inputs": s["inputs"], "log": s["log"], "sched": s["sched"]}, (c, "%s build: exit %d (%s)" % (g[2], c, CODES.get(c, "sanitizer report")), out)))
                else: mism.append("%s: native run of a solver model gives %d (%s): %s" % (g[0], c, CODES.get(c, "?"), json.dumps(s)[:600]))
    tot = {}
    for r in res:
        for k, x in r["stats"].items(): tot[k] = tot.get(k, 0) + x
    inc = [r["entry"] + ": " + r["inconclusive"] for r in res if r["inconclusive"]]
    inc += nocompile
    soft = tuple(j["entry"] + ":" for j in jobs if j.get("soft"))   # very long histories: an implementation that is slow on them is not decided that far
    iscut = lambda x: x.endswith("time limit reached") or (soft and x.startswith(soft) and x.endswith("step limit of a path reached"))
    cut = [x for x in inc if iscut(x)] + ["not started within the budget: " + x for x in skipped]; inc = [x for x in inc if not iscut(x)]
    fns = sorted(set(x for r in res for x in r["functions"])); lines = sorted(set(x for r in res for x in r["lines"]))
    if os.environ.get("VP_LINES"): json.dump(lines, open(os.environ["VP_LINES"], "w"), indent=0)
    wall = time.time() - t0
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": round(wall, 2), "violations": len(news),
          "assumptions": checks.ASSUMPTIONS + P.get("assumptions", []),
          "coverage": {"states": tot.get("steps", 0), "transitions": tot.get("forks", 0) + tot.get("sched_points", 0), "traces_validated_against_impl": validated,
            "samples": [{"entry": r["entry"], "inputs": s["inputs"][:40], "observations": s["log"][:40], "schedule": s["sched"][:80]} for r in res for s in r["samples"][:1]][:6],
            "exhaustive": not inc and not cut and not news, "meaning": "states = LLVM instructions executed symbolically, transitions = solver-decided branch forks plus scheduling points; exhaustive = every feasible path within the bounds was explored",
            "bounds": P["bounds"][tier] if isinstance(P["bounds"], dict) else P["bounds"], "paths": tot.get("paths", 0), "branch_forks": tot.get("forks", 0), "infeasible_branches_pruned": tot.get("pruned", 0), "solver_queries": tot.get("queries", 0), "sat": tot.get("sat", 0), "unsat": tot.get("unsat", 0), "unknown": tot.get("unknown", 0),
            "assertions_checked": tot.get("asserts", 0), "assertion_queries": tot.get("assert_queries", 0), "paths_cut_by_assumptions": tot.get("assume_killed", 0), "scheduling_points": tot.get("sched_points", 0), "schedule_forks": tot.get("sched_forks", 0), "allocation_fault_points": tot.get("fault_points", 0),
            "solver_seconds": round(tot.get("solver_seconds", 0), 2), "engine_cpu_seconds": round(tot.get("seconds", 0), 2), "slowest_unit_s": round(max([r["stats"]["seconds"] for r in res] or [0]), 2), "units": ["%s %s" % (r["entry"], r["opt"]) for r in res][:64],
            "entries": {e: {"paths": sum(r["stats"]["paths"] for r in res if r["entry"] == e), "asserts": sum(r["stats"]["asserts"] for r in res if r["entry"] == e), "max_s": round(max(r["stats"]["seconds"] for r in res if r["entry"] == e), 1), "covers": sorted(hit.get(e, []))} for e in hit},
            "functions_encoded": fns, "header_lines_executed": len(set(x.split()[0] for x in lines)), "inconclusive": inc, "cut_by_time": cut, "missing_witnesses": missing, "encoding_mismatches": mism[:5]}}
    json.dump(ev, open(OUT + "/evidence/%s.json" % prop, "w"), indent=1)
    if a.verbose:
        for e, x in ev["coverage"]["entries"].items(): print("  %-24s %s" % (e, x))
    if news:
        os.makedirs(rep, exist_ok=True)
        for n, (r, v, c) in enumerate(news):
            p = "%s/%s-%d.txt" % (rep, prop, n)
            with open(p, "w") as f:
                f.write("property %s\nharness %s entry %s\nkind %s\nwhat %s\nwhere %s\nnative %s\n\nstack:\n%s\n\nsolver's assignment (native case file):\n" % (prop, r["key"][0], r["entry"], v["kind"], v["msg"], v["where"], c[1], "\n".join("  " + x for x in v["stack"])))
            with open(p, "a") as f:
                f.write("case\n" + "".join("in %s %d\n" % (x, y) for x, y in v["inputs"]) + "".join("log %d\n" % y for y in v["log"]) + "sched " + " ".join(map(str, v["sched"])) + "\nend\n\nnative output:\n" + c[2][-3000:])
            print("%s: %s at %s; native replay: %s" % (r["entry"], v["msg"], v["where"], c[1]))
        print("VIOLATION property=%s replay=%s/%s-0.txt" % (prop, rep, prop)); return 1
    bad = []
    if unconf: bad += ["unconfirmed counterexample %s %s: %s at %s %s" % (r["entry"], v["kind"], v["msg"], v["where"], json.dumps(v["inputs"])[:500]) for r, v, c in unconf]
    if inc: bad += inc
    if missing and not cut: bad.append("witness not reached: %s" % missing)
    if mism: bad += mism[:5]
    if bad:
        print("INCONCLUSIVE property=%s" % prop)
        for b in bad: print("  " + b[:1500])
        return 2
    c = ev["coverage"]
    if cut: print("NOTE property=%s exploration cut by the time budget, the property held on everything explored: %s" % (prop, "; ".join(sorted(set(cut)))[:600]))
    print("OK property=%s tier=%s paths=%d asserts=%d queries=%d (sat %d, unsat %d) validated=%d solver=%.1fs wall=%.1fs" % (prop, tier, c["paths"], c["assertions_checked"], c["solver_queries"], c["sat"], c["unsat"], validated, c["solver_seconds"], wall))
    return 0

def confirm(w, n, r, v, nat):
    """Run the solver's counterexample against the really compiled code. Returns (code, text, output) or None."""
    k, e = r["key"], r["entry"]; cfile = w + "/viol_%d.txt" % n; write_cases(cfile, [v]); cand = []
    if r["job"].get("threads"): cand = [("sched", build_sched)]
    else: cand = [("asan", build_asan), ("sched", build_sched)]
    for kind, b in cand:
        if (k, kind) not in nat: nat[(k, kind)] = b(w, k[0], list(k[1]))
        codes, out = run_cases(nat[(k, kind)], cfile, e)
        if codes and codes[0] not in (0, 41, 47, 48, 49): return codes[0], "%s build: exit %d (%s)" % (kind, codes[0], CODES.get(codes[0], "sanitizer report")), out
    if (k, "plain") not in nat: nat[(k, "plain")] = build_plain(w, k[0], list(k[1]))
    p = sh(["valgrind", "-q", "--error-exitcode=99", "--leak-check=no", nat[(k, "plain")], cfile, e, "x"], check=False, timeout=120)
    if p.returncode == 99: return 99, "valgrind: memory error", p.stdout
    return None
def load_known(prop):
    d = {}
    try: lines = open(V + "/known_findings.txt").read().splitlines()
    except OSError: return d
    for l in lines:
        m = re.match(r"known: property=(\S+) signature=\[(.*?)\] (.*)", l)
        if m and m.group(1) == prop: d[m.group(2)] = m.group(3)
    return d
if __name__ == "__main__": main()
