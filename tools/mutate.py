#!/usr/bin/env python3
"""Development tool: tries the checks on mutated copies of /repo (never on /repo itself).
  mutate.py specs.py [--props C01,C02 | --all] [--only id,..]     specs.py defines M = [(id, prop, file, old, new), ...]
  mutate.py --auto [--from N --to M]                              systematic single-line mutants of the headers
A mutant counts when it compiles and the existing tests pass. Results go to stdout and /tmp/mut/results.jsonl."""
import argparse, json, os, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); W = "/tmp/mut"
PROPS = ["C%02d" % i for i in range(1, 25)]
def prepare(mid, edits):
    d = "%s/%s" % (W, mid); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    for f in ("signals.hpp", "optional.hpp"): shutil.copy("/repo/" + f, d)
    shutil.copytree("/repo/tests", d + "/tests")
    for f, old, new in edits:
        s = open(d + "/" + f).read()
        if s.count(old) < 1: return None, "old text not found"
        if isinstance(new, tuple): n, new = new; parts = s.split(old); s = old.join(parts[:n + 1]) + new + old.join(parts[n + 1:])   # n-th occurrence
        else: s = s.replace(old, new)
        open(d + "/" + f, "w").write(s)
    return d, None
def tests(d):
    try:
        ps = [subprocess.Popen(["clang++-18", "-w", "-I" + d, "-I/usr/src/googletest/googletest/include", "-c", "%s/tests/%s" % (d, f), "-o", "%s/%s.o" % (d, f)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL) for f in ("connection_tests.cpp", "cow_tests.cpp", "signal_tests.cpp", "slot_tests.cpp", "tests_common.cpp")]
        if any([p.wait() for p in ps]): return "no-compile"
        if subprocess.run(["clang++-18", "-o", d + "/t"] + ["%s/%s.o" % (d, f) for f in ("connection_tests.cpp", "cow_tests.cpp", "signal_tests.cpp", "slot_tests.cpp", "tests_common.cpp")] + ["/repo/_build/lib/libgtest.a", "/repo/_build/lib/libgtest_main.a", "-pthread"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode: return "no-compile"
        for _ in range(2):
            if subprocess.run([d + "/t"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=40).returncode: return "tests-fail"
        return "pass"
    except subprocess.TimeoutExpired: return "tests-fail"
def check(d, p):
    o = "%s/out" % d; os.makedirs(o, exist_ok=True); t = time.time()
    r = subprocess.run([V + "/run.py", p, "--tier", "quick"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, VP_REPO=d, VP_OUT=o))
    return r.returncode, r.stdout.strip()[-700:], time.time() - t
OPS = [(r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r" && ", " || "), (r" \|\| ", " && "), (r"==", "!="), (r"!=", "=="), (r"if \(!", "if ("), (r"if \((?!!)", "if (!"), (r"\+\+i\b", "i += 2"), (r"> 1\b", "> 2"), (r"<(?= ?\*)", "<="), (r"std::move\((\w[\w.\->]*)\)", r"\1"), (r"\? (.+?) : (.+?);", r"? \2 : \1;"), (r"lock_type lock\(.*?\);", ""), (r"return !", "return "), (r"\.exchange\(", ".load(); m_Connected.store("), (r"exchange\(false\)", "load(std::memory_order_relaxed)")]
def auto():
    out = []
    for f in ("signals.hpp", "optional.hpp"):
        L = open("/repo/" + f).read().split("\n"); incom = False
        for i, l in enumerate(L):
            s = l.strip()
            if s.startswith("/*"): incom = True
            if incom:
                if "*/" in s: incom = False
                continue
            if not s or s.startswith("//") or s.startswith("#") or s.startswith("template") or s.startswith("using") or "static_assert" in s or "enable_if" in s or "noexcept(" in s or "operator==" in s or "operator!=" in s: continue
            code = l.split("//")[0]; cand = set()
            if s.endswith(";") and re.match(r"^[\w*].*[;]$", s) and not re.match(r"^(return|using|friend|class|struct|private|public|virtual|bool|T |T\*|std::|static|explicit|constexpr|const |auto |typename|storage|slot_type m|mutable|cow_type m|pointer_type m|function_type m|fuction_type m|InputIterator|args_type)", s): cand.add("")   # delete a statement
            for a, b in OPS:
                for m in re.finditer(a, code):
                    n = code[:m.start()] + re.sub(a, b, code[m.start():m.end()] if "(?" not in a else code[m.start():], count=1) + ("" if "(?" in a else code[m.end():])
                    if n != code: cand.add(n)
            for n in sorted(cand): out.append(("A%s%d_%d" % (f[0], i + 1, len([1 for o in out if o[0].startswith("A%s%d_" % (f[0], i + 1))])), f, i, l, n))
    return out
def main():
    ap = argparse.ArgumentParser(); ap.add_argument("specs", nargs="?"); ap.add_argument("--props"); ap.add_argument("--all", action="store_true"); ap.add_argument("--only"); ap.add_argument("--auto", action="store_true"); ap.add_argument("--list", action="store_true"); ap.add_argument("--step", type=int, default=1); ap.add_argument("--offset", type=int, default=0)
    a = ap.parse_args(); os.makedirs(W, exist_ok=True); res = open(W + "/results.jsonl", "a")
    if a.auto:
        ms = auto()
        if a.only: ms = [m for m in ms if m[0] in a.only.split(",")]
        ms = ms[a.offset::a.step]
        if a.list:
            for m in ms: print(m[0], "|", m[3].strip(), "=>", m[4].strip())
            return
        for mid, f, i, l, n in ms:
            d, e = prepare(mid, []); L = open(d + "/" + f).read().split("\n"); L[i] = n; open(d + "/" + f, "w").write("\n".join(L))
            st = tests(d); r = {"id": mid, "line": l.strip(), "new": n.strip(), "tests": st}
            if st == "pass":
                order = (["C%02d" % x for x in (17, 18, 19, 20, 3, 14)] if f[0] == "o" else ["C14", "C04", "C05", "C06", "C24", "C16", "C03", "C08", "C15", "C07", "C21", "C09", "C13", "C12", "C22", "C11", "C10", "C01", "C02", "C23"])
                caught = None; bad = []
                for p in (a.props.split(",") if a.props else order):
                    rc, o, t = check(d, p)
                    if rc == 1: caught = p; break
                    if rc == 2: bad.append(p + ": " + o[:300])
                r["caught"] = caught; r["noanswer"] = bad
            print(json.dumps(r), flush=True); res.write(json.dumps(r) + "\n"); res.flush(); shutil.rmtree(d, ignore_errors=True)
        return
    ns = {}; exec(open(a.specs).read(), ns)
    for m in ns["M"]:
        mid, prop, edits = m[0], m[1], m[2]
        if a.only and mid not in a.only.split(","): continue
        d, e = prepare(mid, edits)
        if e: print(mid, "SPEC ERROR", e); continue
        st = tests(d); print("%-8s %-4s tests:%s" % (mid, prop, st), flush=True)
        if st != "pass": shutil.rmtree(d, ignore_errors=True); continue
        for p in (PROPS if a.all else a.props.split(",") if a.props else prop.split("+")):
            rc, o, t = check(d, p); print("    %s rc=%d %.1fs %s" % (p, rc, t, "" if rc == 0 else o.split("\n")[0][:260]), flush=True)
        shutil.rmtree(d, ignore_errors=True)
main()
