#!/usr/bin/env python3
"""Development tool: builds /verif/seeded/<id>/ from a spec file, after confirming each in a scratch copy:
   mkseed.py specs.py [--only a,b]      specs.py defines SEEDS = [dict(id, prop, edits, demo, needs, breaks, flags)]"""
import json, os, shutil, subprocess, sys, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); W = "/tmp/seedw"
sys.path.insert(0, V + "/tools")
ns = {}; exec(open(sys.argv[1]).read(), ns); only = sys.argv[3].split(",") if len(sys.argv) > 3 else None
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
orig = sh("git -C /repo rev-list --max-parents=0 HEAD").stdout.strip()
base = sh("git -C /repo log --format=%H --grep=^fix: --reverse").stdout.split()
for s in ns["SEEDS"]:
    if only and s["id"] not in only: continue
    d = W + "/" + s["id"]; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    r = d + "/repo"; sh("git clone -q /repo %s" % r); bad = None
    for f, old, new in s["edits"]:
        t = open(r + "/" + f).read(); n = 0
        if isinstance(new, tuple): n, new = new
        elif t.count(old) != 1: bad = "old text found %d times: %s" % (t.count(old), old[:80]); break
        p = t.split(old)
        if len(p) < n + 2: bad = "not found"; break
        open(r + "/" + f, "w").write(old.join(p[:n + 1]) + new + old.join(p[n + 1:]))
    if bad: print(s["id"], "SPEC:", bad); continue
    diff = sh("git -C %s diff" % r).stdout
    # removed lines must be lines of the original repository
    own = 0; mine = 0
    for h in re.finditer(r"^--- a/(\S+)\n\+\+\+.*?(?=^diff|\Z)", diff, re.M | re.S):
        ln = 0
        for l in h.group(0).split("\n")[2:]:
            m = re.match(r"@@ -(\d+)", l)
            if m: ln = int(m.group(1)); continue
            if l.startswith("-"):
                if l[1:].strip():
                    b = sh("git -C /repo blame -l -s -L %d,%d -- %s" % (ln, ln, h.group(1))).stdout.split()[0].lstrip("^")
                    if any(x.startswith(b[:30]) for x in base): mine += 1
                    else: own += 1
                ln += 1
            elif l.startswith(" "): ln += 1
    demo = d + "/demo"; os.makedirs(demo)
    open(demo + "/demo.cpp", "w").write(ns["PRE"] + s["demo"])
    open(demo + "/demo.sh", "w").write("""#!/bin/bash
# Builds the demonstration against the headers in the current directory and runs it: 0 = the property holds.
d="$(cd "$(dirname "$0")" && pwd)"; o="$(mktemp -d)"; trap 'rm -rf "$o"' EXIT
clang++-18 -std=gnu++17 -w -g %s -I. "$d/demo.cpp" -o "$o/demo" -pthread || exit 3
ASAN_OPTIONS=detect_leaks=0 timeout -k 2 %d "$o/demo"
""" % (s.get("flags", "-O1"), s.get("timeout", 60))); os.chmod(demo + "/demo.sh", 0o755)
    a = sh("bash %s/demo.sh" % demo, cwd="/repo"); b = sh("bash %s/demo.sh" % demo, cwd=r)
    # compile + tests
    import importlib.util
    T = "connection_tests cow_tests signal_tests slot_tests tests_common".split()
    ps = [subprocess.Popen(["clang++-18", "-w", "-I" + r, "-I/usr/src/googletest/googletest/include", "-c", "%s/tests/%s.cpp" % (r, f), "-o", "%s/%s.o" % (d, f)], stderr=subprocess.DEVNULL) for f in T]
    tests = "no-compile" if any([p.wait() for p in ps]) else None
    if not tests:
        sh("clang++-18 -o %s/t %s /repo/_build/lib/libgtest.a /repo/_build/lib/libgtest_main.a -pthread" % (d, " ".join("%s/%s.o" % (d, f) for f in T)))
        tests = "pass" if all(sh("timeout 60 %s/t" % d).returncode == 0 for _ in range(3)) else "FAIL"
    ok = a.returncode == 0 and b.returncode not in (0, 3) and tests == "pass" and own > 0
    print("%-24s %s demo clean=%d patched=%d tests=%s original-lines=%d fix-lines=%d %s" % (s["id"], s["prop"], a.returncode, b.returncode, tests, own, mine, "KEPT" if ok else "REJECTED " + (a.stdout[-300:] if a.returncode else "") + (b.stdout[-200:] if b.returncode == 3 else "")), flush=True)
    if ok:
        o = V + "/seeded/" + s["id"]; shutil.rmtree(o, ignore_errors=True); shutil.copytree(demo, o); open(o + "/patch.diff", "w").write(diff)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(o + "/meta.json", "w"), indent=1)
    shutil.rmtree(d, ignore_errors=True)
