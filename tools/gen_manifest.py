#!/usr/bin/env python3-vt
"""Writes MANIFEST.json from properties.jsonl and bounds.py and validates it."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import bounds
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks = []
for i in ids:
    q, t = bounds.B[i]; conc = i in ("C21", "C22", "C23")
    checks.append({"property": i, "quick_cmd": "./run.py %s --tier quick" % i, "thorough_cmd": "./run.py %s --tier thorough" % i, "evidence_file": "evidence/%s.json" % i,
        "technique": "solver-based checking: symbolic execution of the headers' LLVM IR with Z3, " + ("symbolic schedules and happens-before race checking" if conc else "symbolic inputs, operation sequences" + (" and allocation faults" if i == "C11" else "")) + "; counterexamples replayed natively",
        "level": "model_checking",
        "level_note": "Every path within the stated bounds is explored and every assertion decided by Z3; bounds (quick): " + q + ". Trusts clang's IR, the stubs in engine/rt.cpp and Z3; the encoding is validated on every run by executing solver models of explored paths natively" + (" under the same schedule" if conc else " under ASan/UBSan") + " and comparing the observations."})
m = {"version": 1, "setup_cmd": "./setup.sh", "hooks": {"guard": "none", "enable": "no hooks: /repo carries only fix: commits", "source_commits": []}, "checks": checks, "not_applicable": [],
     "notes": "run.py exits 2 (no answer) when a construct cannot be encoded, a solver answer is unknown or the encoding disagrees with the native run; see DESIGN.md"}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
for i in ids:
    p = V + "/evidence/%s.json" % i
    if os.path.exists(p): jsonschema.validate(json.load(open(p)), json.load(open("/root/.vp/EVIDENCE.schema.json")))
print("ok", len(checks))
