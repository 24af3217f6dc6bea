#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the harnesses present"""
import glob, json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
checks, na = [], []
for l in open(H + "/properties.jsonl"):
    p = json.loads(l)["id"]
    hs = sorted(glob.glob(H + "/harness/%s.cpp" % p) + glob.glob(H + "/harness/%s_*.cpp" % p))
    if not hs or p in NA:
        na.append({"property": p, "reason": NA.get(p, "no harness yet")})
        continue
    tags = {"bound": [], "outside": [], "assume": []}
    for h in hs:
        for x in open(h):
            for t in tags:
                if x.startswith("//@ %s:" % t):
                    tags[t].append(x.split(":", 1)[1].strip())
    note = "Every path of the real code within the bounds, decided by z3. Bounds: " + "; ".join(tags["bound"]) + "."
    if tags["outside"]:
        note += " Not covered: " + "; ".join(tags["outside"]) + "."
    if tags["assume"]:
        note += " Assumes: " + "; ".join(tags["assume"]) + "."
    note += (" Doubles are exact reals (rounding covered by tolerances only); random draws are arbitrary values of "
             "their range; trusted: clang 18 front end, engine/ (instrumenter and runtime), z3.")
    checks.append({"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "python3 check.py %s --thorough" % p,
                   "evidence_file": "evidence/%s.json" % p,
                   "technique": "symbolic execution of the instrumented LLVM IR of the real code, z3 decides every branch and claim",
                   "level": "model_checking", "level_note": note})
m = {"version": 1, "setup_cmd": "sh setup.sh",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo; only fix: commits. See DESIGN.md."}
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
