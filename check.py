#!/usr/bin/env python3
"""check.py ID: decides one property on /repo's current working tree.

Compiles the property's harnesses together with the repository's current
sources to LLVM IR, instruments the IR (engine/sxinst.cpp), links it with the
symbolic runtime (engine/sxrt.cpp) and explores every path within the bounds
in the harness header.  Counterexamples are replayed natively before they are
reported.  Exit status: 0 held on everything explored (claims
the solver could not decide in time are printed and listed in the evidence),
1 violated (VIOLATION line), 2 no answer.  SX_STRICT=1: undecided claims also
give 2.
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
from fractions import Fraction

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SX_REPO", "/repo")
Z3 = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3"
BUILD = os.path.join(HERE, "build")
LL = "/usr/lib/llvm-18/bin/"
CXX = "clang++-18"
NCPU = os.cpu_count() or 4
STD = ["-std=c++20", "-I" + os.path.join(HERE, "engine"), "-I" + os.path.join(HERE, "harness"),
       "-I" + os.path.join(REPO, "include"), "-I" + REPO, "-D_GLIBCXX_ASSERTIONS", "-ffp-contract=off", "-w",
       "-include", os.path.join(HERE, "engine", "sx_shim.hpp")]


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise RuntimeError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
    return r.stdout


def digest(*files):
    h = hashlib.sha256()
    for f in files:
        h.update(open(f, "rb").read())
        h.update(b"\0")
    return h.hexdigest()[:16]


def once(path, make):
    """builds path atomically unless it exists"""
    if os.path.exists(path):
        return path
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + ".%d.tmp" % os.getpid()
    make(tmp)
    os.replace(tmp, path)
    return path


E = lambda n: os.path.join(HERE, "engine", n)


def engine_inst():
    d = digest(E("sxinst.cpp"))

    def mk(out):
        fl = sh(["llvm-config-18", "--cxxflags", "--ldflags", "--libs", "core", "irreader", "bitwriter"]).split()
        sh([CXX, "-O0", "-std=c++17", E("sxinst.cpp"), "-o", out] + [f for f in fl if not f.startswith("-std")
                                                                        and f != "-fno-exceptions"])
    return once(os.path.join(BUILD, "sxinst-" + d), mk)


def engine_rt():
    d = digest(E("sxrt.cpp"), E("poly.hpp"), E("sx.h"), E("sx_env.hpp"))
    return once(os.path.join(BUILD, "sxrt-" + d + ".o"),
                lambda out: sh([CXX, "-std=c++20", "-O1", "-I" + Z3 + "/include", "-c", E("sxrt.cpp"), "-o", out]))


def engine_replay():
    d = digest(E("sxreplay.cpp"), E("sx.h"), E("sx_env.hpp"))
    return once(os.path.join(BUILD, "sxreplay-" + d + ".o"),
                lambda out: sh([CXX, "-std=c++20", "-O1", "-fsanitize=address", "-c", E("sxreplay.cpp"), "-o", out]))


class Harness:
    def __init__(self, path):
        self.path = path
        self.name = os.path.splitext(os.path.basename(path))[0]
        self.must = []  # marks that some input has to reach: missing one is a violation
        self.srcs, self.runs, self.reach, self.bounds, self.assume, self.outside = [], {"quick": [], "thorough": []}, [], [], [], []
        self.flags, self.optimise = [], False
        for l in open(path):
            m = re.match(r"//@\s*([a-z ]+):\s*(.*)", l)
            if not m:
                continue
            k, v = m.group(1).strip(), m.group(2).strip()
            if k == "src":
                self.srcs += v.split()
            elif k == "optimise":  # the harness' own unit is optimised before it is encoded, as a user's program is
                self.optimise = True
            elif k == "flags":
                self.flags += v.split()
            elif k == "run quick":
                self.runs["quick"].append(v)
            elif k == "run thorough":
                self.runs["thorough"].append(v)
            elif k == "reach":
                self.reach += v.split()
            elif k == "must":
                self.must += v.split()
            elif k == "bound":
                self.bounds.append(v)
            elif k == "assume":
                self.assume.append(v)
            elif k == "outside":
                self.outside.append(v)

    def build(self, work):
        t0 = time.time()
        san = ["-fsanitize=address"]
        units = [self.path] + [os.path.join(REPO, s) for s in self.srcs]

        def one(u):
            o = os.path.join(work, self.name + "-" + re.sub(r"\W", "_", os.path.relpath(u, "/")) + ".bc")
            sh([CXX, "-O1", "-Xclang", "-disable-llvm-passes", "-emit-llvm", "-c", "-D_GLIBCXX_EXTERN_TEMPLATE=0",
                "-DSX_SYMBOLIC", u, "-o", o] + san + self.flags + STD)
            if self.optimise and u == self.path:
                sh([LL + "opt", "-passes=default<O2>", "-vectorize-loops=false", "-vectorize-slp=false", o, "-o", o])
            return o
        with cf.ThreadPoolExecutor(4) as ex:
            bcs = list(ex.map(one, units))
        b = os.path.join(work, self.name)
        sh([LL + "llvm-link", "-o", b + ".l.bc"] + bcs)
        sh([LL + "opt", "-passes=internalize,globaldce,function(sroa)",
            "-internalize-public-api-list=sx_main", b + ".l.bc", "-o", b + ".o.bc"])
        sh([engine_inst(), b + ".o.bc", b + ".i.bc"])
        sh([CXX, "-O1", "-fsanitize=address", "-w", "-c", b + ".i.bc", "-o", b + ".o"])
        sh([CXX, "-fsanitize=address", "-o", b + ".sym", b + ".o", engine_rt(), "-L" + Z3 + "/lib", "-lz3",
            "-Wl,-rpath," + Z3 + "/lib", "-lgmpxx", "-lgmp", "-lfmt"])
        self.exe = b + ".sym"
        self.build_s = time.time() - t0
        return self

    def native(self, work):
        exe = os.path.join(work, self.name + ".native")
        if not os.path.exists(exe):
            sh([CXX, "-O2" if self.optimise else "-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize=vptr,function", self.path,
                engine_replay(), "-o", exe, "-lfmt"]
               + [os.path.join(REPO, s) for s in self.srcs] + self.flags + STD)
        return exe

    def explore(self, work, cfg, jobs, budget, seed, scratch):
        opts, params = [], []
        toks = cfg.split()
        while toks:
            t = toks.pop(0)
            if t.startswith("--"):
                opts += [t, toks.pop(0)]
            else:
                params.append(t)
        out = os.path.join(work, "%s-%s.json" % (self.name, "_".join(params)))
        if "--time" not in opts:
            opts += ["--time", str(budget)]
        r = subprocess.run([self.exe, "--jobs", str(jobs), "--seed", str(seed), "--out", out, "--scratch", scratch]
                           + opts + params, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors="replace")
        if r.returncode or not os.path.exists(out):
            raise RuntimeError("engine failed on %s %s: %s" % (self.name, cfg, r.stdout[-2000:]))
        d = json.load(open(out))
        d["params"] = params
        d["cfg"] = cfg
        return d


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    props = {}
    for l in open(os.path.join(HERE, "properties.jsonl")):
        p = json.loads(l)
        props[p["id"]] = p
    hs = [Harness(p) for p in sorted(glob.glob(os.path.join(HERE, "harness", pid + ".cpp"))
                                     + glob.glob(os.path.join(HERE, "harness", pid + "_*.cpp")))]
    if not hs:
        print("no harness for", pid)
        return 2
    only = os.environ.get("SX_ONLY")
    if only:
        hs = [h for h in hs if re.search(only, h.name)]
    known = []
    kf = os.path.join(HERE, "known-findings.json")
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf))["known"] if k["property"] == pid]
    os.makedirs(BUILD, exist_ok=True)
    work = os.environ.get("SX_WORK") or tempfile.mkdtemp(prefix="w-" + pid + "-", dir=BUILD)
    os.makedirs(work, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="sxs-" + pid + "-", dir="/tmp")
    budget = 240 if tier == "quick" else 3000
    limit = 700 if tier == "quick" else 7000  # seconds for the whole exploration
    # fatal: no answer at all; incon, notes: claims that stayed undecided (reported, the rest held)
    fatal, incon, results, violations, notes, validated, disagree = [], [], [], [], [], {}, []
    nprob = 0
    try:
        with cf.ThreadPoolExecutor(3) as ex:
            a, b = ex.submit(engine_inst), ex.submit(engine_rt)
            a.result(), b.result()
        with cf.ThreadPoolExecutor(4) as ex:
            list(ex.map(lambda h: h.build(work), hs))
        jobs = []
        for h in hs:
            for c in (h.runs[tier] or h.runs["quick"]):
                jobs.append((h, c))
        par = min(len(jobs), 4)
        per = NCPU if par <= 2 else max(3, NCPU // par + 1)

        def go(hc):
            left = limit - (time.time() - t0)
            return hc[0], hc[0].explore(work, hc[1], per, max(20, min(budget, left)), seed, scratch)
        with cf.ThreadPoolExecutor(par) as ex, cf.ThreadPoolExecutor(4) as nat:
            natives = [nat.submit(h.native, work) for h in hs]
            results = list(ex.map(go, jobs))
            for n in natives:
                n.result()

        def run_native(h, d, text, tag):
            f = os.path.join(work, "cand-%s-%s.txt" % (h.name, tag))
            open(f, "w").write(text)
            rd = tempfile.mkdtemp(dir=scratch)
            try:
                r = subprocess.run([h.native(work), f] + d["params"], cwd=rd, stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, text=True, errors="replace", timeout=60)
                return r.returncode, r.stdout + ("does not terminate within 15 s of CPU time" if r.returncode in (-9, -24) else "")
            except subprocess.TimeoutExpired as e:
                return -99, "does not terminate within 60 s"
            finally:
                shutil.rmtree(rd, ignore_errors=True)
        # inputs of some completed paths, run natively: validates the encoding, decides nothing
        todo = [(h, d, s, "%s-%d" % ("_".join(d["params"]), k)) for h, d in results for k, s in enumerate(d["samples"])]
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for (h, d, s, t), (rc, o) in zip(todo, ex.map(lambda x: run_native(x[0], x[1], x[2], "s" + x[3]), todo)):
                validated[rc] = validated.get(rc, 0) + 1
                if rc not in (0, 2):
                    disagree.append({"harness": h.name, "parameters": d["cfg"], "input": s, "status": rc, "output": o[-500:]})
        # violations: replay natively
        rdir = os.path.join(HERE, "evidence", "replay")
        def keep(h, d, v, k, rc, txt, msg):
            rf = os.path.join(rdir, "%s-%s-%d.txt" % (h.name, "_".join(d["params"]), k))
            open(rf, "w").write(v + "# harness %s, bounds %s\n# native run, status %d:\n" % (h.name, d["cfg"], rc)
                                + "".join("#   %s\n" % l for l in txt[-3000:].splitlines()))
            violations.append((msg, rf, h.name, txt))
        for h, d in results:
            tried, ok = {}, set()
            for k, v in enumerate(d["violations"]):
                msg = v.split("\n", 1)[0][2:]
                key = re.sub(r": .*", "", msg)
                if key in ok:
                    continue
                os.makedirs(rdir, exist_ok=True)
                rc, txt = run_native(h, d, v, "v%d" % k)
                tried.setdefault(key, []).append((k, v))
                if rc not in (0, 2):
                    ok.add(key)
                    keep(h, d, v, k, rc, txt, msg)
            # where functions like pow are only known by some of their laws, the draws the solver chose may not be the
            # ones at which the real functions differ: other draws for the same inputs
            for key in sorted(set(tried) - ok):
                for k, v in tried[key][:3]:
                    w = "\n".join(l for l in v.split("\n") if l[:2] not in ("u ", "n ", "i ", "w "))
                    if w == v or key in ok:
                        continue
                    for salt in range(40):
                        t = w.rstrip("\n") + "\nb salt %d\n" % (salt + 1)
                        rc, txt = run_native(h, d, t, "r%d-%d" % (k, salt))
                        if rc not in (0, 2):
                            ok.add(key)
                            keep(h, d, t, k, rc, txt, v.split("\n", 1)[0][2:])
                            break
            for key in set(tried) - ok:
                notes.append("%s %s: counterexample for '%s' did not reproduce natively" % (h.name, d["cfg"], key))
            for i in d["inconclusive"]:
                incon.append("%s %s: %s" % (h.name, d["cfg"], i))
            if not d["violations"]:
                pass
        # probabilities: the shares of the draws that lead to each outcome, summed over all paths
        for h, d in results:
            table = d.get("outcomes", [])
            wrong = [o for o in table if Fraction(o[2]) != Fraction(o[3])]
            nprob += len(table)
            if not wrong or d["inconclusive"] or d["violations"]:
                continue
            os.makedirs(rdir, exist_ok=True)
            rf = os.path.join(rdir, "%s-%s-probabilities.txt" % (h.name, "_".join(d["params"])))
            txt = "# harness %s, bounds %s: probabilities summed over all %d paths\n" % (h.name, d["cfg"], d["paths"])
            ok = True
            for k, (g, o, want, got, wit) in enumerate(table):
                if not any(w[0] == g for w in wrong):
                    continue
                rc, out = run_native(h, d, wit, "o%d" % k)
                same = "REPLAY: outcome %s\t%s\n" % (g, o) in out
                ok &= same or rc == 2
                txt += "# %s: outcome %s has probability %s instead of %s; one of its inputs (%s natively):\n%s" % (
                    g, o, got, want, "same outcome" if same else "status %d" % rc, wit)
            open(rf, "w").write(txt)
            msg = "; ".join("%s: %s has probability %s, should be %s" % (o[0], o[1], o[3], o[2]) for o in wrong[:6])
            if ok:
                violations.append((msg, rf, h.name, ""))
            else:
                notes.append("%s %s: outcomes did not reproduce natively (%s)" % (h.name, d["cfg"], msg))
        for h in hs:
            seen = set()
            for hh, d in results:
                if hh is h:
                    seen |= set(d["reach"])
            lost = [m for m in h.must if m not in seen]
            if lost and not any(d["inconclusive"] or d["violations"] for hh, d in results if hh is h):
                msg = "no input within the bounds leads to: " + " ".join(lost)
                os.makedirs(rdir, exist_ok=True)
                rf = os.path.join(rdir, h.name + "-never.txt")
                open(rf, "w").write("# all paths of harness %s were explored; %s\n" % (h.name, msg))
                violations.append((msg, rf, h.name, ""))
            elif lost:
                incon.append(h.name + ": not reached: " + " ".join(lost))
            for m in h.reach:
                if m not in seen and not any(v[2] == h.name for v in violations):
                    fatal.append("%s: vacuous, mark '%s' was never reached" % (h.name, m))
    except Exception as e:
        fatal.append("error: " + str(e))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
        if not os.environ.get("SX_WORK"):
            shutil.rmtree(work, ignore_errors=True)
    fresh = []
    for v in violations:
        k = next((k for k in known if re.search(k["match"], v[0] + "\n" + v[3])), None)
        if k:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
        else:
            fresh.append(v)
    S = lambda k: sum(d[k] for _, d in results)
    fns = sorted(set(f for _, d in results for f in d["functions"]))
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": S("paths"), "transitions": S("forks"), "traces_validated_against_impl": validated.get(0, 0) + len(violations),
            "native_disagreements": disagree,
            "samples": [{"harness": h.name, "parameters": d["cfg"], "paths": d["paths"], "path_ends": d["ends"],
                         "queries": d["queries"], "unsat": d["unsat"], "sat": d["sat"], "unknown": d["unknown"],
                         "solver_s": d["solver_s"], "wall_s": d["wall_s"], "reached": d["reach"]}
                        for h, d in results] or [{"none": True}],
            "explanation": "states: execution paths explored symbolically, each standing for all inputs that take it; "
                           "transitions: alternatives the solver found feasible at a branch",
            "exhaustive": not (fatal or incon or notes),
            "claims_checked": S("asserts"), "probabilities_checked": nprob, "decided_without_solver": S("trivial"),
            "solver_queries": S("queries"), "solver_unsat": S("unsat"), "solver_sat": S("sat"),
            "solver_unknown": S("unknown"), "solver_seconds": round(S("solver_s"), 3),
            "functions_encoded": fns,
            "bounds": [b for h in hs for b in h.bounds],
            "outside": [b for h in hs for b in h.outside],
            "inconclusive": fatal + incon + notes,
        },
        "assumptions": [a for h in hs for a in h.assume] + [
            "symbolic doubles are exact real numbers; rounding errors are covered by tolerances, not modelled",
            "random draws are arbitrary values of their distribution's range (engine/sx_shim.hpp)"],
        "wall_s": round(time.time() - t0, 2), "violations": len(fresh),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    print("%s [%s]: %d harness runs, %d paths, %d claims, %d queries (%d unsat, %d sat, %d unknown), solver %.1f s, wall %.1f s"
          % (pid, tier, len(results), S("paths"), S("asserts"), S("queries"), S("unsat"), S("sat"), S("unknown"),
             S("solver_s"), time.time() - t0))
    for h, d in results:
        print("  %s %s: %d paths %s, solver %.1f s, wall %.1f s" % (h.name, d["cfg"], d["paths"], d["ends"], d["solver_s"], d["wall_s"]))
    for v in fresh:
        print("  " + v[0][:600])
        print("VIOLATION property=%s replay=%s" % (pid, v[1]))
    for i in fatal + incon + notes:
        print("  inconclusive: " + i[:3000])
    if fresh:
        return 1
    if fatal or (os.environ.get("SX_STRICT") and (incon or notes)):
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
