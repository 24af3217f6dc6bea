#!/usr/bin/env python3
"""mutation testing of the checks: tools/mutate.py WORKER WORKERS SCRATCH [file...]
Each mutant is one small change of a scratch copy of the sources; the checks of the properties its file
matters for run against it until one reports a violation.  Survivors are listed for inspection."""
import json, os, random, re, shutil, subprocess, sys, time
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
worker, workers, scratch = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
FILES = {
    "include/network.hpp": "N01 N03 N02 F01 A01",
    "include/connectivity.hpp": "N04",
    "include/network_io.hpp": "F01 F03 F05",
    "include/network_generation.hpp": "G01 G02 G03 F05 F01",
    "include/agent.hpp": "F02 C06",
    "include/agent_io.hpp": "F02 F05",
    "include/agents/activity_agent.hpp": "F02 C06",
    "include/agents/inertial_agent.hpp": "F02 C06",
    "include/agents/simple_agent.hpp": "F02 C06",
    "include/agents/discrete_vector_agent.hpp": "F02 C06",
    "include/util/math.hpp": "S01 S02 S03 S04 S06 A06",
    "include/util/erfinv.hpp": "S03",
    "include/util/misc.hpp": "F04 F01 F02",
    "include/model.hpp": "C04",
    "include/model_factory.hpp": "C06 C04",
    "include/simulation.hpp": "C03 C06 C04 C05",
    "src/main.cpp": "C07",
    "src/config_parser.cpp": "C02 C01",
    "include/config_parser.hpp": "C02 M02",
    "src/models/DeGroot.cpp": "M01 M02",
    "include/models/DeGroot.hpp": "M02 M01",
    "src/models/DeffuantModel.cpp": "M03 M04",
    "include/models/DeffuantModel.hpp": "M04 M03 M05",
    "src/models/DeffuantModelVector.cpp": "M05 M04",
    "src/models/ActivityDrivenModel.cpp": "A02",
    "include/models/ActivityDrivenModel.hpp": "A06 A03 A04 A01 A02",
    "src/models/InertialModel.cpp": "A05 A03 A06",
    "include/models/InertialModel.hpp": "A05",
}
SWAP = [(r"(?<![<>=!\-])<(?![<=>a-z])", "<="), (r"<=", "<"), (r"(?<![<>=\-])>(?![>=])", ">="), (r">=", ">"), (r"==", "!="), (r"!=", "=="),
        (r"(?<=[\w\])] )\+(?= [\w(])", "-"), (r"(?<=[\w\])] )-(?= [\w(])", "+"), (r"(?<=[\w\])] )\*(?= [\w(])", "/"),
        (r"(?<=[\w\])] )/(?= [\w(])", "*"), (r"\+=", "-="), (r"&&", "||"), (r"\|\|", "&&"), (r"!(?=[\w(])", ""),
        (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"(?<![\w.])0(?![\w.])", "1"), (r"(?<![\w.\"])1(?![\w.])", "2"),
        (r"(?<![\w.])0\.5(?![\w])", "0.25"), (r"(?<![\w.])1\.0(?![\w])", "0.5"), (r"(?<![\w.])2\.0(?![\w])", "1.0"),
        (r"\bIncoming\b", "Outgoing"), (r"\bcontinue\b", "break"), (r"\bbreak\b", "continue"), (r"\bi\b", "j"), (r"\bj\b", "i")]


def mutants(f, text):
    lines = text.split("\n")
    for n, l in enumerate(lines):
        s = l.strip()
        if not s or s.startswith(("//", "#", "*", "/*", "template", "using", "namespace")) or "fmt::print" in s:
            continue
        code = l.split("//")[0]
        for pat, new in SWAP:
            for m in re.finditer(pat, code):
                if code[:m.start()].count('"') % 2:
                    continue
                yield n, code[:m.start()] + new + code[m.end():]
        if s.endswith(";") and not s.startswith(("return", "}", "auto ", "const ", "double ", "size_t ", "int ", "std::vector", "bool ")) and ("=" in s or "(" in s):
            yield n, ""


def main():
    R = scratch + "/repo"
    todo = []
    for f in sys.argv[4:] or FILES:
        text = open("/repo/" + f).read()
        ms = list(mutants(f, text))
        frac = float(os.environ.get("MU_FRAC", "1")) * (0.2 if "erfinv" in f else 1)
        ms = random.Random(os.environ.get("MU_SEED", "1") + f).sample(ms, max(1, round(len(ms) * frac)))
        todo += [(f, n, new) for n, new in ms]
    mine = todo[worker::workers]
    print(len(todo), "mutants", flush=True)
    for k, (f, n, new) in enumerate(mine):
        text = open("/repo/" + f).read().split("\n")
        old = text[n]
        text[n] = new
        open(R + "/" + f, "w").write("\n".join(text))
        got = []
        for p in FILES[f].split():
            shutil.rmtree(scratch + "/work", ignore_errors=True)
            t = time.time()
            try:
                r = subprocess.run(["python3", "check.py", p], cwd=scratch + "/verif", env=dict(os.environ, SX_REPO=R, SX_WORK=scratch + "/work"),
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=900)
                rc = r.returncode
                out = r.stdout.decode(errors="replace")
                if rc == 1 and "VIOLATION" not in out:
                    rc = "1?"
            except subprocess.TimeoutExpired:
                rc = "timeout"
            got.append("%s=%s(%d)" % (p, rc, time.time() - t))
            if rc == 1 or rc not in (0, 1, "timeout"):
                break
        verdict = "killed" if rc == 1 else "nobuild" if rc not in (0, 1, "timeout") else "SURVIVED"
        print("%s %s:%d  [%s] -> [%s]  %s" % (verdict, f, n + 1, old.strip(), new.strip() if new else "", " ".join(got)), flush=True)
        shutil.copy("/repo/" + f, R + "/" + f)


main()
