#!/usr/bin/env python3
"""Development aid: random small edits of the sources, in scratch copies, run against the checks of their group.
usage: automut.py GROUP SEED COUNT [THREADS]   (lib core 2dlrf car time_delay egomotion_sensors tsvd)
Prints KILLED / SURVIVED / broken (does not parse); survivors are to be triaged by hand (equivalent, outside any property, missed)."""
import concurrent.futures as cf
import glob
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = "/repo/incremental_calibration"
X = "/repo/incremental_calibration_examples/incremental_calibration_examples_"
CHECKS = {"lib": "C14 C13 C16 C18 C27 C11 C10 C28 C12 C15 C07 C08 C17", "core": "C06 C09 C04 C05 C02 C01 C03 C14 C08 C07 C15", "tsvd": "C19 C24"}
EX = "C20 C29 C21 C25 C31 C24 C13 C15 C14 C23 C22"


def files(g):
    if g == "lib":
        fs = [f for p in ("/include/**/*.tpp", "/src/**/*.cpp", "/include/**/*.h") for f in glob.glob(B + p, recursive=True)]
        return [f for f in fs if "/core/" not in f and "/exceptions/" not in f and "/tpl/" not in f and "/camera/" not in f]
    if g == "core":
        return glob.glob(B + "/src/core/*.cpp")
    if g == "tsvd":
        return glob.glob("/repo/aslam_tsvd_solver/src/*.cc")
    d = {"2dlrf": ["/src/2dlrf/Err*.cpp"], "car": ["/src/algo/Car*.cpp", "/src/algo/Opt*.cpp", "/src/design-variables/*.cpp", "/src/error-terms/*.cpp"],
         "time_delay": ["/src/algo/Cal*.cpp", "/src/algo/Opt*.cpp", "/src/design-variables/*.cpp", "/src/error-terms/*.cpp"],
         "egomotion_sensors": ["/src/algo/Cal*.cpp", "/src/algo/Opt*.cpp", "/src/design-variables/*.cpp"]}[g]
    return [f for p in d for f in glob.glob(X + g + p)]


OPS = [(r"(?<=[\w)\]] )<(?= [\w(-])", [">", "<="]), (r"(?<=[\w)\]] )>(?= [\w(-])", ["<", ">="]), (r"<=(?= )", ["<"]), (r">=(?= )", [">"]),
       (r"==", ["!="]), (r"!=", ["=="]), (r"&&", ["||"]), (r"\|\|", ["&&"]), (r"(?<=[\w)\]] )\+(?= [\w(])", ["-"]), (r"(?<=[\w)\]] )-(?= [\w(])", ["+"]),
       (r"(?<=[\w)\]] )\*(?= [\w(])", ["/", "+"]), (r"(?<=[\w)\]] )/(?= [\w(])", ["*"]), (r"\+=", ["-=", "="]), (r"-=", ["+="]), (r"\*=", ["/="]),
       (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"(?<![\w.\"])0(?![\w.])", ["1"]), (r"(?<![\w.\"])1(?![\w.])", ["0", "2"]), (r"(?<![\w.])2(?![\w.])", ["1", "3"]),
       (r"\b1\.0\b", ["2.0"]), (r"\b0\.5\b", ["1.0"]), (r"\b2\.0\b", ["1.0"]), (r"!(?=[\w(])", [""]),
       (r"\bmin\b", ["max"]), (r"\bmax\b", ["min"]), (r"\bbegin\(", ["end("]), (r"\bfront\(", ["back("]), (r"\bback\(", ["front("]), (r"\brows\(", ["cols("]), (r"\bcols\(", ["rows("]),
       (r"\bcos\b", ["sin"]), (r"\bsin\b", ["cos"]), (r"\.inverse\(\)", [""]), (r"\.transpose\(\)", [""]), (r"\.toRotationMatrix\(\)", [".toRotationMatrix().transpose()"])]


def candidates(g):
    out = []
    for f in files(g):
        lines = open(f).read().split("\n")
        depth, com = 0, False
        for i, l in enumerate(lines):
            s = l.strip()
            if "/*" in s:
                com = True
            if com or s.startswith(("//", "#", "*", "template", "typedef", "using")) or not s or "__FILE__" in s or "cerr" in s or "cout" in s:
                if "*/" in s:
                    com = False
                continue
            code = l.split("//")[0]
            for pat, reps in OPS:
                for m in re.finditer(pat, code):
                    q = code[:m.start()].count('"') % 2
                    if q or "template" in code or "Eigen::Matrix<" in code and pat[-3:] in ("= [", "w(-"):
                        continue
                    for r in reps:
                        out.append((f, i, code[:m.start()] + r + code[m.end():]))
            if re.match(r"\s+[\w_>.()\[\]\-*:]+(\([^;]*\))?( [+\-*/]?= .*)?;\s*$", code) and not s.startswith(("return", "const", "auto", "throw", "break", "size_t", "double", "typedef")):
                out.append((f, i, ""))
            if re.match(r"\s+if \(.*\)\s*$", code):
                out.append((f, i, re.sub(r"if \((.*)\)\s*$", r"if (false && (\1))", code)))
    return out


def one(g, n, mut):
    f, i, new = mut
    d = tempfile.mkdtemp(prefix="am")
    try:
        subprocess.run(["rsync", "-a", "--exclude", ".git", "--exclude", "_build", "/repo/", d + "/r/"], check=True)
        p = f.replace("/repo/", d + "/r/")
        ls = open(p).read().split("\n")
        old = ls[i]
        ls[i] = new
        open(p, "w").write("\n".join(ls))
        e = dict(os.environ, SA_REPO=d + "/r", SA_EVIDENCE=d + "/ev")
        res = "SURVIVED"
        for c in CHECKS.get(g, EX).split():
            q = subprocess.run([sys.executable, HERE + "/check.py", c], capture_output=True, text=True, env=e)
            if q.returncode == 1:
                res = "KILLED " + c
                break
            if q.returncode:
                if q.returncode == 3 or "rror" in q.stdout + q.stderr:
                    res = f"broken {c}:{q.returncode} " + (q.stderr.strip().splitlines() or q.stdout.strip().splitlines() or [""])[-1][:120]
                    break
                res = f"ODD {c}:{q.returncode}"
        return f"{res}\t{f.split('/')[-1]}:{i + 1}\t{old.strip()[:90]}\t=>\t{new.strip()[:90]}"
    finally:
        shutil.rmtree(d)


def main():
    g, seed, count = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    cs = candidates(g)
    print(len(cs), "candidates", flush=True)
    random.Random(seed).shuffle(cs)
    with cf.ThreadPoolExecutor(int(sys.argv[4]) if len(sys.argv) > 4 else 7) as ex:
        fs = [ex.submit(one, g, n, m) for n, m in enumerate(cs[:count])]
        for f in cf.as_completed(fs):
            print(f.result(), flush=True)


main()
