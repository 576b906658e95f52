"""Which translation units make up the analysed program, and how to extract them."""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import subprocess
import sys

from .model import Model

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SA_REPO", "/repo")  # the override serves tools/mut.py only
EX = REPO + "/incremental_calibration_examples/incremental_calibration_examples_"
BUILD = HERE + "/build"
CACHE = BUILD + "/cache"
BASE = ["-std=c++14", "-w", "-ferror-limit=0", "-resource-dir", "/usr/lib/llvm-18/lib/clang/18",
        "-I" + REPO + "/incremental_calibration/include"]
TAIL = ["-I" + REPO + "/aslam_tsvd_solver/include", "-I/usr/include/eigen3", "-I" + HERE + "/stubs", "-I/usr/include/suitesparse"]


def g(p):
    return sorted(glob.glob(p, recursive=True))


def groups():
    """group -> [(file, flags)]"""
    out = {}
    core = ("IncrementalEstimator.cpp", "OptimizationProblem.cpp", "IncrementalOptimizationProblem.cpp")
    ic = g(REPO + "/incremental_calibration/src/**/*.cpp")
    out["lib"] = [(HERE + "/tu/lib.cpp", [])] + [(f, []) for f in ic if os.path.basename(f) not in core]
    out["core"] = [(HERE + "/tu/core.cpp", [])] + [(f, []) for f in ic if os.path.basename(f) in core]
    out["tsvd"] = [(f, ["-I" + REPO + "/aslam_tsvd_solver/include"]) for f in g(REPO + "/aslam_tsvd_solver/src/*.cc")]
    out["2dlrf"] = [(f, ["-I" + EX + "2dlrf/include"]) for f in g(EX + "2dlrf/src/2dlrf/*.cpp") if "simulate" not in f]
    for n in ("car", "time_delay", "egomotion_sensors"):
        out[n] = [(f, ["-I" + EX + n + "/include"]) for f in g(EX + n + "/src/**/*.cpp")
                  if "/realworld/" not in f and "simulator.cpp" not in f and "/geo/" not in f]
    out["vision"] = [(f, ["-I" + REPO + "/incremental_calibration_vision/include"]) for f in
                     g(REPO + "/incremental_calibration_vision/src/*.cpp")]
    out["python"] = [(f, ["-I" + REPO + "/incremental_calibration_vision/include", "-I" + REPO + "/aslam_tsvd_solver/include",
                          "-I/usr/include/python3.12"])
                     for f in g(REPO + "/incremental_calibration_python/src/*.cpp") if "Vision" not in f]
    return out


def digest(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()


def header_digest():
    fs = []
    for pat in ("/**/*.h", "/**/*.hpp", "/**/*.tpp"):
        fs += [f for f in g(REPO + pat) if "/_build/" not in f and "/.git/" not in f]
    fs += g(HERE + "/stubs/**/*.h*") + [BUILD + "/extract"]
    return digest(fs)


def extract(job):
    f, flags, hd = job
    out = CACHE + "/" + hashlib.sha256((hd + digest([f]) + " ".join(flags)).encode()).hexdigest()[:24] + ".json"
    if not os.path.exists(out):
        tmp = out + ".%d" % os.getpid()
        cmd = [BUILD + "/extract", f, "--root", REPO + "/", "-o", tmp, "--"] + BASE + flags + TAIL
        p = subprocess.run(cmd, capture_output=True, text=True)
        if not os.path.exists(tmp):
            return f, None, (p.stderr or "extractor failed")[-2000:]
        if p.returncode != 0:
            errs = [l for l in p.stderr.splitlines() if "error:" in l]
            os.unlink(tmp)
            return f, None, "\n".join(errs[:8]) or p.stderr[-800:]
        os.replace(tmp, out)
    return f, out, None


def ensure_extractor():
    src = HERE + "/extract/extract.cpp"
    stamp = BUILD + "/extract.stamp"
    d = digest([src, HERE + "/extract/build.sh"])
    if os.path.exists(BUILD + "/extract") and os.path.exists(stamp) and open(stamp).read() == d:
        return
    os.makedirs(BUILD, exist_ok=True)
    subprocess.run(["bash", HERE + "/extract/build.sh", BUILD], check=True)
    with open(stamp, "w") as f:
        f.write(d)


class ExtractError(Exception):
    pass


_models = {}


def load(*names):
    """model of the named groups (parsed from the current sources)"""
    key = tuple(sorted(names))
    if key in _models:
        return _models[key]
    ensure_extractor()
    os.makedirs(CACHE, exist_ok=True)
    gs = groups()
    jobs = []
    hd = header_digest()
    for n in names:
        for f, fl in gs[n]:
            if not os.path.exists(f):
                raise ExtractError("source vanished: " + f)
            jobs.append((f, fl, hd))
    m = Model()
    bad = []
    with cf.ThreadPoolExecutor(8) as ex:
        for f, out, err in ex.map(extract, jobs):
            if err:
                bad.append((f, err))
            else:
                m.load(out, f)
    if bad:
        raise ExtractError("; ".join(f"{f}: {e}" for f, e in bad))
    m.finish()
    _models[key] = m
    return m


if __name__ == "__main__":
    for n in sys.argv[1:] or groups():
        try:
            m = load(n)
            print(n, len(m.fn), "functions", len(m.rec), "records")
        except ExtractError as e:
            print(n, "FAILED", e)
