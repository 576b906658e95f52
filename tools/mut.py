#!/usr/bin/env python3
"""Development aid: applies edits to scratch copies of /repo and runs checks on them.
usage: mut.py FILE [-p C07,C12] [-k idpattern]
FILE holds python: MUT = [(id, "Cxx" or "-" (behaviour kept), file, old, new), ...]"""
import concurrent.futures as cf
import os
import re
import runpy
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = os.environ.get("MUT_BASE", "/repo")


def one(m, props):
    mid, prop, f, old, new = m[:5]
    more = m[5:]
    d = tempfile.mkdtemp(prefix="mut")
    try:
        subprocess.run(["rsync", "-a", "--exclude", ".git", "--exclude", "_build", BASE + "/", d + "/r/"], check=True) \
            if shutil.which("rsync") else subprocess.run(f"mkdir {d}/r && cd {BASE} && git ls-files | cpio -pdm --quiet {d}/r", shell=True, check=True)
        p = d + "/r/" + f
        s = open(p).read()
        if s.count(old) < 1:
            return mid, prop, "NOT APPLICABLE", ""
        s = s.replace(old, new, 1)
        rest = []
        while more:
            if isinstance(more[0], tuple):
                rest.append(more[0])
                more = more[1:]
                continue
            if s.count(more[0]) < 1:
                return mid, prop, "NOT APPLICABLE", ""
            s = s.replace(more[0], more[1], 1)
            more = more[2:]
        open(p, "w").write(s)
        for g, a, b in rest:
            q = d + "/r/" + g
            s = open(q).read()
            if s.count(a) < 1:
                return mid, prop, "NOT APPLICABLE", ""
            open(q, "w").write(s.replace(a, b, 1))
        res, msg = [], ""
        for c in props or ([prop] if prop != "-" else []):
            e = dict(os.environ, SA_REPO=d + "/r", SA_EVIDENCE=d + "/ev")
            q = subprocess.run([sys.executable, HERE + "/check.py", c], capture_output=True, text=True, env=e)
            if q.returncode:
                res.append(f"{c}:{q.returncode}")
                msg += "\n".join("      " + l[:330] for l in q.stdout.splitlines()[1:4] + q.stderr.splitlines()[-2:]) + "\n"
        return mid, prop, " ".join(res) or "quiet", msg
    finally:
        shutil.rmtree(d)


def main():
    muts = runpy.run_path(sys.argv[1])["MUT"]
    props = None
    if "-p" in sys.argv:
        props = sys.argv[sys.argv.index("-p") + 1].split(",")
    if "-k" in sys.argv:
        k = sys.argv[sys.argv.index("-k") + 1]
        muts = [m for m in muts if re.search(k, m[0])]
    with cf.ThreadPoolExecutor(7) as ex:
        for mid, prop, res, msg in ex.map(lambda m: one(m, props), muts):
            good = (res == "quiet") if prop == "-" else (prop + ":1") in res
            print(("ok  " if good else "MISS") if prop != "-" else ("ok  " if good else "FALSE"), mid, prop, res)
            if not good or "-v" in sys.argv:
                print(msg, end="")


main()
