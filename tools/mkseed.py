#!/usr/bin/env python3
"""mkseed.py SPEC.py [id...]: builds and confirms planted bugs, writes seeded/<id>/.

SPEC defines SEEDS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo=cpp text, [script])]"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0 when the property holds, non-zero when it is broken
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d)
trap 'rm -r "$out"' EXIT
I=incremental_calibration
g++ -std=c++14 -O1 -w %s -I$I/include -isystem /usr/include/eigen3 "$here/demo.cpp" -L_build -lincremental_calibration -o "$out/demo"
LD_LIBRARY_PATH=_build timeout 60 "$out/demo"
'''


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **kw)


def main():
    spec = runpy.run_path(sys.argv[1])
    for s in spec["SEEDS"]:
        if len(sys.argv) > 2 and s["id"] not in sys.argv[2:]:
            continue
        d = f"{HERE}/seeded/{s['id']}"
        os.makedirs(d, exist_ok=True)
        open(d + "/demo.cpp", "w").write(s["demo"])
        open(d + "/demo.sh", "w").write(s.get("script", DEMO % s.get("flags", "")))
        for n, t in s.get("extra", {}).items():
            open(d + "/" + n, "w").write(t)
        if s.get("rt"):
            shutil.rmtree(d + "/rt", ignore_errors=True)
            shutil.copytree(f"{HERE}/tools/runstubs/{s['rt']}", d + "/rt")
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
        for f, a, b in s["edits"]:
            p = "/repo/" + f
            t = open(p).read()
            if t.count(a) != 1:
                print(s["id"], "EDIT does not apply", f, t.count(a))
                break
            open(p, "w").write(t.replace(a, b))
        else:
            open(d + "/patch.diff", "w").write(sh("git diff", "/repo").stdout)
        sh("git checkout -- .", "/repo")
        sh("bash /opt/vp/build.sh", "/repo")
        a = sh(f"bash {d}/demo.sh", "/repo")
        r = sh(f"git apply {d}/patch.diff", "/repo")
        b = sh("bash /opt/vp/build.sh", "/repo")
        t = sh("bash /opt/vp/test.sh /tmp/seedtest.json", "/repo")
        tj = json.load(open("/tmp/seedtest.json"))
        c = sh(f"bash {d}/demo.sh", "/repo")
        sh("git checkout -- .", "/repo")
        ok = a.returncode == 0 and r.returncode == 0 and b.returncode == 0 and not tj["failed"] and len(tj["passed"]) >= 2 and c.returncode != 0
        print(s["id"], "OK" if ok else "BAD", "clean", a.returncode, "apply", r.returncode, "build", b.returncode, "tests", len(tj["passed"]), "bug", c.returncode,
              (c.stdout + c.stderr)[-200:].strip())
        if not ok:
            print(a.stdout[-600:], a.stderr[-600:], b.stdout[-1500:])
    sh("bash /opt/vp/build.sh", "/repo")


main()
