#!/usr/bin/env python3
"""runseeds.py [id...]: runs the check of each planted bug's property against a copy of /repo with the bug."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(i):
    d = f"{HERE}/seeded/{i}"
    meta = json.load(open(d + "/meta.json"))
    t = tempfile.mkdtemp(prefix="seed")
    try:
        subprocess.run(f"rsync -a --exclude _build --exclude .git /repo/ {t}/repo/ && cd {t}/repo && patch -s -p1 < {d}/patch.diff", shell=True, check=True)
        r = subprocess.run([sys.executable, HERE + "/check.py", meta["property"]], capture_output=True, text=True,
                           env=dict(os.environ, SA_REPO=t + "/repo", SA_EVIDENCE=t + "/ev"))
        hit = r.returncode == 1 and f"VIOLATION property={meta['property']}" in r.stdout
        return i, meta["property"], "caught" if hit else f"MISSED rc={r.returncode}", "\n".join(l[:260] for l in r.stdout.splitlines()[1:3])
    finally:
        shutil.rmtree(t)


ids = sys.argv[1:] or sorted(os.listdir(HERE + "/seeded"))
with ThreadPoolExecutor(4) as ex:
    for r in ex.map(one, ids):
        print(*r[:3])
        print("     ", r[3])
