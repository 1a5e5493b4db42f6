"""Runs the check of each planted change's property (or the ids in CHECKS=...) against a scratch copy with it.

python3 tools/run_seeds.py [SEED ...]; not run by any check.
"""
import json
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
todo = sys.argv[1:] or sorted(os.listdir(os.path.join(VERIF, "seeded")))
for s in todo:
    meta = json.load(open(f"{VERIF}/seeded/{s}/meta.json"))
    d = f"/tmp/kvseed/{s}"
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo", d, symlinks=True)
    subprocess.run(["git", "apply", f"{VERIF}/seeded/{s}/patch.diff"], cwd=d, check=True)
    for pid in os.environ.get("CHECKS", meta["property"]).split():
        t = time.time()
        c = subprocess.run(["bash", "check.sh", pid], cwd=VERIF, capture_output=True, text=True,
                           env=dict(os.environ, VERIF_REPO=d, KV_EVIDENCE=d + "/ev"))
        hit = c.returncode == 1 and f"VIOLATION property={pid}" in c.stdout
        print("caught" if hit else "MISSED", s, pid, f"rc={c.returncode} {time.time() - t:.0f}s", flush=True)
    shutil.rmtree(d)
