#!/usr/bin/env python3
"""Runs the checks against the seeded changes: run_seeded.py [--checks own|all|C01,C02] [IDS...].

Each change is applied to a scratch copy of /repo which is removed afterwards (no check uses this)."""
import argparse
import json
import os
import shutil
import subprocess
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument("--checks", default="own")
ap.add_argument("--tier", default="quick")
ap.add_argument("ids", nargs="*")
args = ap.parse_args()
ids = args.ids or sorted(os.listdir(os.path.join(VERIF, "seeded")))
for id in ids:
    d = os.path.join(VERIF, "seeded", id)
    meta = json.load(open(os.path.join(d, "meta.json")))
    checks = {
        "own": [meta["property"]],
        "all": [f"C{i:02}" for i in range(1, 31) if os.path.exists(f"{VERIF}/mc/props/c{i:02}.py")],
    }.get(args.checks) or args.checks.split(",")
    tmp = tempfile.mkdtemp(prefix="seeded_")
    try:
        repo = os.path.join(tmp, "repo")
        shutil.copytree("/repo", repo, symlinks=True)
        subprocess.run(["git", "apply", os.path.join(d, "patch.diff")], cwd=repo, check=True)
        res = []
        for c in checks:
            t = time.time()
            p = subprocess.run(
                [os.path.join(VERIF, "check.py"), c, "--tier", args.tier],
                env={**os.environ, "VERIF_REPO": repo},
                capture_output=True,
                text=True,
            )
            vio = [x for x in p.stdout.splitlines() if x.startswith("VIOLATION")]
            res.append(f"{c}:{'CAUGHT' if p.returncode == 1 and vio else 'missed' if p.returncode == 0 else 'rc=%d' % p.returncode} {time.time() - t:.0f}s")
        print(f"{id} [{meta['property']}] " + ", ".join(res), flush=True)
    finally:
        shutil.rmtree(tmp)
