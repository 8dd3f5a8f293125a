#!/opt/venv/bin/python
"""check.py <property> [--tier quick|thorough] [--only TEXT] [-v]   |   check.py replay <file>"""
import argparse
import json
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("what")
    ap.add_argument("path", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--only")
    ap.add_argument("--jobs", type=int)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    try:
        seed = int(os.environ.get("VERIF_SEED", "1")) if a.seed is None else a.seed
    except ValueError:
        seed = 1
    if a.what == "replay":
        from mc import env, kinds, tensors  # noqa: F401

        d = json.load(open(a.path))
        tensors.set_seed(d["seed"])
        m = kinds.replay(d["task"], d["history"])
        print(d["task"])
        print("history:", d["history"])
        print("reproduced: " + m if m else "not reproduced")
        return 1 if m else 0
    from mc import runner

    return runner.check(a.what.upper(), a.tier, seed, a.jobs, a.only, a.v)


if __name__ == "__main__":
    sys.exit(main())
