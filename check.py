#!/usr/bin/env python3
"""check.py Cxx [--tier quick|thorough] [--replay FILE] [--scale F] [--part NAME]"""
import os, sys
PY = "/opt/venv/bin/python"
HERE = os.path.dirname(os.path.abspath(__file__))
if os.environ.get("VERIF_CHILD") != "1":
    env = dict(os.environ, VERIF_CHILD="1", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1",
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", POLARS_MAX_THREADS="1")
    env.pop("PYTHONPATH", None)
    os.execve(PY, [PY, os.path.join(HERE, "check.py")] + sys.argv[1:], env)
sys.path.insert(0, os.path.join(HERE, "harness"))
sys.setrecursionlimit(3000)


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--part", action="append")
    a = ap.parse_args()
    import core
    if a.replay:
        return core.replay(a.pid, a.replay)
    return core.run(a.pid, a.tier, a.seed, a.scale, a.part)


if __name__ == "__main__":
    sys.exit(main())
