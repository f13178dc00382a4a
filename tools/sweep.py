"""sweep.py N SEED [pid...]: N cases of every part of every property in one process; stops at the first failure.
Development tool (for auto.py); the checks themselves are run through check.py."""
import os, sys
PY = "/opt/venv/bin/python"
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if os.environ.get("VERIF_CHILD") != "1":
    env = dict(os.environ, VERIF_CHILD="1", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1",
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", POLARS_MAX_THREADS="1")
    os.execve(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:], env)
sys.path.insert(0, os.path.join(HERE, "harness"))
sys.setrecursionlimit(3000)
import core  # noqa: E402
n, seed = int(sys.argv[1]), int(sys.argv[2])
pids = sys.argv[3:] or [f"C{i:02d}" for i in range(1, 40) if os.path.exists(f"{HERE}/harness/props/c{i:02d}.py")]
for pid in pids:
    for part in core.load(pid).PARTS:
        r = core.run_shard(pid, part.name, 0, n, seed, shrink=False)
        if r["err"]:
            print("ERR", pid, part.name, r["err"][-300:])
            sys.exit(2)
        if r["fail"]:
            print("KILLED", pid, part.name, r["fail"]["msg"][:200].replace("\n", " "))
            sys.exit(1)
print("SURVIVED")
