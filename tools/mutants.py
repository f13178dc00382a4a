"""mutants.py [--all] [--scale F] [ids...]: runs the planted bugs in seeded/ against the checks, in scratch copies.
Without --all only the check of the bug's own property runs."""
import sys, os, json, argparse
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from iso import Box
from concurrent.futures import ThreadPoolExecutor
ap = argparse.ArgumentParser()
ap.add_argument("ids", nargs="*")
ap.add_argument("--all", action="store_true")
ap.add_argument("--scale", type=float, default=1.0)
ap.add_argument("--seed", type=int, default=1)
ap.add_argument("--jobs", type=int, default=3)
a = ap.parse_args()
S = "/verif/seeded"
ids = a.ids or sorted(os.listdir(S))
pids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]


def one(args):
    n, i = args
    box = Box(f"m{n}")
    try:
        own = json.load(open(f"{S}/{i}/meta.json"))["property"]
        box.git("apply", f"{S}/{i}/patch.diff")
        got = {}
        for p in ([own] + [q for q in pids if q != own] if a.all else [own]):
            rc, out = box.check(p, a.scale, seed=a.seed)
            msg = [l for l in out.splitlines() if l.startswith(p + "/") and " cases, " not in l]
            got[p] = (rc == 1 and f"VIOLATION property={p} " in out, rc, (msg or [out[-200:]])[0][:160])
        return i, own, got
    finally:
        box.close()


missed = []
with ThreadPoolExecutor(a.jobs) as ex:
    for i, own, got in ex.map(one, enumerate(ids)):
        print(f"{i}: own {own} {'CAUGHT' if got[own][0] else 'MISSED rc=%d' % got[own][1]}  {got[own][2]}", flush=True)
        if a.all:
            print("     caught by:", " ".join(p for p in got if got[p][0]), flush=True)
        if not got[own][0]:
            missed.append(i)
print("missed:", missed)
