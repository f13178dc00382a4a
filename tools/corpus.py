"""corpus.py [--jobs J] [commits...]: takes each repair of /repo back in a scratch copy, finds which checks report it, and
writes the shrunk case to corpus/<id>.json (replayed first on every run). Development tool; no check uses it."""
import sys, os, json, argparse, subprocess
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from iso import Box
from concurrent.futures import ThreadPoolExecutor
ap = argparse.ArgumentParser()
ap.add_argument("commits", nargs="*")
ap.add_argument("--jobs", type=int, default=3)
ap.add_argument("--base", default="3f5623a")
a = ap.parse_args()
V = "/verif"
pids = [json.loads(l)["id"] for l in open(f"{V}/properties.jsonl")]
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", f"{a.base}..HEAD"], capture_output=True, text=True).stdout
commits = [l.split(" ", 1) for l in log.splitlines() if not a.commits or l.split()[0] in a.commits]
fixed = json.load(open(f"{V}/known_findings.json"))["fixed"]


def one(args):
    n, (c, msg) = args
    box = Box(f"c{n}")
    try:
        r = subprocess.run(["git", "-C", box.repo, "revert", "-n", c], capture_output=True, text=True)
        if r.returncode:
            return c, msg, "does not revert by itself", []
        own = [f.split("property=")[1].split()[0] for f in fixed if c in f]
        cases = []
        for p in own + [q for q in pids if q not in own]:
            if own and p not in own and cases:
                break
            rc, out = box.check(p, 1.0 if p in own else .3, seed=1)
            if rc == 1 and f"VIOLATION property={p} " in out:
                path = out.split("replay=")[1].split()[0]
                rep = json.load(open(path.replace("/verif", box.verif)))
                cases.append(dict(property=p, part=rep["part"], case=rep["case"], of=f"{c} {msg}", message=rep["message"][:200]))
        return c, msg, "own " + ",".join(own), cases
    finally:
        box.close()


res = []
with ThreadPoolExecutor(a.jobs) as ex:
    for c, msg, note, cases in ex.map(one, enumerate(commits)):
        print(c, msg[:70], "|", note, "|", [k["property"] for k in cases] or "NOT REPORTED", flush=True)
        res += cases
json.dump(res, open("/tmp/corpus.json", "w"), indent=1)
