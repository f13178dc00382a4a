"""plant.py SPECS.py [ids...]: confirms planted bugs in a scratch copy and writes seeded/<id>/.
A spec: dict(id, property, edits=[(file under src/aligned_textgrid, old, new)], demo=code, needs, breaks)."""
import sys, os, json, runpy
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from iso import Box
from concurrent.futures import ThreadPoolExecutor

SH = '''#!/bin/bash
# exit 0: the property holds; nonzero: it is broken
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent
exec /opt/venv/bin/python -W ignore "$(cd "$(dirname "$0")" && pwd)/demo.py"
'''
specs = runpy.run_path(sys.argv[1])["SPECS"]
PRE = runpy.run_path(sys.argv[1]).get("PRE", "")
if len(sys.argv) > 2:
    specs = [s for s in specs if s["id"] in sys.argv[2:]]


def original_lines(box, diff):
    """the patch removes at least one line that was there before our own commits"""
    base = box.git("rev-list", "--max-parents=0", "HEAD").split()[0]
    ok = False
    for f in box.git("diff", "--name-only").split():
        old = set(box.git("show", f"{base}:{f}").splitlines())
        removed = [l[1:] for l in box.git("diff", "-U0", "--", f).splitlines() if l.startswith("-") and not l.startswith("---")]
        added = [l[1:] for l in box.git("diff", "-U0", "--", f).splitlines() if l.startswith("+") and not l.startswith("+++")]
        removed = [l for l in removed if l.strip()]
        if removed and not all(l in old for l in removed):
            print("   NOT ORIGINAL:", [l for l in removed if l not in old])
            return False
        ok = ok or bool(removed)
    return ok


def one(args):
    n, s = args
    box = Box(f"p{n}")
    try:
        demo = f"{box.verif}/demo_{s['id']}.py"
        open(demo, "w").write(PRE + s["demo"])
        py = f"PYTHONDONTWRITEBYTECODE=1 timeout 250 /opt/venv/bin/python -W ignore /verif/demo_{s['id']}.py"
        rc, out = box.run(py)
        if rc != 0:
            return s["id"], "demo fails on clean tree: " + out[-600:]
        for f, old, new in s["edits"]:
            p = f"{box.repo}/src/aligned_textgrid/{f}"
            t = open(p).read()
            if t.count(old) != 1:
                return s["id"], f"edit matches {t.count(old)} times in {f}"
            open(p, "w").write(t.replace(old, new))
        diff = box.git("diff")
        orig = original_lines(box, diff)
        rc, out = box.run(py)
        if rc == 0:
            return s["id"], "demo passes with the bug"
        if not box.tests_pass():
            return s["id"], "tests fail"
        d = f"/verif/seeded/{s['id']}"
        os.makedirs(d, exist_ok=True)
        open(f"{d}/patch.diff", "w").write(diff)
        open(f"{d}/demo.sh", "w").write(SH)
        os.chmod(f"{d}/demo.sh", 0o755)
        open(f"{d}/demo.py", "w").write(PRE + s["demo"])
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(f"{d}/meta.json", "w"), indent=1)
        return s["id"], "planted" + ("" if orig else " (WARNING: lines not original)") + "  " + out.strip().splitlines()[-1][:100]
    except Exception as e:
        return s["id"], f"error {e!r}"
    finally:
        box.close()


with ThreadPoolExecutor(6) as ex:
    for i, r in ex.map(one, enumerate(specs)):
        print(i, "->", r, flush=True)
