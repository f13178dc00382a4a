"""A pickled textgrid, read back in this or another process, is the same textgrid and as usable."""
import atexit, os, pickle, struct, subprocess, sys
from core import Part, Violation, HarnessError, expect, same
from hist import *
from pickle_worker import observe, root

_w = None


def ask(req):
    global _w
    if _w is None:
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        _w = subprocess.Popen([sys.executable, os.path.join(here, "pickle_worker.py")],
                              stdin=subprocess.PIPE, stdout=subprocess.PIPE)
        atexit.register(_w.kill)
    data = pickle.dumps(req)
    _w.stdin.write(struct.pack("<Q", len(data)) + data)
    _w.stdin.flush()
    h = _w.stdout.read(8)
    if len(h) < 8:
        raise HarnessError("the other process ended")
    return pickle.loads(_w.stdout.read(struct.unpack("<Q", h)[0]))


EDITS = ALL_OPS


@st.composite
def case_(draw):
    c = draw(maybe_raw(EDITS, max_size=3))
    if draw(st.booleans()):
        c["ops"] = []
    c["later"] = draw(ops(EDITS, 3)) if not c.get("raw") else []
    c["what"] = draw(st.sampled_from(["textgrid", "textgrid", "group", "tier", "entry"]))
    c["at"] = draw(st.tuples(small, small, small).map(list))
    return c


def check(case, stats):
    s, done = run_history(case, stats, lambda s, tag: None)
    atg = s.atg
    seen = observe(atg)
    gi = case["at"][0] % len(atg)
    g = atg[gi]
    ti = case["at"][1] % len(g)
    xi = case["at"][2] % len(g[ti])
    obj, path = {"textgrid": (atg, []), "group": (g, [gi]), "tier": (g[ti], [gi, ti]),
                 "entry": (g[ti][xi], [gi, ti, xi])}[
        "tier" if case["what"] == "entry" and root(g[ti][xi]) is not atg else case["what"]]   # not within the textgrid
    data = cloudpickle.dumps(obj)
    same(observe(atg), seen, "pickling changed the textgrid")
    r = ask((data, case["later"], case, path))
    if "err" in r:
        raise Violation(r["err"])
    same(r["seen"], seen, "read back in another process")
    same(observe(atg), seen, "editing the copy changed the original")
    # here
    back = cloudpickle.loads(data)
    top = root(back)
    expect(top is not atg, "the copy is the original")
    same(observe(top), seen, "read back in the same process")
    ok = (lambda a: None) if case.get("raw") else (lambda a: wf(a, snug=False))
    ok(top)
    same(observe(atg), seen, "reading the pickle back changed the original")
    ok(atg)
    mine = {id(x) for g in atg for t in g for x in t}
    expect(not any(id(x) in mine for g in top for t in g for x in t), "the copy shares entries with the original")
    # the same edits have the same effect on the original as on the copy
    if case["what"] == "textgrid":
        s.n = 100
        for op in case["later"]:
            apply(s, op)
        same(observe(s.atg), r["after"], "the same edits applied to the copy and to the original")
    stats.label(case["what"])
    stats.label("edited_before", bool(done))
    stats.label("edited_after", bool(r["done"]))
    stats.nontrivial(rich(case))


PARTS = [Part("pickle", case_, check, 2400, 50000, "a hierarchy of at least two tiers and more than one interval in a tier")]
ASSUMPTIONS = ["textgrids small enough for the pickle module's recursion limit"]
