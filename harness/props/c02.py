"""Export: nothing is lost on the way out, in any format, and exporting changes nothing."""
from core import Part, expect, same
from hist import *
import tempfile, os, shutil

FORMATS = ["long_textgrid", "short_textgrid", "textgrid_json", "json"]
EDITS = ALL_OPS


def stripped(es):
    return [e[:-1] + (e[-1].strip(),) for e in es]


def praatio_tiers(tg):
    return [(t.name, type(t).__name__, [tuple(e) for e in t.entries]) for t in tg.tiers]


def padded(es, lo, hi):
    """what reading a file does to an interval tier shorter than the file"""
    out = list(es)
    if es[0][0] > lo + TOL:
        out = [(lo, es[0][0], "")] + out
    if es[-1][1] < hi - TOL:
        out = out + [(es[-1][1], hi, "")]
    return out


@st.composite
def case_(draw):
    c = draw(history(EDITS, max_size=4))
    for op in c["ops"]:
        if op[0] in ("shift", "gshift"):
            op[-1] = abs(op[-1])                     # times in a file are not negative
    c["format"] = draw(st.sampled_from(FORMATS))
    c["names"] = draw(st.one_of(st.none(), st.lists(st.sampled_from(
        ["same", "same", "same_0", "same_1", "words", "a b", "é", "q - x", "x" * 70, "KY25A - a tier, of the second speaker (2)",
         "a.b/c:d", "1", "_", "10%", "Ünï – ŋ"]), min_size=1, max_size=6)))
    c["tidy"] = draw(st.booleans())
    return c


def check(case, stats):
    s, done = run_history(case, stats, lambda s, t: None)
    atg = s.atg
    if case["tidy"]:
        atg.cleanup()
    if len(atg) and atg.xmin < 0:
        atg.shift(math.ceil(-atg.xmin))              # times in a file are not negative
    flat = [t for g in atg for t in g]
    if not flat:
        return
    if case["names"]:
        for i, t in enumerate(flat):
            t.name = case["names"][i % len(case["names"])]
        stats.label("renamed_tiers")
    names = [t.name for t in flat]
    stats.label("duplicate_names", len(set(names)) < len(names))
    before, ids = snap(atg), [id(x) for t in flat for x in t]
    fb = [ents(t) for t in flat]

    def unchanged(what):
        same(snap(atg), before, f"{what} changed the textgrid")
        same([id(x) for t in flat for x in t], ids, f"{what} replaced entries")
        same([t.name for t in flat], names, f"{what} changed tier names")
        wf(atg, snug=False, names=False)

    tg = atg.return_textgrid()
    unchanged("return_textgrid")
    out = praatio_tiers(tg)
    same(len(out), len(flat), "number of tiers in the returned textgrid")
    on = [n for n, _, _ in out]
    expect(len(set(on)) == len(on), lambda: f"returned tier names repeat: {on}")
    for i, n in enumerate(names):
        if n not in on[:i]:
            same(on[i], n, f"name of returned tier {i}, not taken by an earlier tier")
    for (n, kind, es), t, want in zip(out, flat, fb):
        same(kind, "IntervalTier" if isinstance(t, SequenceTier) else "PointTier", f"kind of returned tier {n}")
        same_ents(es, stripped(want), f"returned tier {n}", 0)
        single = t.return_tier()
        same(single.name, t.name, "name of tier.return_tier()")
        same_ents([tuple(e) for e in single.entries], stripped(want), f"return_tier of {n}", 0)

    stats.nontrivial(rich(case))
    if any(0 < abs(v) < 1e-4 for es in fb for e in es for v in e[:-1]):
        stats.label("not_saved_exponents")           # praatio does not read 5e-05 back from a file
        return
    d = tempfile.mkdtemp(prefix="vtg")
    try:
        p = os.path.join(d, "out.TextGrid")
        atg.save_textgrid(p, format=case["format"])
        unchanged("save_textgrid")
        same(os.listdir(d), ["out.TextGrid"], "files written")
        back = praatio_tiers(openTextgrid(p, includeEmptyIntervals=True, duplicateNamesMode="error"))
        lo = min(es[0][0] for es in fb)
        hi = max(es[-1][-2] for es in fb)
        same([n for n, _, _ in back], on, "tier names in the file")
        for (n, kind, es), t, want in zip(back, flat, fb):
            if isinstance(t, SequenceTier):
                if not all(close(a[1], b[0]) for a, b in zip(want, want[1:])):
                    continue                       # gaps are filled by the file format
                want = padded(want, lo, hi)
            same_ents(es, stripped(want), f"tier {n} in the file")
        # and back into the library
        cls = [[t.entry_class for t in g] for g in atg]
        again = AlignedTextGrid(p, cls)
        if case["tidy"] or not done:
            want = [[padded(stripped(ents(t)), lo, hi) if isinstance(t, SequenceTier) else stripped(ents(t))
                     for t in g] for g in atg]
            same_snap(snap(again), want, "after save and reload")
            same([[c.__name__ for c in g] for g in again.entry_classes],
                 [[c.__name__ for c in g] for g in atg.entry_classes], "classes after save and reload")
            same_parents(atg, again)
            stats.label("reloaded")
        k = (case["names"] and len(case["names"]) or 0) % len(flat)
        q = os.path.join(d, "one.TextGrid")
        flat[k].save_as_tg(q)
        unchanged("save_as_tg")
        one = praatio_tiers(openTextgrid(q, includeEmptyIntervals=True))
        same(len(one), 1, "tiers in a file of a single tier")
        same(one[0][0], flat[k].name, "name in a file of a single tier")
        want = fb[k]
        if not isinstance(flat[k], SequenceTier) or all(close(a[1], b[0]) for a, b in zip(want, want[1:])):
            same_ents(one[0][2], stripped(want), "file of a single tier")
    finally:
        shutil.rmtree(d)
    stats.label("format_" + case["format"])


def same_parents(a, b):
    for g, h in zip(igroups(a), igroups(b)):
        shift_ = len(h[0]) - len(g[0])             # padding at the edges of the file
        for up, lo, up2, lo2 in zip(list(g), list(g)[1:], list(h), list(h)[1:]):
            key = lambda x: (round(float(x.start), 5), round(float(x.end), 5))
            par = {key(x): key(x.super_instance) for x in lo2}
            for x in lo:
                same(par.get(key(x)), key(x.super_instance), f"superset of {nm(x)} after save and reload")


@st.composite
def dup_file(draw):
    c = draw(grid(modes=["tight"], max_groups=3, max_depth=3, points=False, layout=False))
    if draw(st.integers(0, 4)) == 3:          # an excerpt from late in a long recording
        c.update(scale=draw(st.sampled_from([0.0004, 0.005, 0.05])), offset=draw(st.sampled_from([60.25, 1234.5, 7200.0])))
    c["classes"] = "own"
    n = sum(len(g) for g in c["groups"])
    c["newnames"] = draw(st.lists(st.sampled_from(["w", "w", "w_2", "p"]), min_size=n, max_size=n))
    return c


def check_dup(case, stats):
    """files whose tiers share names load all the same, and save again"""
    tl, ec = file_tiers(case)
    d = tempfile.mkdtemp(prefix="vtg")
    try:
        p, q = os.path.join(d, "a.TextGrid"), os.path.join(d, "b.TextGrid")
        make_tg(case, tl).save(p, format="long_textgrid", includeBlankSpaces=True)
        text = open(p, encoding="utf-8").read()
        for (n, _, _), new in zip(tl, case["newnames"]):
            assert text.count(f'"{n}"') == 1
            text = text.replace(f'"{n}"', f'"{new}"')
        open(p, "w", encoding="utf-8").write(text)
        atg = AlignedTextGrid(p, ec)
        want = load(case)
        same_snap(snap(atg), snap(want), "file with duplicate tier names")
        atg.save_textgrid(q)
        again = AlignedTextGrid(q, [[t.entry_class for t in g] for g in atg])
        same_snap(snap(again), snap(want), "file with duplicate tier names, saved and reloaded")
    finally:
        shutil.rmtree(d)
    dup = len(set(case["newnames"])) < len(case["newnames"])
    stats.label("duplicates", dup)
    stats.label("late_in_recording", case["offset"] > 60)
    stats.nontrivial(dup)


PARTS = [
    Part("roundtrip", case_, check, 4000, 60000, "more than one tier in a group and more than one interval in a tier"),
    Part("dupfile", dup_file, check_dup, 800, 10000, "two tiers of the file have the same name"),
]
ASSUMPTIONS = ["times written to files are non-negative, and labels are compared without outer whitespace, "
               "which the file reader drops",
               "times are moved to be non-negative before saving; textgrids with times between 0 and 0.0001 are not saved "
               "(the file reader does not know exponents)",
               "reading a file pads interval tiers to the extent of the file; that is the file reader's behaviour"]
