"""Loading and cleanup leave tight, snugly nested tiers."""
from core import Part, expect, same
from hist import *

CH = [n for n in ALL_OPS]


def tight(atg, what):
    gs = igroups(atg)
    for g in gs:
        inv_snug(g)
        for t in g:
            expect(close(t.xmin, g.xmin) and close(t.xmax, g.xmax),
                   lambda: f"{what}: tier {t.name} spans {t.xmin}-{t.xmax}, its group {g.xmin}-{g.xmax}")
            for x in t:
                expect(x.validate() is True, lambda: f"{what}: {nm(x)}.validate() is False")
    if gs:
        lo, hi = min(float(g.xmin) for g in gs), max(float(g.xmax) for g in gs)
        for g in gs:
            expect(close(g.xmin, lo) and close(g.xmax, hi),
                   lambda: f"{what}: group {g.name} spans {g.xmin}-{g.xmax}, the textgrid {lo}-{hi}")


def check_load(case, stats):
    atg = load(case)
    tight(atg, "after loading")
    before = snap(atg)
    stats.label("mode_" + case["mode"])
    atg.cleanup()
    same(snap(atg), before, "cleanup of a freshly loaded textgrid changed it")
    stats.nontrivial(rich(case) and case["mode"] != "tight")


def check_history(case, stats):
    s, done = run_history(case, stats, lambda s, tag: None)
    atg = s.atg
    atg.cleanup()
    tight(atg, "after cleanup")
    wf(atg)
    before = snap(atg)
    ids = [id(x) for g in atg for t in g for x in t]
    atg.cleanup()
    same(snap(atg), before, "second cleanup changed the textgrid")
    same([id(x) for g in atg for t in g for x in t], ids, "second cleanup replaced entries")
    stats.nontrivial(rich(case) and done)


@st.composite
def group_case(draw):
    """a tier group that is in no textgrid"""
    c = draw(timebase())
    c["mode"] = draw(st.sampled_from(["gap", "ext", "mis", "wild", "tight"]))
    c["tiers"] = draw(group_tiers(c["mode"], draw(st.integers(1, 4)), draw(st.integers(2, 24))))
    return c


def check_group(case, stats):
    cl = custom_classes(NAMES[:len(case["tiers"])])
    grp = TierGroup([SequenceTier([Interval(*e) for e in to_secs(case, es)], c) for es, c in zip(case["tiers"], cl)])
    grp.cleanup()
    inv_snug(grp)
    for t in grp:
        inv_tier(t)
    inv_hierarchy(grp)
    inv_order_below(grp)
    inv_precedence(grp)
    before = [ents(t) for t in grp]
    grp.cleanup()
    same([ents(t) for t in grp], before, "second cleanup changed the group")
    stats.label("mode_" + case["mode"])
    stats.nontrivial(len(case["tiers"]) > 1 and case["mode"] != "tight")


@st.composite
def tier_case(draw):
    """a tier of its own, or the top tier of a group from which some intervals were taken out with all below them"""
    c = draw(timebase())
    c["tiers"] = draw(group_tiers("tight", draw(st.integers(1, 3)), draw(st.integers(8, 24))))
    c["where"] = draw(st.sampled_from(["free", "group", "textgrid"]))
    c["level"] = draw(st.integers(0, 2))
    c["out"] = draw(st.lists(st.integers(0, 5), min_size=1, max_size=4, unique=True))
    c["lowest"] = draw(st.booleans())
    return c


def lowest(case, g, atg, stats):
    """the lowest tier cleaned up after some of its intervals were taken out: nothing above it changes, and
    every gap is filled, with the intervals above as limits"""
    up = [ents(t) for t in g][:-1]
    ups = [list(t) for t in g][:-1]
    outs = {i for j in case["out"] for i in (2 * j, 2 * j + 1)}
    keep = [x for i, x in enumerate(g[-1]) if i not in outs or i in (0, len(g[-1]) - 1)]
    for x in list(g[-1]):
        if all(x is not k for k in keep):
            g[-1].pop(x)
    orig = [(x, x.start, x.end, x.label) for x in keep]
    g[-1].cleanup()
    for ti, (t, u, o) in enumerate(zip(g, up, ups)):
        same_ents(ents(t), u, f"tier {ti}, above the one cleaned up")
        expect(all(a is b for a, b in zip(t, o)), lambda: f"tier {ti}: intervals were replaced")
    cuts = sorted({b for u in up for e in u for b in e[:2]})
    want, at = [], orig[0][1]
    for x, s, e, l in orig:
        b = [at] + [c for c in cuts if at + TOL < c < s - TOL] + [s]
        want += [(None, lo, hi, "") for lo, hi in zip(b, b[1:]) if hi > lo + TOL]
        want.append((x, s, e, l))
        at = e
    same_ents(ents(g[-1]), [w[1:] for w in want], "lowest tier")
    for x, w in zip(g[-1], want):
        expect(w[0] is None or x is w[0], lambda: f"lowest tier: {nm(x)} was replaced")
    for t in g:
        inv_tier(t)
    inv_snug(g)
    inv_hierarchy(g)
    inv_order_below(g)
    inv_precedence(g)
    if atg is not None:
        wf(atg)
    stats.nontrivial(len(want) > len(orig))


def filled(t, orig, lo, hi, what):
    """the originals, the very objects, and blank intervals of the class of the tier in the gaps between lo and hi"""
    want, at = [], lo
    for x, s, e, l in orig:
        if s > at + TOL:
            want.append((None, at, s, ""))
        want.append((x, s, e, l))
        at = e
    if at < hi - TOL:
        want.append((None, at, hi, ""))
    same_ents(ents(t), [w[1:] for w in want], what)
    for x, w in zip(t, want):
        expect(w[0] is None or x is w[0], lambda: f"{what}: {nm(x)} was replaced")
        expect(type(x) is t.entry_class, lambda: f"{what}: class of {nm(x)}")


def check_tier(case, stats):
    es = [to_secs(case, t) for t in case["tiers"]]
    d = len(es)
    lv = case["level"] % d
    if case["where"] == "free":
        cl = custom_classes(NAMES[:3])
        keep = [e for i, e in enumerate(es[lv]) if i not in case["out"]] or es[lv]
        t = SequenceTier([cl[lv](e) for e in keep])
        orig = [(x, x.start, x.end, x.label) for x in t]
        t.cleanup()
        filled(t, orig, orig[0][1], orig[-1][2], "tier")
        inv_tier(t)
        chain_ok(list(t), "tier")
        now = list(t)
        t.cleanup()
        expect(len(t) == len(now) and all(a is b for a, b in zip(t, now)), "second cleanup changed the tier")
        stats.nontrivial(len(t) > len(orig))
    else:
        cl = custom_classes(NAMES[:d])
        g = TierGroup([SequenceTier([Interval(*e) for e in t], c) for t, c in zip(es, cl)])
        atg = AlignedTextGrid([g]) if case["where"] == "textgrid" else None
        g = atg[0] if atg is not None else g
        if case["lowest"]:
            lowest(case, g, atg, stats)
            stats.label("lowest")
            return
        lo, hi = g.xmin, g.xmax
        top = list(g[0])
        gone = 0
        for i in case["out"]:
            if not 0 < i < len(top) - 1:
                continue
            level = [top[i]]
            for t in g:
                below = [y for x in level for y in x]
                for x in level:
                    t.pop(x)
                level = below
            gone += 1
        orig = [[(x, x.start, x.end, x.label) for x in t] for t in g]
        g[0].cleanup()
        for ti, (t, o) in enumerate(zip(g, orig)):
            filled(t, o, lo, hi, f"tier {ti}")
            inv_tier(t)
        inv_snug(g)
        inv_hierarchy(g)
        inv_order_below(g)
        inv_precedence(g)
        if atg is not None:
            wf(atg)
        stats.nontrivial(gone > 0)
    stats.label(case["where"])


@st.composite
def interval_case(draw):
    """an interval with some of what is below it missing: free-standing, or in a group"""
    c = draw(timebase())
    hi = draw(st.integers(1, 24))
    b = draw(partition(0, hi, max_cuts=12))
    c["sub"] = [[s, e, l] for s, e, l in zip(b, b[1:], draw(st.lists(labels, min_size=len(b) - 1, max_size=len(b) - 1)))]
    c["out"] = draw(st.lists(st.integers(0, 12), max_size=6, unique=True))
    c["above"], c["below"] = draw(st.integers(0, 2)), draw(st.integers(0, 2))
    c["grouped"] = draw(st.booleans())
    return c


def ivs(x):
    return [(float(y.start), float(y.end), y.label) for y in x]


def check_interval(case, stats):
    cl = custom_classes(NAMES[:2 + case["above"] + case["below"]])
    A, B = cl[case["above"]:][:2]
    es = to_secs(case, case["sub"])
    lo, hi = es[0][0], es[-1][1]
    kids = [B(e) for e in es]
    if case["grouped"]:
        ts = [SequenceTier([c((lo, hi, "up"))]) for c in cl[:case["above"]]]
        g = TierGroup(ts + [SequenceTier([A((lo, hi, "x"))]), SequenceTier(kids)])
        x = g[case["above"]][0]
        for i in sorted(case["out"], reverse=True):
            if i < len(kids):
                g[-1].pop(kids.pop(i))
    else:
        x = A((lo, hi, "x"))
        kids = [k for i, k in enumerate(kids) if i not in case["out"]]
        for k in kids:
            x.append(k)
    orig = [(k, k.start, k.end, k.label) for k in kids]
    x.cleanup()
    want, at = [], lo
    for k, s, e, l in orig + [(None, hi, hi, "")]:
        if s > at + TOL:
            want.append((None, at, s, ""))
        if k is not None:
            want.append((k, s, e, l))
        at = e
    same_ents(ivs(x), [w[1:] for w in want], "interval after cleanup")
    same((x.start, x.end, x.label), (lo, hi, "x"), "the interval itself")
    for y, w in zip(x, want):
        expect(w[0] is None or y is w[0], lambda: f"{nm(y)} was replaced")
        expect(y.super_instance is x and type(y) is B, lambda: f"superset and class of {nm(y)}")
    chain_ok(list(x), "subset list")
    expect(x.validate(), "the interval is not valid")
    if case["grouped"]:
        same([id(y) for y in g[-1]], [id(y) for y in x], "the tier below")
        inv_tier(g[-1])
        inv_snug(g)
        inv_hierarchy(g)
    elif not orig:                       # all that was missing below is there
        level = x
        for c in cl[case["above"] + 1:]:
            same_ents(ivs(level), [(lo, hi, "")], "below an interval without subsets")
            level = level[0]
            expect(type(level) is c, lambda: f"class of {nm(level)}")
    now = [id(y) for y in x]
    x.cleanup()
    same([id(y) for y in x], now, "a second cleanup")
    stats.label("grouped" if case["grouped"] else "free")
    stats.nontrivial(len(want) > len(orig) and len(orig) > 1)


PARTS = [
    Part("interval", interval_case, check_interval, 1500, 30000, "two or more subset intervals, and at least one gap"),
    Part("load", lambda: grid(max_groups=3, max_depth=4, modes=["tight", "gap", "ext", "mis", "wild"]), check_load,
         4000, 80000, "more than one tier in a group, more than one interval in a tier, and not generated tight"),
    Part("history", lambda: history(), check_history, 3000, 60000,
         "more than one tier and interval, and at least one operation took effect before cleanup"),
    Part("tier", tier_case, check_tier, 1500, 30000, "at least one interval was taken out and filled in"),
    Part("group", group_case, check_group, 3000, 60000, "more than one tier, not generated tight"),
]
ASSUMPTIONS = ["gaps and mismatches are far above the library's own comparison tolerance (1e-5 of the time value)",
               "tiers are non-empty and free of overlaps"]
