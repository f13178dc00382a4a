"""Repair is conservative: what was annotated survives, only blank intervals are added."""
from core import Part, expect, same
from hist import *


@st.composite
def case_(draw, modes=("gap", "ext", "mis", "wild"), max_depth=4):
    c = draw(grid(modes=list(modes), max_groups=2, max_depth=max_depth, points=False))
    c["blank"] = draw(st.integers(0, 4))           # every so many input intervals are blank themselves (0: none)
    c["how"] = draw(st.sampled_from(["load", "load", "cleanup"]))
    return c


def relabelled(case):
    """unique labels, so that every interval can be followed"""
    n, k, out = 0, case["blank"], []
    for tiers in case["groups"]:
        g = []
        for t in tiers:
            r = []
            for s, e, _ in t:
                n += 1
                r.append([s, e, "" if k and n % (k + 1) == 0 else f"i{n}"])
            g.append(r)
        out.append(g)
    return dict(case, groups=out)


def build(case):
    if case["how"] == "load":
        return load(case)
    groups = []
    names = class_names(dict(case, classes="own"))
    for gi, tiers in enumerate(case["groups"]):
        cl = custom_classes(names[gi])
        ts = [SequenceTier([Interval(*e) for e in to_secs(case, es)], c) for es, c in zip(tiers, cl)]
        groups.append(TierGroup([ts[k] for k in case["perm"][gi]]))
    atg = AlignedTextGrid(groups)
    atg.cleanup()
    return atg


def check(case, stats):
    case = relabelled(case)
    exact = case["mode"] in ("gap", "ext")
    atg = build(case)
    same(len(atg), len(case["groups"]), "number of groups")
    trimmed = added = 0
    for gi, (g, tiers) in enumerate(zip(atg, case["groups"])):
        same(len(g), len(tiers), "number of tiers")
        for ti, (t, es) in enumerate(zip(g, tiers)):
            src = to_secs(case, es)
            what = f"group {gi} tier {ti}"
            want = [e for e in src if e[2]]
            got = [x for x in t if x.label != ""]
            same([x.label for x in got], [e[2] for e in want], f"{what}: labelled intervals, in order")
            for x, (s, e, l) in zip(got, want):
                expect(x.start >= s - TOL and x.end <= e + TOL and x.end - x.start > TOL,
                       lambda: f"{what}: {nm(x)} reaches outside what was given, {(s, e, l)}")
                if exact or len(tiers) == 1:
                    expect(close(x.start, s) and close(x.end, e), lambda: f"{what}: {nm(x)} was given as {(s, e, l)}")
                trimmed += not (close(x.start, s) and close(x.end, e))
            added += len(t) - len(src)
            if exact or len(tiers) == 1:           # blank ones of the input are kept as well
                have = [(float(x.start), float(x.end)) for x in t if x.label == ""]
                for s, e, l in src:
                    if not l:
                        expect(any(close(a, s) and close(b, e) for a, b in have),
                               lambda: f"{what}: blank interval {(s, e)} of the input is gone: {ents(t)}")
            # fillers lie where nothing was annotated, unless a mismatch was trimmed
            if exact:
                for x in t:
                    if x.label == "":
                        over = [e for e in want if min(e[1], x.end) - max(e[0], x.start) > TOL]
                        expect(not over, lambda: f"{what}: filler {nm(x)} lies over {over}")
    if exact:
        for g in atg:
            for up, lo in zip(list(g), list(g)[1:]):
                for x in lo:
                    p = x.super_instance
                    expect(p.start <= x.start + TOL and x.end <= p.end + TOL,
                           lambda: f"{nm(x)} is related to {nm(p)}, which does not cover it")
    # the two uppermost tiers: related by greatest overlap
    for g, tiers in zip(atg, case["groups"]):
        if len(tiers) < 2:
            continue
        up = to_secs(case, tiers[0])
        orig = {e[2]: e for e in to_secs(case, tiers[1])}
        for x in g[1]:
            if x.label not in orig or not x.label:
                continue
            s, e, _ = orig[x.label]
            ov = [min(e, u[1]) - max(s, u[0]) for u in up]
            best = max(ov)
            p = x.super_instance
            if best <= TOL:
                same(p.label, "", f"superset of {nm(x)}, which overlaps nothing above")
            else:
                ok = [u for u, o in zip(up, ov) if o >= best - TOL]
                if p.label:
                    if len(tiers) == 2:
                        u = next(u for u in up if u[2] == p.label)
                        expect(close(x.start, max(s, u[0])) and close(x.end, min(e, u[1])),
                               lambda: f"{nm(x)}, given as {(s, e)} and related to {u}, is not their common part")
                    expect(p.label in [u[2] for u in ok],
                           lambda: f"{nm(x)} (given as {(s, e)}) is related to {nm(p)}, greatest overlap: {ok}")
                else:
                    expect(any(not u[2] and p.start >= u[0] - TOL and p.end <= u[1] + TOL for u in ok),
                           lambda: f"{nm(x)} (given as {(s, e)}) is related to blank {nm(p)}, greatest overlap: {ok}")
    stats.label("mode_" + case["mode"])
    stats.label("how_" + case["how"])
    stats.label("trimmed", trimmed > 0)
    stats.label("added", added > 0)
    stats.nontrivial(added > 0 or trimmed > 0)


def check_labels(case, stats):
    """what is done does not depend on what the labels are: relabelling and repairing commute"""
    by = build(case)
    uniq = relabelled(dict(case, blank=0))
    names = {}
    for a, b in zip(case["groups"], uniq["groups"]):
        for t, u in zip(a, b):
            for x, y in zip(t, u):
                names[y[2]] = x[2]
    ref = build(uniq)
    for gi, (g, h) in enumerate(zip(by, ref)):
        for ti, (t, u) in enumerate(zip(g, h)):
            want = [(float(x.start), float(x.end), names.get(x.label, "")) for x in u]
            same_ents(ents(t), want, f"group {gi} tier {ti}: repaired under its own labels")
            for x, y in zip(t, u):
                same(x.id, y.id, "place")
    stats.label("how_" + case["how"])
    stats.nontrivial(any(len(t) != len(s) for g, tiers in zip(by, case["groups"]) for t, s in zip(g, tiers)))


PARTS = [
    Part("repair", case_, check, 5000, 100000, "at least one interval was added or trimmed"),
    Part("labels", case_, check_labels, 1500, 30000, "at least one interval was added"),
    Part("mismatch", lambda: case_(modes=("mis", "wild"), max_depth=2), check, 3000, 60000,
         "at least one interval was added or trimmed"),
]
ASSUMPTIONS = ["gaps and mismatches are far above the library's own comparison tolerance",
               "tiers are non-empty and free of overlaps"]
