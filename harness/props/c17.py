"""Concatenation puts the second piece, unchanged but for a shift, after the first; adding unites without a shift."""
from core import Part, expect, same
from hist import *
from props.c01 import parents_by_time


@st.composite
def case_(draw):
    c = draw(timebase())
    c["early"] = draw(st.integers(0, 4)) == 0         # the first piece lies before zero
    c["whole"] = draw(st.integers(0, 4)) == 0         # what comes after it is at whole seconds
    d = draw(st.integers(1, 4))
    c["depth"] = d
    c["a"] = draw(aligned_tiers(d, draw(st.integers(0, 3)), draw(st.integers(4, 16))))
    c["more"] = []
    for _ in range(draw(st.integers(1, 3))):
        lo = draw(st.integers(0, 3))
        c["more"].append(draw(aligned_tiers(d, lo, draw(st.integers(lo + 1, 14)))))
    c["perm"] = draw(st.permutations(list(range(d))))
    c["where"] = draw(st.sampled_from(["free", "atg", "atg2"]))
    c["shift"] = draw(st.sampled_from([0, 0, 0, 5]))
    c["op"] = draw(st.sampled_from(["concat", "concat", "add"]))
    return c


def first(case):
    return dict(case, offset=-40 * case["scale"]) if case.get("early") else case


def rest(case):
    return dict(case, offset=0, scale=INT) if case.get("whole") else case


def group(case, tiers, cl, perm=None):
    ts = [SequenceTier([Interval(*e) for e in to_secs(case, es)], c) for es, c in zip(tiers, cl)]
    return TierGroup([ts[k] for k in perm] if perm else ts)


def moved(es, d):
    return [tuple(v + d for v in e[:-1]) + (e[-1],) for e in es]


def rel_shape(groups):
    """relations by position: for every interval, the index of its superset"""
    return [[None if x.super_instance is None else positions(x.super_instance, g[ti - 1])[0] for x in t]
            for g in groups for ti, t in enumerate(g)]


def check(case, stats):
    cl = custom_classes(NAMES[:case["depth"]])
    g = group(first(case), case["a"], cl, case["perm"])
    atg = None
    if case["where"] != "free":
        extra = custom_classes(["Other"])
        gs = [g]
        o = TierGroup([SequenceTier([Interval(0, 50, "o")], extra[0])])
        o.name = "other"
        g.name = "mine"
        atg = AlignedTextGrid([g] if case["where"] == "atg" else [o, g])
        g = atg[-1]
    model = [to_secs(first(case), t) for t in case["a"]]
    for k, tiers in enumerate(case["more"]):
        new = group(rest(case), tiers, cl)
        fresh = [to_secs(rest(case), t) for t in tiers]
        if case["op"] == "concat":
            inc = max(t[-1][1] for t in model)
            objs = [list(t) for t in new]
            old = [list(t) for t in g]
            kids = {id(x): [id(y) for y in x.subset_list] for t in objs + old for x in t}
            g.concat(new)
            model = [a + moved(b, inc) for a, b in zip(model, fresh)]
            for ti, t in enumerate(g):
                expect(len(t) == len(old[ti]) + len(objs[ti]) and
                       all(x is y for x, y in zip(t, old[ti] + objs[ti])),
                       lambda: f"concat: tier {ti} does not hold the very entries of both groups, in order")
                for x in t:
                    same([id(y) for y in x.subset_list], kids[id(x)], f"concat: subset list of {nm(x)}")
        else:
            # disjoint in time: the pieces may be added in any order
            inc = max(t[-1][1] for t in model) + case["shift"] * case["scale"] - min(t[0][0] for t in fresh)
            new.shift(inc)
            before = [ents(t) for t in g]
            left = g if k % 2 == 0 else new
            res = left + (new if left is g else g)
            same(res.name, left.name, "name of the sum")
            model = [a + moved(b, inc) for a, b in zip(model, fresh)]
            g = res
            atg = None
        for ti, t in enumerate(g):
            same_ents(ents(t), model[ti], f"{case['op']} {k}: tier {ti}")
            inv_tier(t)
        inv_class_chain(g)
        inv_hierarchy(g)
        inv_order_below(g)
        inv_precedence(g)
        for up, lo in zip(list(g), list(g)[1:]):
            for x in lo:
                p = x.super_instance
                expect(p.start <= x.start + TOL and x.end <= p.end + TOL, lambda: f"{nm(x)} is related to {nm(p)}")
        if atg is not None:
            wf(atg, snug=False)
            same(g.name, "mine", "name of the group")
            if case["where"] == "atg2":
                same_ents(ents(atg[0][0]), [(0.0, 50.0, "o")], "the other group")
    stats.label("where_" + case["where"])
    stats.label(case["op"])
    stats.nontrivial(case["depth"] > 1 and len(case["more"]) > 0 and any(len(t) > 1 for t in case["a"]))


@st.composite
def points_case(draw):
    c = draw(timebase())
    c["early"] = draw(st.integers(0, 4)) == 0         # the first piece lies before zero
    c["whole"] = draw(st.integers(0, 4)) == 0         # what comes after it is at whole seconds
    n = draw(st.integers(1, 3))
    c["a"] = [draw(point_tier(0, 12)) for _ in range(n)]
    c["b"] = [draw(point_tier(1, 12)) for _ in range(n)]      # strictly after the last point once shifted
    c["where"] = draw(st.sampled_from(["free", "atg"]))
    c["op"] = draw(st.sampled_from(["group", "tier", "add"]))
    return c


def check_points(case, stats):
    n = len(case["a"])
    cl = custom_classes([f"P{k}" for k in range(n)], points=list(range(n)))
    mk = lambda tiers, case=case: PointsGroup([SequencePointTier([Point(*e) for e in to_secs(case, es)], c)
                                    for es, c in zip(tiers, cl)])
    g, new = mk(case["a"], first(case)), mk(case["b"], rest(case))
    model = [to_secs(first(case), t) for t in case["a"]]
    fresh = [to_secs(rest(case), t) for t in case["b"]]
    objs = [list(t) for t in new]
    g.name = "pts"
    atg = None
    if case["where"] == "atg":
        atg = AlignedTextGrid([g])
        g = atg[0]
    if case["op"] == "group":
        inc = max(t[-1][0] for t in model)
        g.concat(new)
        want = [a + moved(b, inc) for a, b in zip(model, fresh)]
    elif case["op"] == "tier":
        want = []
        for t, u, a, b in zip(g, new, model, fresh):
            inc = a[-1][0]
            t.concat(u)
            want.append(a + moved(b, inc))
    else:
        inc = max(t[-1][0] for t in model) + case["scale"]
        new.shift(inc)
        g = g + new
        same(g.name, "pts", "name of the sum")
        atg = None
        want = [a + moved(b, inc) for a, b in zip(model, fresh)]
    for ti, t in enumerate(g):
        same_ents(ents(t), want[ti], f"{case['op']}: tier {ti}")
        expect(all(is_in(x, t) for x in objs[ti]), lambda: f"{case['op']}: tier {ti} holds other entries than those added")
        inv_tier(t)
        chain_ok(t, f"point tier {ti}")
    if atg is not None:
        wf(atg)
        same(g.name, "pts", "name of the group")
    stats.label(case["op"])
    stats.nontrivial(any(len(t) > 1 for t in case["a"]) and any(len(t) > 1 for t in case["b"]))


@st.composite
def tier_case(draw):
    c = draw(timebase())
    c["early"] = draw(st.integers(0, 4)) == 0         # the first piece lies before zero
    c["whole"] = draw(st.integers(0, 4)) == 0         # what comes after it is at whole seconds
    c["a"] = draw(gappy(draw(tier_from(draw(partition(0, draw(st.integers(2, 16)), max_cuts=10))))))
    c["b"] = draw(gappy(draw(tier_from(draw(partition(0, draw(st.integers(2, 16)), max_cuts=10))))))
    c["op"] = draw(st.sampled_from(["concat", "add", "add_reversed"]))
    return c


def check_tier(case, stats):
    C, = custom_classes(["Seg"])
    mk = lambda es, case=case: SequenceTier([C(e) for e in to_secs(case, es)])
    a, b = mk(case["a"], first(case)), mk(case["b"], rest(case))
    ea, eb = to_secs(first(case), case["a"]), to_secs(rest(case), case["b"])
    objs = list(a) + list(b)
    if case["op"] == "concat":
        inc = ea[-1][1]
        a.concat(b)
        res = a
    else:
        inc = ea[-1][1] + case["scale"]
        for x in b:
            x.start += inc
            x.end += inc
        res = a + b if case["op"] == "add" else b + a
    same_ents(ents(res), ea + moved(eb, inc), case["op"])
    expect(all(x is y for x, y in zip(res, objs)), "the very entries of both tiers")
    same(res.entry_class, C, "entry class")
    inv_tier(res)
    chain_ok(res, "tier")
    stats.label(case["op"])
    stats.nontrivial(len(ea) > 1 and len(eb) > 1)


PARTS = [Part("groups", case_, check, 3000, 60000, "more than one tier, and more than one interval in a tier"),
         Part("points", points_case, check_points, 1500, 30000, "more than one point on both sides"),
         Part("tiers", tier_case, check_tier, 1500, 30000, "more than one interval on both sides")]
ASSUMPTIONS = ["the pieces do not overlap in time after the shift", "entries that agree in times and label are one entry"]
