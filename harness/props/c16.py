"""Building a textgrid up piece by piece gives the same textgrid as loading it at once, in any order of pieces."""
from core import Part, expect, same
from hist import *
from props.c01 import parents_by_time

WAYS = ["groups", "append_groups", "append_tiers", "append_tiers_inside", "append_intervals", "append_nested",
        "grow_nested", "grow_subset", "upper_first", "lower_first"]


@st.composite
def case_(draw):
    c = draw(grid(modes=["tight"], max_groups=3, max_depth=4, layout=False))
    c["way"] = draw(st.sampled_from(WAYS))
    c["shuffle"] = draw(st.integers(0, 10 ** 6))
    c["named"] = draw(st.booleans())
    c["start_tier"] = draw(st.integers(0, 3))
    # names given to the tiers: none, the class name in lower case, of a speaker, all the same, the name of another class
    c["tnames"] = [draw(st.lists(st.sampled_from([None, None, "lower", "spk", "same", "other"]), min_size=len(g), max_size=len(g)))
                   for g in c["groups"]]
    return c


def shape(atg):
    def path(x):
        return x.id
    return [[[(x.label, x.id, x.super_instance.id if getattr(x, "super_instance", None) is not None else None,
               [y.id for y in getattr(x, "subset_list", [])]) for x in t] for t in g] for g in atg]


def relation(atg):
    return [[(c.__name__, t.superset_class is None or issubclass(c.superset_class, Top),
              issubclass(c.subset_class, Bottom)) for t, c in zip(g, g.entry_classes)] for g in igroups(atg)]


def tree(cl, tiers, case, k, s, e, rnd, top):
    """the descendants of [s,e] as a nested interval, children appended in random order"""
    lvl = len(tiers) - len(cl)
    x = cl[0](top)
    if len(cl) > 1:
        kids = [t for t in tiers[lvl + 1] if s <= t[0] and t[1] <= e]
        rnd.shuffle(kids)
        for kd in kids:
            x.append(tree(cl[1:], tiers, case, k, kd[0], kd[1], rnd, to_secs(case, [kd])[0]))
    return x


def call(case, gi, ts):
    """names the tiers, given top first"""
    for k, (t, how) in enumerate(zip(ts, (case.get("tnames") or [[]] * 9)[gi])):
        c = t.entry_class.__name__
        name = {None: None, "lower": c.lower(), "spk": f"spk{gi} - {c}", "same": "tier", "other": "Phone"}[how]
        if name:
            t.name = name


def build_group(case, gi, tiers, cl, way, rnd):
    secs_ = [to_secs(case, t) for t in tiers]
    if way == "append_intervals":
        ts = []
        for es, c in zip(secs_, cl):
            es = list(es)
            rnd.shuffle(es)
            t = SequenceTier([], c)
            for e in es:
                t.append(c(e))
            ts.append(t)
        call(case, gi, ts)
        rnd.shuffle(ts)
        return TierGroup(ts)
    if way in ("append_nested", "grow_nested"):
        tops = list(tiers[0])
        rnd.shuffle(tops)
        n = len(tops) if way == "append_nested" else 1
        trees = [tree(cl, tiers, case, 0, s, e, rnd, to_secs(case, [[s, e, l]])[0]) for s, e, l in tops]
        levels = [list(trees[:n])]
        for _ in cl[1:]:
            levels.append([y for x in levels[-1] for y in x.subset_list])
        ts = [SequenceTier(l, c) for l, c in zip(levels, cl)]
        call(case, gi, ts)
        rnd.shuffle(ts)
        g = TierGroup(ts)
        for x in trees[n:]:
            g[0].append(x)
        return g
    if way == "upper_first" and len(cl) > 1:
        # intervals with all their descendants, appended to a group that has only the upper tiers so far
        tops = list(tiers[0])
        rnd.shuffle(tops)
        trees = [tree(cl, tiers, case, 0, s, e, rnd, to_secs(case, [[s, e, l]])[0]) for s, e, l in tops]
        levels = [trees]
        for _ in cl[1:]:
            levels.append([y for x in levels[-1] for y in x.subset_list])
        first = [trees[:1]]
        n = 1 + case["start_tier"] % (len(cl) - 1)
        for _ in cl[1:n]:
            first.append([y for x in first[-1] for y in x.subset_list])
        ts = [SequenceTier(l, c) for l, c in zip(first, cl)]
        call(case, gi, ts)
        g = TierGroup(ts)
        for x in trees[1:]:
            g[0].append(x)
        for k, (a, b) in enumerate(zip(g, levels)):
            same([x.label for x in a], [x.label for x in sorted(b, key=lambda x: x.start)], f"tier {k} of {n}")
        rest = [SequenceTier(l, c) for l, c in zip(levels[n:], cl[n:])]
        call(case, gi, ts + rest)
        for t in rest:
            g.append(t)
        return g
    if way == "lower_first" and len(cl) > 1:
        # intervals with all above them, appended to a group that has only the lower tiers so far
        trees = [tree(cl, tiers, case, 0, s, e, rnd, to_secs(case, [[s, e, l]])[0]) for s, e, l in tiers[0]]
        levels = [trees]
        for _ in cl[1:]:
            levels.append([y for x in levels[-1] for y in x.subset_list])
        n = 1 + case["start_tier"] % (len(cl) - 1)
        first = [levels[n][:1]]
        for _ in cl[n + 1:]:
            first.append([y for x in first[-1] for y in x.subset_list])
        ts = [SequenceTier(l, c) for l, c in zip(first, cl[n:])]
        call(case, gi, [SequenceTier([], c) for c in cl[:n]] + ts)
        g = TierGroup(ts)
        late = levels[n][1:]
        rnd.shuffle(late)
        for x in late:
            g[0].append(x)
        for k, (a, b) in enumerate(zip(g, levels[n:])):
            same([x.label for x in a], [x.label for x in sorted(b, key=lambda x: x.start)], f"tier {k} of {len(cl) - n}")
        rest = [SequenceTier(l, c) for l, c in zip(levels[:n], cl)]
        call(case, gi, rest + ts)
        for t in reversed(rest):
            g.append(t)
        return g
    if way == "grow_subset" and len(cl) > 1:
        # from left to right, every top interval growing with what is appended to it
        g = None
        for s, e, l in tiers[0]:
            kids = [k for k in tiers[1] if s <= k[0] and k[1] <= e]
            trees = [tree(cl[1:], tiers, case, 0, k[0], k[1], rnd, to_secs(case, [k])[0]) for k in kids]
            top = cl[0]((trees[0].start, trees[0].end, l))
            top.append(trees[0])
            if g is None:
                levels = [[top]]
                for _ in cl[1:]:
                    levels.append([y for x in levels[-1] for y in x.subset_list])
                ts = [SequenceTier(lv, c) for lv, c in zip(levels, cl)]
                call(case, gi, ts)
                g = TierGroup(ts)
            else:
                g[0].append(top)
            for t in trees[1:]:
                top.end = t.end
                top.append(t)
        return g
    ts = [SequenceTier([Interval(*e) for e in es], c) for es, c in zip(secs_, cl)]
    call(case, gi, ts)
    if way == "append_tiers":
        # start from one tier, extend upwards or downwards
        k = case["start_tier"] % len(ts)
        g = TierGroup([ts[k]])
        lo = hi = k
        while lo > 0 or hi < len(ts) - 1:
            if lo > 0 and (hi == len(ts) - 1 or rnd.random() < .5):
                lo -= 1
                g.append(ts[lo])
            else:
                hi += 1
                g.append(ts[hi])
        return g
    rnd.shuffle(ts)
    return TierGroup(ts)


def check(case, stats):
    import random
    rnd = random.Random(case["shuffle"])
    way = case["way"]
    want = load(case)
    groups = []
    later = []
    for gi, (tiers, cl) in enumerate(zip(case["groups"], make_classes(case))):
        if way == "append_tiers_inside" and len(tiers) > 1:
            ts = [SequenceTier([Interval(*e) for e in to_secs(case, es)], c) for es, c in zip(tiers, cl)]
            call(case, gi, ts)
            g = TierGroup([ts[0]])
            later.append((g, ts[1:]))
        else:
            g = build_group(case, gi, tiers, cl, way, rnd)
        if case["named"]:
            g.name = gname(gi)
        groups.append(g)
    if case["points"]:
        pcs = custom_classes([f"P{k}" for k in range(len(case["points"]))], points=list(range(len(case["points"]))))
        pts = []
        for es, c in zip(case["points"], pcs):
            es = list(to_secs(case, es))
            rnd.shuffle(es)
            t = SequencePointTier([c(e) for e in es[:1]], c)
            for e in es[1:]:
                t.append(c(e))
            pts.append(t)
        if way == "append_tiers":
            pg = PointsGroup(pts[:1])
            for t in pts[1:]:
                pg.append(t)
        else:
            pg = PointsGroup(pts)
        if case["named"]:
            pg.name = "events"
        groups.append(pg)
    if way == "groups":
        atg = AlignedTextGrid(groups)
    else:
        atg = AlignedTextGrid()
        for g in groups:
            atg.append(g)
    if way == "append_tiers_inside":
        by = {id(g): k for k, g in enumerate(groups)}
        for g, rest in later:
            for t in rest:
                atg[by[id(g)]].append(t)
    same([[c.__name__ for c in g.entry_classes] for g in atg], [[c.__name__ for c in g.entry_classes] for g in want],
         "classes of the tiers")
    for gi, (g, w) in enumerate(zip(igroups(atg), igroups(want))):
        call(case, gi, w)
        for t, u, how in zip(g, w, (case.get("tnames") or [[]] * 9)[gi]):
            same(t.name, u.name if how else t.entry_class.__name__, f"built by {way}: name of the tier")
    same_snap(snap(atg), snap(want), f"built by {way}")
    same(shape(atg), shape(want), f"built by {way}: labels, ids and relations")
    same(relation(atg), relation(want), f"built by {way}: class hierarchy")
    parents_by_time(atg)
    wf(atg, names=case["named"])
    if case["named"]:
        same([g.name for g in atg], [gname(i) for i in range(len(case["groups"]))] + (["events"] if case["points"] else []),
             "group names")
        for g in atg:
            expect(getattr(atg, g.name) is g, "group accessor")
    # the result is a full citizen: exporting and loading gives it back
    again = AlignedTextGrid(atg.return_textgrid(), [[t.entry_class for t in g] for g in atg])
    same_snap(snap(again), snap(want), f"built by {way}, exported and loaded")
    stats.label("way_" + way)
    stats.label("classes_" + case["classes"])
    stats.nontrivial(rich(case))


@st.composite
def repair_case(draw):
    return draw(grid(modes=["gap", "ext", "mis", "wild"], max_groups=2, max_depth=4, points=False, layout=False))


def check_repair(case, stats):
    """groups put together by hand and cleaned up equal the loaded textgrid, whatever the repair has to do"""
    want = load(case)
    groups = []
    for gi, (tiers, cl) in enumerate(zip(case["groups"], make_classes(case))):
        ts = [SequenceTier([Interval(*e) for e in to_secs(case, es)], c) for es, c in zip(tiers, cl)]
        groups.append(TierGroup([ts[k] for k in case["perm"][gi]]))
    atg = AlignedTextGrid(groups)
    atg.cleanup()
    same_snap(snap(atg), snap(want), "groups by hand, then cleanup")
    same(shape(atg), shape(want), "groups by hand, then cleanup: labels, ids, relations")
    stats.label("mode_" + case["mode"])
    stats.nontrivial(rich(case))


PARTS = [Part("build", case_, check, 4000, 80000, "nested tiers of several intervals"),
         Part("repair", repair_case, check_repair, 1500, 30000, "nested tiers of several intervals")]
ASSUMPTIONS = ["every group holds the top class of its hierarchy once it is complete"]
