"""An operation that is refused leaves the textgrid as it was."""
from core import Part, Violation, expect, same
from hist import *
from pickle_worker import observe, cname



def full(atg):
    """everything observable: content, names, relations, classes, and which objects they are"""
    ids = [[[id(x) for x in t] for t in g] for g in atg]
    rel = [[[(id(x.fol) if not is_boundary(x.fol) else None, id(x.prev) if not is_boundary(x.prev) else None,
              id(getattr(x, "super_instance", None)), [id(y) for y in getattr(x, "subset_list", [])],
              type(x).__name__) for x in t] for t in g] for g in atg]
    cls = [[(c.__name__, cname(getattr(c, "superset_class", None)), cname(getattr(c, "subset_class", None)))
            for c in g.entry_classes] for g in atg]
    acc = [[id(getattr(g, c.__name__, None)) for c in g.entry_classes] for g in atg]
    return observe(atg), ids, rel, cls, acc, [id(g) for g in atg], [[id(t) for t in g] for g in atg]


def boom(*a):
    raise RuntimeError("label function fails")


def refused(atg, k, a, b, c):
    """[(name, thunk)] — calls that have to raise, given what is there"""
    gs = igroups(atg)
    g = gs[a % len(gs)]
    t = g[b % len(g)]
    x = t[c % len(t)]
    ps = [h for h in atg if isinstance(h, PointsGroup)]
    Z, Y = custom_classes(["Zed", "Yod"])
    zt = lambda: SequenceTier([Z((0, 1, "z"))], Z)
    pt = lambda: SequencePointTier([SequencePoint((1, "p"))])
    tiers = lambda g: [SequenceTier([cl((0, 1, "n"))], cl) for cl in g.entry_classes]
    below = g.entry_classes[-1].subset_class
    more = lambda: TierGroup([SequenceTier([cl((0, 1, "n"))], cl) for cl in (
        custom_classes([cl.__name__ for cl in g.entry_classes] + ["Further"]) if issubclass(below, Bottom)
        else g.entry_classes + [below])])
    out = {
        "append_junk": lambda: t.append("junk"),
        "append_tier_to_tier": lambda: t.append(zt()),
        "append_other_class": lambda: t.append(Z((100, 101, "z"))),
        "append_point": lambda: t.append(SequencePoint((1, "p"))),
        "add_entry_to_tier": lambda: t + x,
        "add_other_tier": lambda: t + zt(),
        "concat_other_tier": lambda: t.concat(zt()),
        "group_add_size": lambda: g + TierGroup(tiers(g)[:-1]) if len(g) > 1 else g + TierGroup(
            [zt(), SequenceTier([Y((0, 1, "y"))], Y)]),
        "group_concat_size": lambda: g.concat(TierGroup(tiers(g)[:-1])) if len(g) > 1 else g.concat(TierGroup(
            [zt(), SequenceTier([Y((0, 1, "y"))], Y)])),
        "group_concat_more": lambda: g.concat(more()),
        "group_add_more": lambda: g + more(),
        "group_concat_class": lambda: g.concat(TierGroup([SequenceTier([cl((0, 1, "n"))], cl) for cl in
                                                           custom_classes([f"Q{i}" for i in range(len(g))])])),
        "group_append_point_tier": lambda: g.append(pt()),
        "group_append_existing": lambda: g.append(SequenceTier([t.entry_class((0, 1, "d"))], t.entry_class)),
        "group_append_unrelated": lambda: g.append(zt()),
        "index_size": lambda: atg[[0] * (len(atg) + 1)],
        "group_index_size": lambda: g[[0] * (len(g) + 1)],
        "index_size_short": lambda: atg[[0] * (len(atg) - 1)],
        "group_index_size_short": lambda: g[[0] * (len(g) - 1)],
        "index_range": lambda: atg[len(atg)],
        "interleave_both": lambda: atg.interleave_class("New", above=t.entry_class.__name__, below=t.entry_class.__name__),
        "interleave_none": lambda: atg.interleave_class("New"),
        "interleave_unnamed": lambda: atg.interleave_class("", above=t.entry_class.__name__),
        "interleave_timing": lambda: atg.interleave_class("New", above=t.entry_class.__name__, timing_from="sideways"),
        "interleave_top": lambda: atg.interleave_class("New", above=g[0].entry_class.__name__, timing_from="above"),
        "interleave_bottom": lambda: atg.interleave_class("New", below=g[-1].entry_class.__name__, timing_from="below"),
        "interleave_unknown": lambda: atg.interleave_class("New", above="Nowhere"),
        "starts_long": lambda: setattr(t, "starts", [float(v) for v in range(len(t) + 1)]),
        "starts_short": lambda: setattr(t, "starts", np.arange(len(t) - 1)),
        "ends_long": lambda: setattr(t, "ends", np.arange(len(t) + 2) + 1.0),
        "ends_short": lambda: setattr(t, "ends", list(range(len(t) - 1))),
        "tier_pop_absent": lambda: t.pop(t.entry_class((1000, 1001, "absent"))),
        "fol_self": lambda: x.set_fol(x),
        "prev_self": lambda: x.set_prev(x),
        "fol_class": lambda: x.set_fol(Z((0, 1, "z"))),
        "prev_class": lambda: x.set_prev(Z((0, 1, "z"))),
        "super_class": lambda: x.set_super_instance(Z((0, 1, "z"))),
        "subset_class": lambda: x.set_subset_list([Z((0, 1, "z"))]),
        "subset_assign": lambda: setattr(x, "subset_list", [Z((0, 1, "z"))]),
        "subset_mixed": lambda: setattr(x, "subset_list", [Z((0, 1, "z")), Y((1, 2, "y"))]),
        "append_subset": lambda: x.append_subset_list(Z((0, 1, "z"))),
        "interval_append": lambda: x.append(Z((0, 1, "z"))),
        "tierwise": lambda: x.get_tierwise(len(t)),
        "tierwise_before": lambda: x.get_tierwise(-len(t)),
        "groups_junk": lambda: setattr(atg, "tier_groups", ["junk"]),
        "groups_junk2": lambda: setattr(atg, "tier_groups", 3),
        "groups_mixed": lambda: setattr(atg, "tier_groups", [atg[0], "junk"]),
        "groups_mixed2": lambda: setattr(atg, "tier_groups", ["junk", atg[0]]),
        "load_mixed": lambda: AlignedTextGrid([atg[0], "junk"]),
        "plus_other": lambda: x + Z((0, 1, "z")),
        "atg_append_junk": lambda: atg.append("junk"),
        "list_mixed": lambda: SequenceList(x, Z((0, 1, "z"))),
        "list_append_other": lambda: t.sequence_list.append(Z((100, 101, "z"))),
        "list_add_other": lambda: t.sequence_list + [Z((100, 101, "z"))],
        "list_add_mixed": lambda: t.sequence_list + [Z((100, 101, "z")), Y((101, 102, "y"))],
        "list_remove_absent": lambda: t.sequence_list.remove(t.entry_class((1000, 1001, "absent"))),
        "cast_point": lambda: SequenceTier([SequencePoint((1, "p"))], t.entry_class),
        "long_interval": lambda: t.entry_class((0, 1, "a", "b")),
        "long_point": lambda: SequencePoint((0, "a", "b")),
        "class_self_super": lambda: t.entry_class.set_superset_class(t.entry_class),
        "class_self_sub": lambda: t.entry_class.set_subset_class(t.entry_class),
        "class_junk_super": lambda: t.entry_class.set_superset_class(SequencePoint),
        "class_junk_sub": lambda: t.entry_class.set_subset_class(str),
    }
    if is_boundary(x.fol):
        out["fuse_right_edge"] = lambda: x.fuse_rightwards()
    else:
        out["fuse_right_fun"] = lambda: x.fuse_rightwards(boom)
    if is_boundary(x.prev):
        out["fuse_left_edge"] = lambda: x.fuse_leftwards()
    else:
        out["fuse_left_fun"] = lambda: x.fuse_leftwards(boom)
    if ps:
        p = ps[0]
        q = p[b % len(p)]
        y = q[c % len(q)]
        out.update({
            "points_append_junk": lambda: q.append(3),
            "points_append_interval": lambda: q.append(Z((0, 1, "z"))),
            "points_add_size": lambda: p + PointsGroup([pt()] * (len(p) + 1)),
            "points_concat_class": lambda: p.concat(PointsGroup([pt() for _ in p])),
            "points_times_long": lambda: setattr(q, "times", [1.0] * (len(q) + 1)),
            "points_times_short": lambda: setattr(q, "times", [float(v) for v in range(len(q) - 1)]),
            "points_index_short": lambda: p[[0] * (len(p) - 1)],
            "points_index": lambda: p[[0] * (len(p) + 1)],
            "points_append_tier": lambda: p.append(zt()),
            "points_append_existing": lambda: p.append(SequencePointTier([q.entry_class((1, "p"))], q.entry_class)),
            "point_fol_self": lambda: y.set_fol(y),
            "point_prev_class": lambda: y.set_prev(SequencePoint((0, "q"))),
            "point_tierwise": lambda: y.get_tierwise(len(q)),
        })
    names = sorted(out)
    n = names[k % len(names)]
    return n, out[n]


@st.composite
def case_(draw):
    c = draw(maybe_raw(max_size=3))
    if draw(st.booleans()):
        c["ops"] = []
    c["bad"] = draw(st.lists(st.tuples(st.integers(0, 200), small, small, small).map(list), min_size=1, max_size=8))
    return c


def check(case, stats):
    s, done = run_history(case, stats, lambda s, t: None)
    atg = s.atg
    if not igroups(atg):
        return
    for k, a, b, c in case["bad"]:
        before = full(atg)
        name, call = refused(atg, k, a, b, c)
        try:
            call()
        except Exception:
            pass
        else:
            raise Violation(f"{name} was not refused")
        now = full(atg)
        for x, y, what in zip(before, now, ("content and names", "entries", "relations", "classes", "accessors", "groups",
                                            "tiers")):
            same(y, x, f"after the refused {name}: {what}")
        stats.label(name)
    if not case.get("raw"):
        wf(atg, snug=False)
    stats.nontrivial(rich(case))


PARTS = [Part("refused", case_, check, 4000, 80000, "a hierarchy of at least two tiers and more than one interval in a tier")]
ASSUMPTIONS = ["which exception is raised is not part of the property"]
