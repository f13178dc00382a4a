"""Asking a textgrid about itself changes nothing, and asking again gives the same answer."""
import contextlib, copy, io, os, shutil
import cloudpickle
from core import Part, expect, same
from hist import *
from props.c21 import full
from aligned_textgrid.outputs.to_dataframe import to_df as to_dataframe


def plain(v):
    """an answer as comparable data; objects by identity"""
    if isinstance(v, np.ndarray):
        return plain(v.tolist())
    if isinstance(v, (list, tuple, SequenceList)) and not isinstance(v, (Interval, Point)):
        return [plain(u) for u in v]
    if v is None or isinstance(v, (int, float, str, bool, np.generic, Interval, Point)):
        return repr(v)
    if hasattr(v, "to_dicts"):
        return repr(v.to_dicts())
    if isinstance(v, (SequenceInterval, SequencePoint)) and is_boundary(v):
        return "boundary of " + type(v).__name__
    return id(v)


def printed(f):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        f()
    return out.getvalue()


def tiers_of(tg):
    return [(t.name, type(t).__name__, [tuple(e) for e in t.entries], t.minTimestamp, t.maxTimestamp)
            for t in (tg.getTier(n) for n in tg.tierNames)]


def saved(f, suffix):
    d = tempfile.mkdtemp(prefix="c25")
    try:
        p = os.path.join(d, "x" + suffix)
        f(p)
        return open(p, encoding="utf-8").read()
    finally:
        shutil.rmtree(d)


def questions(atg, a, b, c, q):
    g = atg[a % len(atg)]
    t = g[b % len(g)]
    x = t[c % len(t)]
    h = atg[q % len(atg)]
    other = h[c % len(h)][b % len(h[c % len(h)])]
    time = other.time if isinstance(other, SequencePoint) else (other.start + other.end) / 2
    ask = {
        "repr": lambda: [repr(atg), repr(g), repr(t), repr(x), repr(t.sequence_list), str(x)],
        "ids": lambda: [x.id, t.id, g.id, x.within_path, t.within_path, x.within_index, t.within_index],
        "summary": lambda: [atg.xmin, atg.xmax, atg.tier_names, atg.entry_classes, g.xmin, g.xmax, g.tier_names, g.name,
                            t.xmin, t.xmax, t.name, t.labels, t.first, t.last, t.entry_class, len(atg), len(g), len(t)],
        "atg_lookup": lambda: atg.get_intervals_at_time(time),
        "atg_index": lambda: atg[[[0] * len(k) for k in atg]],
        "group_lookup": lambda: g.get_intervals_at_time(time),
        "group_index": lambda: g[[0] * len(g)],
        "class_by_name": lambda: atg.get_class_by_name(t.entry_class.__name__),
        "no_class": lambda: atg.get_class_by_name("Nowhere"),
        "member": lambda: [x in t, other in t, t in g, g in atg, t.index(x), g.index(t), atg.index(g)],
        "iterate": lambda: [[[u for u in v] for v in w] for w in atg],
        "next": lambda: next(iter(t)),
        "slice": lambda: [list(t[1:]), t[-1]],
        "equal": lambda: [x == other, t == g[0], g == atg[0], x != other, bool(x) if not hasattr(x, "__len__") else len(x)],
        "export": lambda: tiers_of(atg.return_textgrid()),
        "export_tier": lambda: [tuple(e) for e in t.return_tier().entries],
        "export_named": lambda: t.return_tier(name="other name").name,
        "save": lambda: saved(lambda p: atg.save_textgrid(p), ".TextGrid"),
        "save_json": lambda: saved(lambda p: atg.save_textgrid(p, format="json"), ".json"),
        "save_tier": lambda: saved(lambda p: t.save_as_tg(p), ".TextGrid"),
        "df_atg": lambda: to_dataframe(atg),
        "df_group": lambda: to_dataframe(g),
        "df_tier": lambda: to_dataframe(t),
        "df_entry": lambda: to_dataframe(x),
        "df_flat": lambda: [to_dataframe(v, with_subset=False) for v in (atg, g, t, x)],
        "praatio": lambda: x.return_praatio(),
        "neighbours": lambda: [x.fol, x.prev, x.get_tierwise(0), x.tier_index],
        "deepcopy": lambda: [len(copy.deepcopy(atg)), len(copy.deepcopy(t))],
        "pickle": lambda: [len(cloudpickle.loads(cloudpickle.dumps(v))) for v in (atg, g, t)],
        "pickle_entry": lambda: cloudpickle.loads(cloudpickle.dumps(x)).label,
        "accessors": lambda: [getattr(g, t.entry_class.__name__, None), getattr(atg, str(g.name), None)],
        "list": lambda: [t.sequence_list.starts, t.sequence_list.ends, t.sequence_list.labels],
        "new_list": lambda: [u for u in SequenceList(*t)] and None,
    }
    if isinstance(g, TierGroup):
        ask.update({
            "clone": lambda: [k.__name__ for k in get_class_hierarchy(clone_class(g[0].entry_class), [])],
            "structure": lambda: printed(g.show_structure),
            "validate": lambda: [u.validate() for u in t],
            "tier_lookup": lambda: [t.get_interval_at_time(time), t.get_interval_at_time(-1), t.get_interval_at_time(1e6)],
            "interval": lambda: [x.duration, x.sub_starts, x.sub_ends, x.sub_labels, x.subset_list, x.super_instance,
                                 x.superset_class, x.subset_class],
            "instance_above": lambda: x.super_instance and x.super_instance.index(x),
            "extremes": lambda: [x.first, x.last] if len(x) else None,
        })
        if isinstance(other, SequencePoint):
            ask["distance"] = lambda: other.distance_from(x)
            ask["at_point"] = lambda: [other.get_interval_at_point(t), other.get_interval_index_at_time(t)]
    else:
        ask.update({
            "times": lambda: [t.times, x.fol_distance, x.prev_distance, t.get_nearest_point_index(time), t.get_nearest_point(time)],
            "nearest": lambda: g.get_nearest_points_index(time),
            "distance": lambda: x.distance_from(other),
        })
    return ask


@st.composite
def case_(draw):
    c = draw(maybe_raw(max_size=3))
    # points moved past others, and boundaries that are off by less than is noticed
    c["past"] = draw(st.one_of(st.just([]), st.lists(st.tuples(small, small, small, small).map(list), max_size=2)))
    c["noise"] = draw(st.one_of(st.just([]), st.lists(st.tuples(small, small, small, st.sampled_from([1e-9, 3e-8, 1e-7, 1e-6])).map(list), max_size=3)))
    c["ask"] = draw(st.lists(st.tuples(small, small, small, small, st.integers(0, 50), st.sampled_from([1, 3, 12, 50])).map(list),
                             min_size=1, max_size=4))
    return c


def check(case, stats):
    s, done = run_history(case, stats, lambda s, t: None)
    atg = s.atg
    ps = [g for g in atg if isinstance(g, PointsGroup)]
    for a, b, c, d in case.get("past", []) if ps else []:
        t = ps[a % len(ps)][b % len(ps[a % len(ps)])]
        x, y = t[c % len(t)], t[d % len(t)]
        if x is not y:
            x.time, y.time = y.time, x.time + case["scale"] / 4
            stats.label("out_of_order")
    gs = igroups(atg)
    for a, b, c, d in case.get("noise", []) if gs else []:
        t = gs[a % len(gs)][b % len(gs[a % len(gs)])]
        t[c % len(t)].start = t[c % len(t)].start + d
        stats.label("noisy_boundary")
    for a, b, c, q, start, n in case["ask"]:
        before = full(atg)
        ask = questions(atg, a, b, c, q)
        names = sorted(ask)
        names = (names * 2)[start % len(names):][:min(n, len(names))]
        one = {k: plain(ask[k]()) for k in names}
        now = full(atg)
        for x, y, what in zip(before, now, ("content and names", "entries", "relations", "classes", "accessors", "groups",
                                            "tiers")):
            same(y, x, f"after asking for {', '.join(names)}: {what}")
        two = {k: plain(ask[k]()) for k in reversed(names)}
        for k in names:
            expect(one[k] == two[k], lambda: f"{k}: {two[k]} when asked again, {one[k]} before")
            stats.label(k)
    if not case.get("past") and not case.get("raw"):
        wf(atg, snug=False)
    stats.nontrivial(rich(case))


PARTS = [Part("questions", case_, check, 3000, 60000, "a hierarchy of at least two tiers and more than one interval in a tier")]
ASSUMPTIONS = ["the state compared is what is publicly readable: entries, times, labels, relations, neighbours, classes, names, ids, accessors"]
