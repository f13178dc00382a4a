"""An entry, tier or group is the same whatever form its data comes in; the source of a copy stays as it was."""
from core import Part, Violation, expect, same
from hist import *

FORMS = ["tuple", "list", "praatio", "same", "other", "related", "kw"]


class Plain(SequenceInterval):
    pass


Plain.set_superset_class(Top)
Plain.set_subset_class(Bottom)


class Mark(SequencePoint):
    pass


@st.composite
def entry_case(draw):
    c = draw(timebase())
    c["points"] = draw(st.booleans())
    ts = sorted(draw(st.sets(st.integers(-6, 30), min_size=2, max_size=9)))
    c["ticks"] = ts
    c["gap"] = draw(st.integers(0, 3))                   # every so many intervals one is left out
    n = len(ts)
    odd = st.sampled_from([" a", "a ", "\ta\n", " ", "#b", "None", "0", "ä\u0301"])
    c["labels"] = draw(st.lists(st.one_of(labels, odd), min_size=n, max_size=n))
    c["any"] = draw(st.sampled_from([False, False, None, 7, 0, ["l"]]))      # labels may be anything
    c["grouped"] = draw(st.booleans())
    c["forms"] = draw(st.lists(st.sampled_from(FORMS), min_size=n, max_size=n))
    c["order"] = draw(st.permutations(list(range(n))))
    c["cls"] = draw(st.sampled_from(["base", "Word", "Phone", "custom", "lower", "subclass"]))
    c["how"] = draw(st.sampled_from(["entries", "mixed", "praatio", "tier", "tier", "recast", "list", "sequencelist", "tuple"]))
    c["name"] = draw(st.sampled_from([None, "w", "spk - words", "Word", "A"]))
    return c


def pick(case):
    A, B, C = custom_classes(["A", "B", "C"])
    P, = custom_classes(["P"], points=[0])
    if case["points"]:
        return {"base": SequencePoint, "Word": P, "Phone": P, "custom": P, "lower": polar.Misc, "subclass": Mark}[case["cls"]]
    return {"base": SequenceInterval, "Word": Word, "Phone": Phone, "custom": A, "lower": B, "subclass": Plain}[case["cls"]]


def src(form, e, cls, points):
    """the data of one entry in the given form; for "related" an entry with relations of its own"""
    if form == "list":
        return list(e)
    if form == "praatio":
        return Point(*e) if points else Interval(*e)
    if form == "same":
        return cls(e)
    if form in ("other", "related"):
        if points:
            return SequencePoint(e)
        if form == "other":
            return SequenceInterval(e)
        X, Y, Z = custom_classes(["X", "Y", "Z"])
        y = Y(e)
        x, z = X(e), Z(e)
        x.append(y)
        y.append(z)
        TierGroup([SequenceTier([x]), SequenceTier([y]), SequenceTier([z])])
        return y
    return tuple(e)


def facts(x, points):
    r = (type(x), x.label, id(x.intier), id(x.fol), id(x.prev), id(x.within))
    if points:
        return r + (x.time,)
    return r + (x.start, x.end, id(x.super_instance), [id(y) for y in x.subset_list])


def fresh(x, e, cls, points, what):
    expect(type(x) is cls, lambda: f"{what}: class {type(x)}, expected {cls}")
    got = (x.time, x.label) if points else (x.start, x.end, x.label)
    same(got, tuple(e), f"{what}: times and label")
    expect(x.entry_class is cls, f"{what}: entry_class")
    expect(x.intier is None and x.tier_index is None and x.get_tierwise(1) is None, f"{what}: it is in a tier")
    expect(x.within is None and x.id == "", lambda: f"{what}: it is within {x.within!r}")
    for b in (x.fol, x.prev):
        expect(is_boundary(b) and type(b) is cls, lambda: f"{what}: neighbour {nm(b)}")
    p = x.return_praatio()
    expect(isinstance(p, Point if points else Interval) and tuple(p) == tuple(e), f"{what}: return_praatio")
    if not points:
        expect(x.super_instance is None and len(x.subset_list) == 0 and len(x.contains) == 0, f"{what}: relations")
        expect(x.duration == e[1] - e[0], f"{what}: duration")


def data(case):
    b = [sec(case, t) for t in case["ticks"]]
    if case["points"]:
        return [(t, l) for t, l in zip(b, case["labels"])]
    es = [(s, e, l) for s, e, l in zip(b, b[1:], case["labels"])]
    g = case["gap"]
    return [e for i, e in enumerate(es) if not g or i % (g + 1) != g] or es


def check_entries(case, stats):
    points, cls = case["points"], pick(case)
    es = data(case)
    for k, (e, form) in enumerate(zip(es, case["forms"])):
        if case["any"] is not False and k % 2:
            e = tuple(e[:-1]) + (case["any"],)
        s = src(form, e, cls, points)
        ent = isinstance(s, (SequenceInterval, SequencePoint))
        before = facts(s, points) if ent else list(s)
        x = cls(Interval=s) if form == "kw" and not points else cls(s)
        what = f"{cls.__name__} made from {form} {s!r}" if not ent else f"{cls.__name__} made from another ({form})"
        fresh(x, e, cls, points, what)
        expect(x is not s, f"{what}: it is the same object")
        same(facts(s, points) if ent else list(s), before, f"{what}: its source")
        # a copy of the copy, with a life of its own
        y = cls(x)
        y.label = "changed"
        if points:
            y.time = y.time + 1
        else:
            y.end = y.end + 1
        fresh(x, e, cls, points, f"{what}, after a copy of it was changed")
        if not points:
            y.set_feature("speech_rate", 3)
            expect(y.speech_rate == 3 and not hasattr(x, "speech_rate") and not hasattr(cls, "speech_rate"), "set_feature")
        bad = tuple(e) + ("more",)
        try:
            cls(bad)
        except ValueError:
            pass
        else:
            raise Violation(f"{cls.__name__} made from {bad!r}")
        stats.label("form_" + form)
    stats.nontrivial(len(set(case["forms"][:len(es)])) > 1)


def check_tier(case, stats):
    points, cls = case["points"], pick(case)
    T = SequencePointTier if points else SequenceTier
    es = data(case)
    if case["how"] == "praatio":          # praatio strips labels
        es = [tuple(e[:-1]) + (e[-1].strip(),) for e in es]
    order = [i for i in case["order"] if i < len(es)]
    how = case["how"]
    name = cls.__name__
    objs = None
    if how == "praatio":
        name = case["name"] or name
        t = T((PointTier if points else IntervalTier)(name, [(Point if points else Interval)(*e) for e in es]), cls)
    elif how == "mixed":
        forms = [f if f != "kw" else "tuple" for f in case["forms"]]
        if points:                                # a tier of points needs points
            forms = [f if f not in ("list", "tuple") else "praatio" for f in forms]
        ss = [src(forms[i], es[i], cls, points) for i in order]
        objs = [s if isinstance(s, (SequenceInterval, SequencePoint)) else None for s in ss]
        for s in objs:
            if s is not None and getattr(s, "super_instance", None) is not None:
                s.remove_superset()
                s.subset_list = []
        t = T(ss, cls)
    else:
        objs = [cls(es[i]) for i in order]
        if how == "tier":
            first = T(objs)
            if case["name"]:
                first.name = case["name"]
                name = case["name"]
            if case["grouped"]:
                (PointsGroup if points else TierGroup)([first])
            t = T(first)
        elif how == "recast":
            other = SequencePoint if points else SequenceInterval
            if cls is other:
                return
            first = T([other(es[i]) for i in order])
            if case["name"]:
                first.name = name = case["name"]
            held = list(first)
            t = T(first, cls)
            expect(len(first) == len(held) and all(a is b for a, b in zip(first, held)), "recast: the tier it was made from")
            objs = None
        elif how == "list":
            t = T([(Point if points else Interval)(*es[i]) for i in order], cls)
            objs = None
        else:
            t = T(SequenceList(*objs) if how == "sequencelist" else tuple(objs) if how == "tuple" else objs)
    what = f"tier made from {how}"
    expect(t.entry_class is cls, lambda: f"{what}: entry class {t.entry_class}")
    same(t.name, name, f"{what}: name")
    got = [(x.time, x.label) if points else (x.start, x.end, x.label) for x in t]
    same(got, es, f"{what}: entries")
    same(list(t.labels), [e[-1] for e in es], f"{what}: labels")
    same((t.xmin, t.xmax), (es[0][0], es[-1][-2]), f"{what}: extents")
    if objs:
        for i, o in zip(order, objs):
            expect(o is None or t[i] is o, lambda: f"{what}: entry {i} is not the one given")
    for i, x in enumerate(t):
        expect(type(x) is cls, lambda: f"{what}: class of {nm(x)} is {type(x)}")
        expect(x.intier is t and x.tier_index == i and x.tiername == name, f"{what}: place of {nm(x)}")
    chain_ok(list(t), what)
    stats.label("tier_" + how)
    # the tier has a list of its own
    if how in ("tier", "sequencelist"):
        if how == "tier":
            old = first
        else:
            old = SequenceList(*t)
            t = T(old)
        n = len(old)
        t.append(cls((es[-1][-2] + 5, "new") if points else (es[-1][1] + 5, es[-1][1] + 6, "new")))
        expect(len(t) == n + 1 and len(old) == n, lambda: f"{what}: appending to it appends to what it was made from")
        t.sequence_list = list(t)[:-1]
        expect(len(t) == n and len(old) == n, lambda: f"{what}: removing from it")
    # groups made of it, and again of the group
    if not points and issubclass(cls.superset_class, Top) or points:
        G = PointsGroup if points else TierGroup
        g = G([t])
        expect(len(g) == 1 and g[0] is t and t.within is g, f"{what}: group")
        g.name = "given"
        h = G(g)
        expect(h is not g and len(h) == 1 and h[0] is t and h.name == "given" and t.within is h, f"{what}: group made from a group")
        same([(x.time, x.label) if points else (x.start, x.end, x.label) for x in h[0]], es, f"{what}: entries in the group")
    empty = T([], cls)
    expect(len(empty) == 0 and empty.entry_class is cls and empty.xmin is None and empty.xmax is None and empty.labels == [],
           "empty tier")
    stats.nontrivial(len(es) > 1)


PARTS = [Part("entries", entry_case, check_entries, 2500, 50000, "entries in more than one form"),
         Part("tiers", entry_case, check_tier, 2500, 50000, "a tier of more than one entry")]
ASSUMPTIONS = ["intervals of a tier do not overlap, points of a tier are at different times"]
