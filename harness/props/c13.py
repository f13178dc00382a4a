"""Custom classes: the hierarchy that was asked for, in the order that was asked for."""
from core import Part, expect, same
from hist import *

POOL = ["Word", "Syllable", "Topic", "BottomUp", "Phone", "Top", "Utt", "PrWord", "Point1", "IntervalX", "Stopper"]


def chain(classes):
    for up, lo in zip(classes, classes[1:]):
        expect(up.subset_class is lo and lo.superset_class is up,
               lambda: f"{up.__name__} is not directly above {lo.__name__}")
    if classes:
        expect(issubclass(classes[0].superset_class, Top) and not issubclass(classes[0].superset_class, SequenceInterval),
               lambda: f"above {classes[0].__name__}: {classes[0].superset_class}")
        expect(issubclass(classes[-1].subset_class, Bottom) and not issubclass(classes[-1].subset_class, SequenceInterval),
               lambda: f"below {classes[-1].__name__}: {classes[-1].subset_class}")


@st.composite
def case_(draw):
    names = draw(st.lists(st.sampled_from(POOL), min_size=1, max_size=6, unique=True))
    n = len(names)
    pts = sorted(draw(st.sets(st.integers(0, n - 1), max_size=n)))
    c = draw(timebase())
    c.update(names=names, points=pts, perm=draw(st.permutations(list(range(n)))),
             order=draw(st.sampled_from([None, "names", "ints"])))
    ni = n - len(pts)
    hi = draw(st.integers(1, 12))
    c["tiers"] = draw(aligned_tiers(ni, 0, hi)) if ni else []
    c["ptiers"] = [draw(point_tier(0, hi)) for _ in pts]
    return c


def check(case, stats):
    names, pts = case["names"], case["points"]
    perm = list(case["perm"]) if case["order"] else list(range(len(names)))
    order = {None: None, "names": [names[k] for k in perm], "ints": perm}[case["order"]]
    args = (list(names), None if order is None else list(order), list(pts))
    kw = {}
    if order is not None:
        kw["return_order"] = order
    if pts:
        kw["points"] = pts
    first = custom_classes(names, **kw)
    second = custom_classes(names, **kw)
    same((list(names), None if order is None else list(order), list(pts)), args, "the arguments")
    for got in (first, second):
        same([c.__name__ for c in got], [names[k] for k in perm], "names of the classes, in return order")
        for c, k in zip(got, perm):
            expect(issubclass(c, SequencePoint if k in pts else SequenceInterval), lambda: f"kind of {c.__name__}")
            expect(not issubclass(c, SequenceInterval if k in pts else SequencePoint), lambda: f"kind of {c.__name__}")
        by = {k: c for k, c in zip(perm, got)}
        chain([by[k] for k in range(len(names)) if k not in pts])
        hier = [by[k] for k in range(len(names)) if k not in pts]
        for c in hier:
            got_h = get_class_hierarchy(c)
            expect(len(got_h) == len(hier) and all(a is b for a, b in zip(got_h, hier)),
                   lambda: f"get_class_hierarchy({c.__name__}): {got_h}")
    expect(not set(first) & set(second), "two calls share classes")
    tops = {c.superset_class for c in first if issubclass(c, SequenceInterval)} & \
           {c.superset_class for c in second if issubclass(c, SequenceInterval)}
    ends = {c.subset_class for c in first if issubclass(c, SequenceInterval)} & \
           {c.subset_class for c in second if issubclass(c, SequenceInterval)}
    expect(not tops | ends, lambda: f"two hierarchies share {tops | ends}")
    # a single name instead of a list gives a single class
    one, other = custom_classes(names[0]), custom_classes(names[0], points=[0])
    expect(isinstance(one, type) and one.__name__ == names[0] and issubclass(one, SequenceInterval), lambda: f"a single class: {one}")
    chain([one])
    expect(isinstance(other, type) and other.__name__ == names[0] and issubclass(other, SequencePoint), lambda: f"a single point class: {other}")
    # usable as they are: one tier per class in return order
    by = {k: c for k, c in zip(perm, first)}
    ints = [k for k in range(len(names)) if k not in pts]
    data = {k: ("int", case["tiers"][i]) for i, k in enumerate(ints)}
    data.update({k: ("pts", case["ptiers"][i]) for i, k in enumerate(pts)})
    tg = make_tg(case, [(f"t{k}", *data[k]) for k in perm])
    atg = AlignedTextGrid(tg, [first])
    want = ([[names[k] for k in ints]] if ints else []) + ([[names[k] for k in perm if k in pts]] if pts else [])
    same([[c.__name__ for c in g.entry_classes] for g in atg], want, "classes of the tiers, top first")
    wants = ([[to_secs(case, data[k][1]) for k in ints]] if ints else []) + \
            ([[to_secs(case, data[k][1]) for k in perm if k in pts]] if pts else [])
    same_snap(snap(atg), wants, "tiers by class")
    wf(atg, names=False)
    for g in atg:
        for t in g:
            expect(getattr(g, t.entry_class.__name__) is t, "named accessor")
    for g in igroups(atg):
        chain(list(g.entry_classes))
        same([c.__name__ for c in get_class_hierarchy(g.entry_classes[0])], [names[k] for k in ints],
             "hierarchy of the textgrid's classes")
    chain([by[k] for k in ints])
    stats.label("order_%s" % case["order"])
    stats.label("points", bool(pts) and bool(ints))
    stats.label("points_only", bool(pts) and not ints)
    stats.nontrivial(len(names) > 2 and perm != list(range(len(names))))


@st.composite
def link_case(draw):
    n = draw(st.integers(2, 6))
    return dict(n=n, order=draw(st.permutations(list(range(n - 1)))),
                how=draw(st.lists(st.booleans(), min_size=n - 1, max_size=n - 1)),
                relink=draw(st.lists(st.tuples(st.integers(0, 20), st.integers(0, 20), st.booleans()).map(list), max_size=4)),
                names=draw(st.permutations(POOL)), scale=1.0, offset=0.0,
                tiers=draw(aligned_tiers(n, 0, draw(st.integers(1, 10)))))


def check_link(case, stats):
    """classes written by hand and linked in any order, from either side"""
    n = case["n"]
    cl = [type(case["names"][i], (SequenceInterval,), {"__doc__": "by hand"}) for i in range(n)]
    T, B = type("HandTop", (Top,), {}), type("HandBottom", (Bottom,), {})
    cl[0].set_superset_class(T)
    cl[-1].set_subset_class(B)
    for k in case["order"]:
        if case["how"][k]:
            cl[k].set_subset_class(cl[k + 1])
        else:
            cl[k + 1].set_superset_class(cl[k])
    chain(cl)
    for i, c in enumerate(cl):
        for bad in (c, int):
            for meth in (c.set_superset_class, c.set_subset_class):
                try:
                    meth(bad)
                except Exception:
                    pass
                else:
                    raise Violation(f"{c.__name__} accepts {bad} as a neighbour")
        got = get_class_hierarchy(c)
        expect(len(got) == n and all(a is b for a, b in zip(got, cl)), "get_class_hierarchy")
    chain(cl)
    copy = clone_class(cl[0])
    copies = get_class_hierarchy(copy)
    same([c.__name__ for c in copies], [c.__name__ for c in cl], "cloned hierarchy")
    chain(copies)
    chain(cl)
    expect(all(issubclass(a, b) and a is not b for a, b in zip(copies, cl)), "clones derive from the originals")
    for c in cl[1:]:
        try:
            clone_class(c)
        except Exception:
            pass
        else:
            raise Violation("cloning from the middle of a hierarchy is accepted")
    chain(cl)
    tl = [(f"t{k}", "int", case["tiers"][k]) for k in range(n)]
    atg = AlignedTextGrid(make_tg(case, tl), cl)
    same([c.__name__ for c in atg[0].entry_classes], [c.__name__ for c in cl], "classes of the tiers")
    wf(atg, names=False)
    # any two of them, originals and clones, linked anew
    pool = cl + copies + get_class_hierarchy(clone_class(cl[0]))
    for a, b, how in case.get("relink", []):
        up, lo = pool[a % len(pool)], pool[b % len(pool)]
        if up is lo:
            continue
        if how:
            up.set_subset_class(lo)
        else:
            lo.set_superset_class(up)
        expect(up.subset_class is lo and lo.superset_class is up,
               lambda: f"{up.__name__} ({pool.index(up)}) and {lo.__name__} ({pool.index(lo)}) linked: below the first "
                       f"{up.subset_class}, above the second {lo.superset_class}")
        stats.label("relinked")
    chain(list(atg[0].entry_classes))
    stats.nontrivial(n > 2)


PARTS = [Part("custom", case_, check, 3000, 40000, "three or more classes, returned out of hierarchical order"),
         Part("linked", link_case, check_link, 1500, 20000, "three or more classes")]
ASSUMPTIONS = ["class names are distinct identifiers that are not attributes of the containers"]
