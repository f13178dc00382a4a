"""Isolation: what is done to one textgrid shows neither in the classes it was made from nor in other textgrids."""
from core import Part, expect, same
from hist import *
import hist


@st.composite
def case_(draw):
    c = draw(history([o for o in ALL_OPS if o != "pickle"], max_size=5, points=True))
    c["rich"] = draw(st.booleans())
    c["second"] = draw(st.sampled_from(["before", "after", "groups", "derived"]))
    c["edit_second"] = draw(ops(["interleave", "pop_class", "fuse", "shift", "tappend"], 2))
    return c


BUILTIN = [Word, Phone, SequenceInterval]


def ends_of(c):
    """what the classes at either end of a hierarchy are next to"""
    return id(getattr(c.superset_class, "subset_class", None)), id(getattr(c.subset_class, "superset_class", None))


def class_state(classes):
    return [(c.__name__, id(c.superset_class), id(c.subset_class), c.__bases__, ends_of(c),
             sorted(k for k in vars(c) if not k.startswith("_")))
            if issubclass(c, SequenceInterval) else (c.__name__, c.__bases__, sorted(k for k in vars(c) if not k.startswith("_")))
            for c in classes]


def full(atg):
    return [[(t.name, t.entry_class, id(t), ents(t), [id(x) for x in t]) for t in g] for g in atg], \
        [[(c, c.superset_class, c.subset_class, ends_of(c)) if issubclass(c, SequenceInterval) else c for c in g.entry_classes]
         for g in atg], [g.name for g in atg]


def check(case, stats):
    tl, ec = file_tiers(case)
    flat = list(dict.fromkeys(c for g in ec for c in g))
    if case["rich"]:                                   # classes with members of their own
        for k, c in enumerate(flat):
            if c in BUILTIN:
                continue
            c.tag = f"t{k}"
            c.shout = lambda self: self.label.upper()
    # an unrelated interval of the same classes
    probes = [c((0, 1, "probe")) if issubclass(c, SequenceInterval) else c((0, "probe")) for c in flat]
    watched = flat + [c for c in BUILTIN + [SequencePoint] if c not in flat]
    before = class_state(watched)

    def classes_untouched(what):
        same(class_state(watched), before, f"{what}: the classes given by the user")
        expect(Word.subset_class is Phone and Phone.superset_class is Word, f"{what}: Word and Phone")
        expect(issubclass(Word.superset_class, Top) and issubclass(Phone.subset_class, Bottom), f"{what}: Word and Phone")
        for p, c in zip(probes, flat):
            expect(type(p) is c, f"{what}: class of an unrelated entry")

    def make():
        return AlignedTextGrid(make_tg(case, tl), ec)

    def from_groups():
        """a second textgrid, put together from tiers of the very same classes"""
        groups, pos = [], 0
        for cl in ec:
            ts = []
            for c in cl:
                _, kind, es = tl[pos]
                pos += 1
                es = to_secs(case, es)
                ts.append(SequenceTier([Interval(*e) for e in es], c) if kind == "int" else
                          SequencePointTier([Point(*e) for e in es], c))
            groups.append(TierGroup(ts) if isinstance(ts[0], SequenceTier) else PointsGroup(ts))
        atg = AlignedTextGrid(groups)
        atg.cleanup()
        return atg

    def from_classes_of(atg):
        """a second textgrid, made with the entry classes of the first"""
        order, pos = [], 0
        for given, now in zip(ec, atg.entry_classes):
            names = [c.__name__ for c in given]
            order += [pos + names.index(c.__name__) for c in now]
            pos += len(given)
        return AlignedTextGrid(make_tg(case, [tl[k] for k in order]), atg.entry_classes)

    other = make() if case["second"] == "before" else from_groups() if case["second"] == "groups" else None
    other_before = full(other) if other else None
    s = State.__new__(State)
    s.case, s.n, s.log, s.atg = case, 0, [], make()
    classes_untouched("loading")
    if case["second"] == "derived":
        first = full(s.atg)
        other = from_classes_of(s.atg)
        other_before = full(other)
        same(full(s.atg), first, "making a textgrid from the classes of another")
    for gi, g in enumerate(s.atg):
        for t in g:
            src = [c for c in ec[gi] if c.__name__ == t.entry_class.__name__]
            expect(len(src) == 1 and issubclass(t.entry_class, src[0]),
                   lambda: f"tier class {t.entry_class} is not derived from the class given")
            for x in t:
                expect(isinstance(x, src[0]), "entries are instances of the class given")
                if case["rich"] and src[0] not in BUILTIN:
                    expect(x.tag == src[0].tag and x.shout() == x.label.upper(), "members of the class given")
    done = []
    for op in case["ops"]:
        tag = apply(s, op)
        stats.label("op_" + tag if tag else "not_applicable")
        if tag:
            done.append(tag)
            classes_untouched(tag)
            if other:
                same(full(other), other_before, f"{tag} on one textgrid: another one")
                wf(other, snug=True, names=True)
    if case["second"] == "after":
        other = make()
        plain = load(dict(case))
        same_snap(snap(other), snap(plain), "a textgrid loaded after another was edited")
        same([[c.__name__ for c in g] for g in other.entry_classes],
             [[c.__name__ for c in g] for g in plain.entry_classes], "its classes")
        wf(other)
    # now edit the other one, and look at the first
    first = full(s.atg)
    s2 = State.__new__(State)
    s2.case, s2.n, s2.log, s2.atg = case, 50, [], other
    for op in case["edit_second"]:
        tag = apply(s2, op)
        if tag:
            done.append(tag)
            same(full(s.atg), first, f"{tag} on the second textgrid: the first one")
            classes_untouched(tag)
    wf(s.atg, snug=False)
    stats.label("second_" + case["second"])
    stats.label("classes_" + case["classes"])
    stats.nontrivial(rich(case) and any(t in ("interleave", "pop_class", "gappend", "tappend", "concat") for t in done))


@st.composite
def containers_case(draw):
    c = draw(grid(modes=["tight"], max_groups=1, max_depth=3))
    c["extra"] = draw(st.integers(1, 3))
    return c


def check_containers(case, stats):
    """containers keep lists of their own: neither defaults nor the caller's lists change or are shared"""
    n = case["extra"]
    e1, e2 = TierGroup(), TierGroup()
    t1, t2 = SequenceTier(), SequenceTier()
    p1, p2 = PointsGroup(), PointsGroup()
    l1, l2 = SequenceList(), SequenceList()
    for i in range(n):
        e1[0].append(SequenceInterval((i, i + 1, "x")))
        t1.append(SequenceInterval((i, i + 1, "x")))
        p1[0].append(SequencePoint((i, "x")))
        l1.append(SequenceInterval((i, i + 1, "x")))
    for what, a, b in (("TierGroup()", e2[0], TierGroup()[0]), ("SequenceTier()", t2, SequenceTier()),
                       ("PointsGroup()", p2[0], PointsGroup()[0]), ("SequenceList()", l2, SequenceList())):
        same((len(a), len(b)), (0, 0), f"entries of another {what}")
    tl, ec = file_tiers(case)
    tiers = case["groups"][0]
    cl = custom_classes(NAMES[:len(tiers)])
    ivs = [[c(e) for e in to_secs(case, es)] for c, es in zip(cl, tiers)]
    given = [list(v) for v in ivs]
    ts = [SequenceTier(v, c) for v, c in zip(ivs, cl)]
    given_ts = list(ts)
    grp = TierGroup(ts)
    groups = [grp]
    atg = AlignedTextGrid(groups)
    end = float(grp.xmax)
    for i in range(n):
        s = end + i * case["scale"]
        grp[0].append(nested(grp.entry_classes, s, [], s + case["scale"], f"new{i}"))
    st_ = sorted(case["points"][0]) if case["points"] else [[0, "a"]]
    P, Q = custom_classes(["PP", "QQ"], points=[0, 1])
    pts = [SequencePointTier([P(e) for e in to_secs(case, st_)])]
    given_pts = list(pts)
    pg = PointsGroup(pts)
    pg.append(SequencePointTier([Q(e) for e in to_secs(case, st_)]))
    atg.append(pg)
    same(len(pg), 2, "tiers of the points group")
    for what, a, b in [("tiers", ts, given_ts), ("groups", groups, [grp]), ("point tiers", pts, given_pts)] + \
            [("intervals", x, y) for x, y in zip(ivs, given)]:
        expect(len(a) == len(b) and all(x is y for x, y in zip(a, b)), f"the caller's list of {what} was changed")
    stats.nontrivial(len(tiers) > 1)


PARTS = [Part("containers", containers_case, check_containers, 400, 4000, "several tiers"),
         Part("isolation", case_, check, 3000, 60000,
              "nested tiers, and an operation that changes classes or adds entries took effect")]
ASSUMPTIONS = ["the two textgrids are made from separate data (tiers or a textgrid object of their own)"]
