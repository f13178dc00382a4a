"""validate() says whether the subset intervals exactly fill their superset."""
from core import Part, expect, same
from hist import *


@st.composite
def case_(draw):
    c = draw(timebase())
    hi = draw(st.integers(2, 20))
    b = draw(partition(0, hi, max_cuts=6))
    c["sub"] = [[s, e] for s, e in zip(b, b[1:])]
    c["sup"] = [0, hi]
    # what is wrong with it: any combination of changes, often none
    c["changes"] = draw(st.lists(st.tuples(
        st.sampled_from(["sup_start", "sup_end", "sub_start", "sub_end", "drop"]), st.integers(0, 10),
        st.sampled_from([-2, -1, 1, 2])).map(list), max_size=3))
    c["unit"] = draw(st.sampled_from([0.25, 0.5, 1.0]))
    c["order"] = draw(st.randoms(use_true_random=False)).random()
    c["how"] = draw(st.sampled_from(["set", "append", "super"]))
    return c


def check(case, stats):
    sup, sub = list(map(float, case["sup"])), [list(map(float, s)) for s in case["sub"]]
    for what, i, d in case["changes"]:
        d *= case["unit"]
        if what == "sup_start":
            sup[0] += d
        elif what == "sup_end":
            sup[1] += d
        elif what == "drop":
            if len(sub) > 1:
                sub.pop(i % len(sub))
        else:
            sub[i % len(sub)][0 if what == "sub_start" else 1] += d
    if sup[0] >= sup[1] or any(s >= e for s, e in sub):
        return
    sub.sort()
    if any(a[0] == b[0] for a, b in zip(sub, sub[1:])):
        return
    U, L = custom_classes(["Up", "Lo"])
    u = U((secs(case, sup[0]), secs(case, sup[1]), "u"))
    same(u.validate(), True, "validate() with no subset list")
    ls = [L((secs(case, s), secs(case, e), f"l{i}")) for i, (s, e) in enumerate(sub)]
    import random
    mixed = list(ls)
    random.Random(case["order"]).shuffle(mixed)
    if case["how"] == "set":
        u.set_subset_list(mixed)
    else:
        for l in mixed:
            u.append(l) if case["how"] == "append" else l.set_super_instance(u)
    snug = sub[0][0] == sup[0] and sub[-1][1] == sup[1] and all(a[1] == b[0] for a, b in zip(sub, sub[1:]))
    before = (u.start, u.end, [(x.start, x.end, x.label) for x in u.subset_list])
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        got = u.validate()
    expect(got is snug, lambda: f"validate() of {sup} over {sub} is {got}, expected {snug}")
    same(len(w) > 0, not snug, f"validate() of {sup} over {sub} warns")
    same((u.start, u.end, [(x.start, x.end, x.label) for x in u.subset_list]), before, "validate() changed the interval")
    same([x.label for x in u.subset_list], [x.label for x in ls], "subset list in time order")
    stats.label("snug" if snug else "not_snug")
    stats.label("first_late", sub[0][0] > sup[0])
    stats.label("first_early", sub[0][0] < sup[0])
    stats.label("last_early", sub[-1][1] < sup[1])
    stats.label("last_late", sub[-1][1] > sup[1])
    stats.label("gap", any(a[1] < b[0] for a, b in zip(sub, sub[1:])))
    stats.label("overlap", any(a[1] > b[0] for a, b in zip(sub, sub[1:])))
    stats.nontrivial(len(sub) > 1)


@st.composite
def clean_case(draw):
    c = draw(case_())
    c["changes"] = [x for x in c["changes"] if x[0] in ("drop",)] + \
        draw(st.lists(st.tuples(st.sampled_from(["sup_start", "sup_end"]), st.just(0),
                                st.integers(1, 3)).map(list), max_size=2))
    return c


def check_clean(case, stats):
    """cleanup of one interval fills exactly the holes in its subset list"""
    hi = case["sup"][1]
    sup = [0.0, float(hi)]
    sub = [[float(s), float(e), f"l{i}"] for i, (s, e) in enumerate(case["sub"])]
    for what, i, d in case["changes"]:
        if what == "drop":
            sub.pop(i % len(sub)) if sub else None
        elif what == "sup_start":
            sup[0] -= d
        else:
            sup[1] += d
    U, L = custom_classes(["Up", "Lo"])
    u = U((secs(case, sup[0]), secs(case, sup[1]), "u"))
    for s, e, l in sub:
        u.append(L((secs(case, s), secs(case, e), l)))
    u.cleanup()
    # model: holes become blank intervals
    want, t = [], sup[0]
    for s, e, l in sub:
        if s > t:
            want.append((secs(case, t), secs(case, s), ""))
        want.append((secs(case, s), secs(case, e), l))
        t = e
    if t < sup[1]:
        want.append((secs(case, t), secs(case, sup[1]), ""))
    same_ents([(x.start, x.end, x.label) for x in u.subset_list], want, "subset list after cleanup of the interval")
    same((u.start, u.end, u.label), (secs(case, sup[0]), secs(case, sup[1]), "u"), "interval after its cleanup")
    same(u.validate(), True, "validate() after cleanup of the interval")
    chain_ok(u.subset_list, "subset list after cleanup")
    for x in u.subset_list:
        expect(x.super_instance is u, "superset of a filler")
    stats.label("filled", len(want) > len(sub))
    stats.nontrivial(len(want) > len(sub))


@st.composite
def chain_case(draw):
    c = draw(timebase())
    c["depth"] = draw(st.integers(1, 6))
    c["at"] = draw(st.integers(0, 5))
    c["span"] = sorted(draw(st.lists(st.integers(-5, 40), min_size=2, max_size=2, unique=True)))
    c["label"] = draw(labels)
    c["times"] = draw(st.integers(1, 2))
    return c


def check_chain(case, stats):
    """cleanup of an interval with nothing below it fills in every level down to the lowest"""
    d = case["depth"]
    cl = custom_classes((NAMES + ["Omega"])[:d])
    cl = cl if isinstance(cl, list) else [cl]
    at = case["at"] % d
    s, e = (secs(case, t) for t in case["span"])
    x = cl[at]((s, e, case["label"]))
    for _ in range(case["times"]):
        x.cleanup()
    same((x.start, x.end, x.label), (s, e, case["label"]), "interval after its cleanup")
    for c in cl[at + 1:]:
        same(len(x), 1, f"number of intervals of class {c.__name__}")
        y = x.subset_list[0]
        expect(type(y) is c and y.super_instance is x, lambda: f"class and superset of {nm(y)}")
        same((y.start, y.end, y.label), (s, e, ""), f"interval of class {c.__name__}")
        same(x.validate(), True, "validate() after cleanup")
        chain_ok([y], "filled in")
        x = y
    same(len(x), 0, "below the lowest class")
    stats.nontrivial(d - at > 2)


PARTS = [Part("validate", case_, check, 4000, 80000, "at least two subset intervals"),
         Part("fill", clean_case, check_clean, 2000, 40000, "at least one filler was added"),
         Part("chain", chain_case, check_chain, 500, 10000, "at least two levels were filled in")]
ASSUMPTIONS = ["mismatches are far above the library's comparison tolerance (1e-5 of the time value)"]
