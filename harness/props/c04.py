"""Precedence: fol / prev chains with boundaries, tier-wise navigation."""
from core import Part, Violation, expect, same
from hist import *
from relations import rel_case, RelWorld


def tierwise(t):
    xs = list(t)
    for i, x in enumerate(xs):
        expect(x.intier is t, lambda: f"{nm(x)}.intier is not its tier")
        same(x.tier_index, i, f"{nm(x)}.tier_index")
        expect(x.get_tierwise() is x, "get_tierwise(0)")
        for d in (-2, -1, 1, 2):
            if 0 <= i + d < len(xs):
                expect(x.get_tierwise(d) is xs[i + d], lambda: f"{nm(x)}.get_tierwise({d})")
        for d, where in ((len(xs) - i, "past the end"), (-i - 1, "before the start")):
            try:
                y = x.get_tierwise(d)
            except IndexError:
                continue
            raise Violation(f"{nm(x)}.get_tierwise({d}), {where} of the tier, gives {nm(y)}")


def check_history(case, stats):
    def after(s, tag):
        for g in s.atg:
            for t in g:
                inv_tier(t)
                tierwise(t)
            inv_precedence(g)
    s, done = run_history(case, stats, after)
    stats.nontrivial(rich(case) and done)


def check_load(case, stats):
    atg = load(case)
    stats.label("mode_" + case["mode"])
    for g in atg:
        for t in g:
            inv_tier(t)
            tierwise(t)
        inv_precedence(g)
    stats.nontrivial(rich(case))


def check_rel(case, stats):
    w = RelWorld(case)
    for op in case["ops"]:
        tag = w.apply(op)
        stats.label(tag or "op_not_applicable")
        w.check_precedence(tag)
    stats.nontrivial(w.moves > 1)


@st.composite
def tier_case(draw):
    """a free-standing tier of intervals or points, built from unordered entries, then appended to"""
    n = draw(st.integers(1, 8))
    order = draw(st.permutations(list(range(n))))
    return dict(points=draw(st.booleans()), order=order, first=draw(st.integers(0, n)),
                raw=draw(st.booleans()), scale=draw(st.sampled_from(SCALES)),
                cls=draw(st.sampled_from(["base", "top", "middle", "bottom", "Phone"])),
                ops=draw(st.lists(st.tuples(st.sampled_from(["pop", "right", "left", "out"]), st.integers(0, 9)).map(list), max_size=4)))


def check_tier(case, stats):
    sc = case["scale"]
    if case["points"]:
        mk = lambda i: (i * sc, f"p{i}")
        cls, T = SequencePoint, SequencePointTier
    else:
        mk = lambda i: (i * sc, (i + 1) * sc, f"i{i}")
        A, B, C = custom_classes(["A", "B", "C"])
        cls = dict(base=SequenceInterval, top=A, middle=B, bottom=C, Phone=Phone)[case.get("cls", "base")]
        T = SequenceTier
    first, rest = case["order"][:case["first"]], case["order"][case["first"]:]
    if case["raw"]:
        P = Point if case["points"] else Interval
        tier = T([P(*mk(i)) for i in first], cls)
    else:
        tier = T([cls(mk(i)) for i in first], cls)
    have = list(first)
    for i in [None] + rest:
        if i is not None:
            tier.append(cls(mk(i)))
            have.append(i)
        same(list(tier.labels), [mk(k)[-1] for k in sorted(have)], "labels of the tier")
        inv_tier(tier)
        tierwise(tier)
        chain_ok(list(tier), "tier")
    for op, i in [] if case["points"] else case.get("ops", []):
        if len(tier) < 2:
            break
        xs = list(tier)
        i %= len(xs)
        if op == "pop":
            gone = i
            tier.pop(xs[i])
        elif op == "out":
            gone = i
            tier.sequence_list = xs[:i] + xs[i + 1:]
        else:
            if i == (len(xs) - 1 if op == "right" else 0):
                continue
            gone = i + 1 if op == "right" else i - 1
            (xs[i].fuse_rightwards if op == "right" else xs[i].fuse_leftwards)(label_fun=lambda a, b: a + b)
        expect(len(tier) == len(xs) - 1 and all(a is b for a, b in zip(tier, xs[:gone] + xs[gone + 1:])),
               lambda: f"{op} {i}: {list(tier)} from {xs}")
        inv_tier(tier)
        tierwise(tier)
        chain_ok(list(tier), f"tier after {op}")
        stats.label(op)
    stats.label("points" if case["points"] else "intervals")
    stats.nontrivial(list(case["order"]) != sorted(case["order"]) and len(rest) > 0)


PARTS = [
    Part("load", lambda: grid(max_groups=3, max_depth=4), check_load, 3000, 60000,
         "a group has more than one tier and some tier more than one interval"),
    Part("history", lambda: history(), check_history, 3000, 60000,
         "as for load, and at least one operation took effect"),
    Part("relations", rel_case, check_rel, 3000, 60000, "at least two changes of superset"),
    Part("tier", tier_case, check_tier, 2000, 40000,
         "entries come in an order that is not time order, some of them by append"),
]
ASSUMPTIONS = ["no label is the boundary label '#'", "entries of a tier are distinct and intervals do not overlap"]
