"""Containers are ordered sequences, and every summary of one (times, labels, extents, classes) agrees with its members."""
from core import Part, Violation, expect, same
from hist import *


def raises(call, *excs):
    try:
        call()
    except excs:
        return True
    return False


def seq_ok(c, xs, what, index=True, negative=True):
    """c is a sequence of exactly the objects xs, however it is read"""
    n = len(xs)
    ident = lambda a: [id(v) for v in a]
    same(len(c), n, f"{what}: len")
    same(ident(list(c)), ident(xs), f"{what}: iteration")
    same(ident([c[i] for i in range(n)]), ident(xs), f"{what}: indexing")
    if negative:
        same(ident([c[i - n] for i in range(n)]), ident(xs), f"{what}: negative indices")
    expect(raises(lambda: c[n], IndexError), lambda: f"{what}: index {n} of {n}")
    # two readers at once, and one that stops early
    if n <= 8:
        same([(id(a), id(b)) for a in c for b in c], [(id(a), id(b)) for a in xs for b in xs], f"{what}: nested iteration")
    it = iter(c)
    if n:
        next(it)
    same(ident(list(c)), ident(xs), f"{what}: iteration beside another one")
    same(ident(list(it)), ident(xs[1:]), f"{what}: resumed iteration")
    for i, x in enumerate(xs):
        expect(x in c, lambda: f"{what}: member {i} not in it")
        if index:
            same(c.index(x), i, f"{what}: index of member {i}")


def check_tier(t, what):
    xs = [t[i] for i in range(len(t))]
    seq_ok(t, xs, what)
    seq_ok(t.sequence_list, xs, f"{what}: sequence list")
    same([id(x) for x in t[1:3]], [id(x) for x in xs[1:3]], f"{what}: slice")
    same([id(x) for x in reversed(t)], [id(x) for x in reversed(xs)], f"{what}: reversed")
    expect(t.first is xs[0] and t.last is xs[-1], f"{what}: first and last")
    same(list(t.labels), [x.label for x in xs], f"{what}: labels")
    if isinstance(t, SequenceTier):
        st_, en = [float(x.start) for x in xs], [float(x.end) for x in xs]
        same([float(v) for v in t.starts], st_, f"{what}: starts")
        same([float(v) for v in t.ends], en, f"{what}: ends")
        same([float(v) for v in t.sequence_list.ends], en, f"{what}: ends of the sequence list")
        expect(t.xmin == min(st_) and t.xmax == max(en), f"{what}: extents")
        expect(t.entry_class((1000, 1001, "no such")) not in t, f"{what}: holds a stranger")
    else:
        st_ = [float(x.time) for x in xs]
        same([float(v) for v in t.times], st_, f"{what}: times")
        expect(t.xmin == min(st_) and t.xmax == max(st_), f"{what}: extents")
        expect(t.entry_class((1000, "no such")) not in t, f"{what}: holds a stranger")
    same([float(v) for v in t.sequence_list.starts], st_, f"{what}: starts of the sequence list")
    same(list(t.sequence_list.labels), [x.label for x in xs], f"{what}: labels of the sequence list")
    for x in xs:
        p = x.return_praatio()
        if isinstance(x, SequencePoint):
            expect(isinstance(p, Point) and tuple(p) == (x.time, x.label), lambda: f"{nm(x)} as {p}")
            continue
        expect(isinstance(p, Interval) and tuple(p) == (x.start, x.end, x.label), lambda: f"{nm(x)} as {p}")
        expect(close(x.duration, x.end - x.start, 1e-12), lambda: f"duration of {nm(x)}: {x.duration}")
        kids = [x.subset_list[i] for i in range(len(x.subset_list))]
        seq_ok(x, kids, nm(x))
        iter(x)
        same([id(next(x)) for _ in kids], [id(k) for k in kids], f"{nm(x)}: next")
        expect(raises(lambda: next(x), StopIteration), lambda: f"{nm(x)}: next after the last")
        same([float(v) for v in x.sub_starts], [float(k.start) for k in kids], f"{nm(x)}: sub_starts")
        same([float(v) for v in x.sub_ends], [float(k.end) for k in kids], f"{nm(x)}: sub_ends")
        same(list(x.sub_labels), [k.label for k in kids], f"{nm(x)}: sub_labels")
        if kids:
            expect(x.first is kids[0] and x.last is kids[-1], lambda: f"{nm(x)}: first and last")
        else:
            expect(raises(lambda: x.first, IndexError) and raises(lambda: x.last, IndexError),
                   lambda: f"{nm(x)} has no subset, but a first or last")
        if isinstance(x, Word):
            same([id(k) for k in x.phone_list], [id(k) for k in kids], f"{nm(x)}: phone_list")
            same(list(x.phones), [k.label for k in kids], f"{nm(x)}: phones")
        if isinstance(x, Phone):
            expect(x.inword is x.super_instance, lambda: f"{nm(x)}: inword")


def check_all(atg):
    gs = [atg[i] for i in range(len(atg))]
    seq_ok(atg, gs, "textgrid")
    for gi, g in enumerate(gs):
        ts = [g[i] for i in range(len(g))]
        seq_ok(g, ts, f"group {gi}")
        for ti, t in enumerate(ts):
            check_tier(t, f"group {gi} tier {ti}")
        same(list(g.entry_classes), [t.entry_class for t in ts], f"group {gi}: entry classes")
        same(list(g.tier_names), [t.name for t in ts], f"group {gi}: tier names")
        expect(g.xmin == min(t.xmin for t in ts) and g.xmax == max(t.xmax for t in ts), f"group {gi}: extents")
        same([id(x) for x in g[[0] * len(g)]], [id(t[0]) for t in ts], f"group {gi}: first of every tier")
        same([id(x) for x in g[[-1] * len(g)]], [id(t[-1]) for t in ts], f"group {gi}: last of every tier")
        mixed = [(5 + 3 * ti) % len(t) - (len(t) if ti % 2 else 0) for ti, t in enumerate(ts)]
        same([id(x) for x in g[mixed]], [id(t[i]) for i, t in zip(mixed, ts)], f"group {gi}: at {mixed}")
        for ti, t in enumerate(ts):
            for i in (len(t), -len(t) - 1):
                expect(raises(lambda: g[mixed[:ti] + [i] + mixed[ti + 1:]], IndexError),
                       lambda: f"group {gi}: index {i} of {len(t)} in tier {ti}")
    same([list(c) for c in atg.entry_classes], [[t.entry_class for t in g] for g in gs], "entry classes of the textgrid")
    same([list(c) for c in atg.tier_names], [[t.name for t in g] for g in gs], "tier names of the textgrid")
    expect(atg.xmin == min(g.xmin for g in gs) and atg.xmax == max(g.xmax for g in gs), "extents of the textgrid")
    by_name = {}
    for g in gs:
        for t in g:
            by_name.setdefault(t.entry_class.__name__, set()).add(t.entry_class)
    for n, cs in by_name.items():
        if len(cs) == 1:
            expect(atg.get_class_by_name(n) is next(iter(cs)), f"class named {n}")
    expect(atg.get_class_by_name("Nowhere") is None, "class that is not there")


def tuples(atg):
    """the containers accept tuples of tiers and lists of lists as index"""
    idx = [[0] * len(g) for g in atg]
    same([[id(x) for x in row] for row in atg[idx]], [[id(t[0]) for t in g] for g in atg], "textgrid indexed by a list")
    idx = [gi % len(g) for gi, g in enumerate(atg)]
    same([id(t) for t in atg[idx]], [id(g[i]) for i, g in zip(idx, atg)], "textgrid indexed by a list of tiers")


@st.composite
def case_(draw):
    c = draw(maybe_raw(max_size=4))
    c["set"] = draw(st.lists(st.tuples(small, small, st.integers(1, 6), st.sampled_from(["starts", "ends", "each", "long", "early"])).map(list),
                             max_size=2))
    return c


def check(case, stats):
    def after(s, tag):
        check_all(s.atg)
        tuples(s.atg)
    s, done = run_history(case, stats, after)
    # times written through a tier or an entry are the ones read back everywhere
    for a, b, f, how in case["set"]:
        g = s.atg[a % len(s.atg)]
        t = g[b % len(g)]
        d = f * case["scale"] / 2
        arr = [np.array, list, tuple][f % 3]
        if how in ("long", "early"):
            # one entry reaches past all others: extents are those of the furthest, not of the first or last
            x = t[(b + f) % len(t)]
            old = (x.time,) if isinstance(x, SequencePoint) else (x.start, x.end)
            far = s.atg.xmax + d if how == "long" else s.atg.xmin - d
            if isinstance(x, SequencePoint):
                x.time = far
            elif how == "long":
                x.end = far
            else:
                x.start = far
            stats.label("set_" + how)
            check_all(s.atg)
            expect((s.atg.xmax if how == "long" else s.atg.xmin) == far, "extent of the textgrid")
            if isinstance(x, SequencePoint):
                x.time, = old
            else:
                x.start, x.end = old
            continue
        if isinstance(t, SequencePointTier):
            want = [float(x.time) + d for x in t]
            if how == "each":
                for x, v in zip(t, want):
                    x.time = v
            else:
                t.times = arr(want)
            same([float(x.time) for x in t], want, "times set through the tier")
        else:
            ws, we = [float(x.start) + d for x in t], [float(x.end) + d for x in t]
            if how == "each":
                for x, u, v in zip(t, ws, we):
                    x.start, x.end = u, v
            else:
                t.starts, t.ends = arr(ws), arr(we)
            same([(float(x.start), float(x.end)) for x in t], list(zip(ws, we)), "times set through the tier")
        stats.label("set_" + how)
        check_all(s.atg)
    stats.nontrivial(rich(case) and bool(done))


PARTS = [Part("containers", case_, check, 3000, 60000, "a hierarchy of several intervals and an operation took effect")]
ASSUMPTIONS = ["entries that agree in times and label are one entry"]
