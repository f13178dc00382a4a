"""The data frame of an object has exactly its entries, with their values and relations, in order."""
from core import Part, Violation, expect, same
from hist import *
import hist


def pos(x):
    t = x.intier
    return None if t is None else positions(x, list(t))[0]


def vals(x):
    d = dict(id=x.id, tier_index=pos(x), label=x.label, start=float(x.start))
    if isinstance(x, SequenceInterval):
        d["end"] = float(x.end)
    return d


def flat_row(x):
    return dict(vals(x), entry_class=type(x).__name__)


def nested_rows(x):
    """one row per lowest descendant, with the values of everything above it"""
    if isinstance(x, SequencePoint):
        return [flat_row(x)]
    me = {f"{type(x).__name__}_{k}": v for k, v in vals(x).items()}
    kids = list(x.subset_list)
    if not kids:
        return [me]
    return [dict(me, **r) for y in kids for r in nested_rows(y)]


def rows_of(obj, sub):
    if isinstance(obj, (SequenceInterval, SequencePoint)):
        return nested_rows(obj) if sub else [flat_row(obj)]
    if isinstance(obj, (SequenceTier, SequencePointTier)):
        return [r for x in obj for r in rows_of(x, sub)]
    if isinstance(obj, TierGroup):
        rows = rows_of(obj[0], True) if sub else [r for t in obj for r in rows_of(t, False)]
        return [dict(r, name=obj.name) for r in rows]
    if isinstance(obj, PointsGroup):
        return [dict(r, name=obj.name) for t in obj for r in rows_of(t, sub)]
    return [r for g in obj for r in rows_of(g, sub)]


def compare(obj, sub, what):
    df = to_df(obj, with_subset=sub)
    expect(isinstance(df, pl.DataFrame), lambda: f"{what}: not a data frame but {type(df)}")
    want = rows_of(obj, sub)
    cols = {k for r in want for k in r}
    same(sorted(df.columns), sorted(cols), f"{what} (with_subset={sub}): columns")
    got = df.to_dicts()
    same(len(got), len(want), f"{what} (with_subset={sub}): rows")
    for g, w in zip(got, want):
        for c in cols:
            a, b = g[c], w.get(c)
            ok = (a is None) == (b is None) and (close(a, b, 1e-9) if isinstance(b, float) and a is not None else a == b)
            expect(ok, lambda: f"{what} (with_subset={sub}): column {c} is {a!r}, expected {b!r}, in row {g}, wanted {w}")
    return df


@st.composite
def case_(draw):
    c = draw(history(max_size=3))
    if draw(st.booleans()):
        c["ops"] = []
    c["ints"] = draw(st.booleans())       # some times are integers, as in hand-written entries
    return c


def check(case, stats):
    def nothing(s, tag):
        pass
    s, done = run_history(case, stats, nothing)
    atg = s.atg
    if case["ints"]:
        for g in atg:
            for t in g:
                for x in t:
                    if isinstance(x, SequencePoint):
                        if float(x.time).is_integer():
                            x.time = int(x.time)
                    else:
                        if float(x.start).is_integer():
                            x.start = int(x.start)
                        if float(x.end).is_integer():
                            x.end = int(x.end)
    before = snap(atg)
    for sub in (True, False):
        compare(atg, sub, "textgrid")
        for gi, g in enumerate(atg):
            compare(g, sub, f"group {gi}")
            for ti, t in enumerate(g):
                compare(t, sub, f"group {gi} tier {ti}")
            for t in g:
                for x in (t.first, t.last):
                    compare(x, sub, nm(x))
    df = to_df(atg)
    same(to_df(atg, True).to_dicts(), df.to_dicts(), "default of with_subset")
    same(snap(atg), before, "making a data frame changed the textgrid")
    stats.label("points", bool(case["points"]))
    stats.label("edited", bool(done))
    stats.nontrivial(rich(case))


@st.composite
def free_case(draw):
    c = draw(timebase())
    if draw(st.booleans()):
        c["offset"] = 0
        c["scale"] = draw(st.sampled_from([1, 1, 2, 0.5]))     # integer times
    d = draw(st.integers(1, 3))
    c["depth"] = d
    c["tiers"] = draw(aligned_tiers(d))
    c["bare"] = draw(st.lists(st.booleans(), min_size=8, max_size=8))     # intervals left without a subset list
    c["wrap"] = draw(st.sampled_from(["none", "tier", "group"]))
    c["bad"] = draw(st.sampled_from([None, "x", 3, [], {}]))
    return c


def check_free(case, stats):
    """free-standing intervals, tiers and groups, some intervals with an empty subset list"""
    cl = custom_classes(NAMES[:case["depth"]])
    tiers = [to_secs(case, t) for t in case["tiers"]]
    objs = [[c(e) for e in es] for c, es in zip(cl, tiers)]
    k = 0
    for up, lo in zip(objs, objs[1:]):
        for x in up:
            k += 1
            if case["bare"][k % 8]:
                continue
            for y in lo:
                if x.start <= y.start and y.end <= x.end:
                    x.append(y)
    if case["wrap"] == "none":
        for x in objs[0]:
            for sub in (True, False):
                compare(x, sub, nm(x))
    elif case["wrap"] == "tier":
        t = SequenceTier(objs[0], cl[0])
        for sub in (True, False):
            compare(t, sub, "tier")
    else:
        g = TierGroup([SequenceTier(o, c) for o, c in zip(objs, cl)])
        for sub in (True, False):
            compare(g, sub, "group")
    try:
        to_df(case["bad"])
    except ValueError:
        pass
    else:
        raise Violation(f"to_df({case['bad']!r}) did not raise ValueError")
    stats.label(case["wrap"])
    stats.nontrivial(case["depth"] > 1 and len(tiers[-1]) > 1)


PARTS = [Part("textgrids", case_, check, 1600, 40000, "a hierarchy of at least two tiers and more than one interval in a tier"),
         Part("free", free_case, check_free, 1600, 30000, "a hierarchy with more than one lowest interval")]
ASSUMPTIONS = ["class names in one textgrid do not make two columns of the same name"]
