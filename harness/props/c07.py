"""Time lookup: the entry found at a time is the one that contains it."""
from core import Part, expect, same
from hist import *


def oracle(tier, t):
    """index of the interval with start <= t < end, by linear search"""
    hit = [i for i, x in enumerate(tier) if x.start <= t < x.end]
    return hit[0] if len(hit) == 1 else None if not hit else hit


def nearest_ok(tier, idx, t):
    d = [abs(p.time - t) for p in tier]
    return 0 <= idx < len(tier) and d[int(idx)] <= min(d) + 1e-12


def is_index(i):
    return isinstance(i, (int, np.integer)) and not isinstance(i, bool)


@st.composite
def case_(draw):
    c = draw(maybe_raw(max_size=3))
    # query times: half ticks, so boundaries, insides and outsides are all hit
    c["q"] = draw(st.lists(st.integers(-4, 60), min_size=1, max_size=8))
    return c


def check(case, stats):
    s, done = run_history(case, stats, lambda s, t: None)
    atg = s.atg
    bounds = sorted({float(v) for g in igroups(atg) for t in g for x in t for v in (x.start, x.end)})
    times = [case["offset"] + q * case["scale"] / 2 for q in case["q"]]
    times += [bounds[q % len(bounds)] for q in case["q"] if bounds]        # exactly on a boundary
    hits = 0
    for t in times:
        got = atg.get_intervals_at_time(t)
        same(len(got), len(atg), "one list per group")
        for g, idxs in zip(atg, got):
            same(len(idxs), len(g), "one index per tier")
            for tier, i in zip(g, idxs):
                if isinstance(tier, SequenceTier):
                    want = oracle(tier, t)
                    expect(i is None if want is None else is_index(i) and i == want,
                           lambda: f"at {t} tier {ents(tier)}: index {i!r}, expected {want!r}")
                    same(tier.get_interval_at_time(t), want, "get_interval_at_time")
                    hits += want is not None
                    p = SequencePoint((t, "p"))
                    same(p.get_interval_index_at_time(tier), want, "point.get_interval_index_at_time")
                    at_ = p.get_interval_at_point(tier)
                    expect(at_ is (None if want is None else tier[want]), "point.get_interval_at_point")
                else:
                    expect(nearest_ok(tier, i, t), lambda: f"nearest to {t} in {ents(tier)}: {i!r}")
                    expect(nearest_ok(tier, tier.get_nearest_point_index(t), t), "get_nearest_point_index")
                    np_ = tier.get_nearest_point(t)
                    expect(is_in(np_, tier) and abs(np_.time - t) <= min(abs(x.time - t) for x in tier) + 1e-12,
                           lambda: f"get_nearest_point({t}) in {ents(tier)}: {nm(np_)}")
            if isinstance(g, TierGroup):
                same(g.get_intervals_at_time(t), idxs, "group lookup")
                if all(i is not None for i in idxs):
                    picked = g[list(idxs)]
                    expect(all(a is t_[i] for a, t_, i in zip(picked, g, idxs)), "list indexing of a group")
                    for up, lo in zip(picked, picked[1:]):
                        if up.start <= lo.start and lo.end <= up.end:
                            expect(lo.super_instance is up,
                                   lambda: f"at {t}: {nm(lo)} lies in {nm(up)}, super_instance {nm(lo.super_instance)}")
        if all(i is not None for ii in got for i in ii):
            nested_ = atg[[list(ii) if isinstance(g, TierGroup) else [int(i) for i in ii] for g, ii in zip(atg, got)]]
            same(len(nested_), len(atg), "list indexing of a textgrid")
            for g, ii, out in zip(atg, got, nested_):
                expect(len(out) == len(g) and all(a is t_[int(i)] for a, t_, i in zip(out, g, ii)),
                       "list indexing of a textgrid")
    stats.label("hit", hits > 0)
    stats.nontrivial(rich(case) and hits > 0)


@st.composite
def tier_case(draw):
    c = draw(timebase())
    hi = draw(st.integers(1, 24))
    c["tier"] = draw(gappy(draw(tier_from(draw(partition(0, hi, max_cuts=12))))))
    c["q"] = draw(st.lists(st.integers(-2, 98), min_size=1, max_size=10))
    return c


def check_tier(case, stats):
    tier = SequenceTier([Interval(*e) for e in to_secs(case, case["tier"])])
    none = hits = 0
    times = [case["offset"] + q * case["scale"] / 4 for q in case["q"]]
    times += [float(v) for x in tier for v in (x.start, x.end)]
    times += [float(np.nextafter(v, d)) for x in tier for v in (x.start, x.end) for d in (-1e9, 1e9)]
    for t in times:
        want = oracle(tier, t)
        got = tier.get_interval_at_time(t)
        expect(got is None if want is None else is_index(got) and got == want,
               lambda: f"at {t} tier {ents(tier)}: index {got!r}, expected {want!r}")
        hits += want is not None
        none += want is None
    stats.label("hits", hits > 0)
    stats.label("misses", none > 0)
    stats.nontrivial(hits > 0 and none > 0 and len(tier) > 1)


PARTS = [Part("history", case_, check, 3000, 60000, "nested tiers of several intervals, some query inside an interval"),
         Part("tier", tier_case, check_tier, 3000, 60000, "several intervals, queries inside and outside of them")]
ASSUMPTIONS = ["intervals of a tier do not overlap", "equally near points may come in either order"]
