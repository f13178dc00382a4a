"""Shifting translates every time by the increment and changes nothing else."""
from core import Part, expect, same
from hist import *


@st.composite
def case_(draw):
    c = draw(maybe_raw(max_size=3))
    c["ties"] = draw(st.lists(st.tuples(small, small, labels).map(list), max_size=2))   # a second point at the same time
    c["shifts"] = draw(st.lists(st.tuples(
        st.one_of(st.just("all"), st.integers(0, 4)), st.integers(-30, 30),
        st.sampled_from(["int", "float", "np", "half", "tiny"])).map(list), min_size=1, max_size=4))
    return c


def shape(atg):
    """everything but times: labels, identities, relations, ids"""
    return [[[(id(x), x.label, x.id, id(getattr(x, "super_instance", None)),
               [id(y) for y in getattr(x, "subset_list", [])],
               id(x.fol) if not is_boundary(x.fol) else None, id(x.prev) if not is_boundary(x.prev) else None)
              for x in t] for t in g] for g in atg]


def moved(es, d):
    return [tuple(v + d for v in e[:-1]) + (e[-1],) for e in es]


def check(case, stats):
    s, _ = run_history(case, stats, lambda s, t: None)
    atg = s.atg
    if len(atg) == 0:
        return
    pts = [t for g in atg if isinstance(g, PointsGroup) for t in g]
    for a, b, l in case["ties"] if pts else []:
        t = pts[a % len(pts)]
        t.append(t.entry_class((t[b % len(t)].time, l + "'")))
        stats.label("tied_points")
    keep = [x for g in atg for t in g for x in t]
    total = 0
    for sel, d, kind in case["shifts"]:
        d = d if kind == "int" else (d + .5) * case["scale"] if kind == "half" else d * case["scale"]
        d = np.float64(d) if kind == "np" else d * 1e-4 if kind == "tiny" else d
        before, sh = snap(atg), shape(atg)
        gaps = [[[float(x.duration) for x in t] if isinstance(t, SequenceTier) else
                 [x.fol_distance for x in t] for t in g] for g in atg]
        if sel == "all":
            atg.shift(d)
            hit = list(range(len(atg)))
        else:
            hit = [sel % len(atg)]
            atg[hit[0]].shift(d)
        want = [[moved(t, d) if gi in hit else t for t in g] for gi, g in enumerate(before)]
        same_snap(snap(atg), want, f"shift of {sel} by {d}", 1e-9)
        same(shape(atg), sh, f"shift of {sel} by {d}: labels, order or relations")
        for gi, g in enumerate(atg):
            for ti, t in enumerate(g):
                es = want[gi][ti]
                expect(close(t.xmin, es[0][0]) and close(t.xmax, es[-1][-2]), "tier extents after shift")
                if isinstance(t, SequenceTier):
                    expect(all(close(a, b[0]) for a, b in zip(t.starts, es)), "tier starts after shift")
                    expect(all(close(a, b[1]) for a, b in zip(t.ends, es)), "tier ends after shift")
                    now = [float(x.duration) for x in t]
                else:
                    expect(all(close(a, b[0]) for a, b in zip(t.times, es)), "tier times after shift")
                    now = [x.fol_distance for x in t]
                expect(all(a is None and b is None or close(a, b) for a, b in zip(now, gaps[gi][ti])),
                       "durations / distances after shift")
            expect(close(g.xmin, min(es[0][0] for es in want[gi])), "group xmin after shift")
            expect(close(g.xmax, max(es[-1][-2] for es in want[gi])), "group xmax after shift")
        expect(close(atg.xmin, min(es[0][0] for g in want for es in g)), "textgrid xmin after shift")
        expect(close(atg.xmax, max(es[-1][-2] for g in want for es in g)), "textgrid xmax after shift")
        # undo and redo
        tgt = atg if sel == "all" else atg[hit[0]]
        tgt.shift(-d)
        same_snap(snap(atg), before, f"shift of {sel} by {d} and back", 1e-9)
        tgt.shift(d)
        total += d != 0
        stats.label("all" if sel == "all" else "group")
    stats.nontrivial(total > 0 and rich(case))


PARTS = [Part("shift", case_, check, 4000, 80000,
              "a shift other than zero, of nested tiers with several intervals")]
ASSUMPTIONS = ["times are compared to 1e-9 s"]
