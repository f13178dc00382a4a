"""PoLaR textgrids: levels, turning points and ranges find each other; labels are read as documented."""
import os, tempfile
from core import Part, Violation, expect, same
from hist import *
from praatio.utilities.constants import Interval as PI

PRS = ["*", "*?", "]", "?]", "*", "?*"]
TPS = ["0", "?,120", "0,99.5", "?,88", "0", ",140"]
LEV = ["1", "2", "3", "4", "5", "3?", "?1", "5?"]
RNG = ["75-225", "100-300.5", "60.25-61", "", "oops", "90-180"]


@st.composite
def case_(draw):
    c = draw(timebase())
    hi = draw(st.integers(2, 20))
    c["hi"] = hi
    c["words"] = draw(aligned_tiers(2, 0, hi)) if draw(st.integers(0, 3)) else None
    tp = sorted(draw(st.sets(st.integers(0, hi), min_size=1, max_size=7)))
    c["tp"] = [[t, draw(st.sampled_from(TPS))] for t in tp]
    lv = []
    for t, _ in c["tp"]:
        if draw(st.integers(0, 3)):
            lv.append([t, draw(st.sampled_from(LEV))])           # with its turning point
    for t in sorted(draw(st.sets(st.integers(0, hi - 1), max_size=2))):
        lv.append([t + .5, draw(st.sampled_from(LEV))])          # with none
    c["lv"] = sorted(lv) or [[tp[0], "1"]]
    c["jitter"] = draw(st.sampled_from([0, 0, 1e-9]))
    c["rg"] = [[s, e, draw(st.sampled_from(RNG))] for s, e, _ in draw(tier_from(draw(partition(0, hi))))]
    if draw(st.booleans()):
        c["rg"] = draw(gappy(c["rg"]))
    c["extra"] = {n: draw(point_tier(0, hi)) for n in draw(st.sets(st.sampled_from(["ToBI", "Misc"])))}
    c["prs"] = None
    if draw(st.booleans()):
        c["prs"] = [[t, draw(st.sampled_from(PRS))] for t, _ in draw(point_tier(0, hi))]
    pts = ["TurningPoints", "Levels"] + sorted(c["extra"]) + (["PrStr"] if c["prs"] else [])
    c["pts"] = draw(st.permutations(pts))
    gs = (["words"] if c["words"] else []) + ["points", "ranges"]
    c["order"] = draw(st.permutations(gs))
    c["wp"] = draw(st.booleans())
    c["src"] = draw(st.sampled_from(["object", "path", "positional"]))
    if c["src"] == "path":
        c["jitter"] = 0          # the file format has no exponents
    return c


def build(case):
    tl, ec = [], []
    jit = case["jitter"]
    for g in case["order"]:
        if g == "words":
            cl = [Word, Phone] if case["wp"] else [Phone, Word]
            src = {Word: case["words"][0], Phone: case["words"][1]}
            ec.append(cl)
            tl += [(c.__name__, "int", to_secs(case, src[c])) for c in cl]
        elif g == "ranges":
            ec.append([polar.Ranges])
            tl.append(("Ranges", "int", to_secs(case, case["rg"])))
        else:
            ec.append([getattr(polar, n) for n in case["pts"]])
            for n in case["pts"]:
                es = {"TurningPoints": case["tp"], "Levels": case["lv"], "PrStr": case["prs"]}.get(n) or case["extra"][n]
                es = to_secs(case, es)
                if n == "Levels":
                    es = [(t + jit, l) for t, l in es]
                tl.append((n, "pts", es))
    tg = Textgrid()
    for name, kind, es in tl:
        tg.addTier(IntervalTier(name, [PI(*e) for e in es]) if kind == "int"
                   else PointTier(name, [Point(*e) for e in es]), reportingMode="silence")
    if case["src"] == "path":
        d = tempfile.mkdtemp(prefix="c22")
        p = os.path.join(d, "f.TextGrid")
        try:
            tg.save(p, "short_textgrid", includeBlankSpaces=True)
            return PolarGrid(textgrid_path=p, entry_classes=ec), ec
        finally:
            if os.path.exists(p):
                os.remove(p)
            os.rmdir(d)
    if case["src"] == "positional":
        return PolarGrid(tg, entry_classes=ec), ec
    return PolarGrid(textgrid=tg, entry_classes=ec), ec


def check(case, stats):
    ptg, ec = build(case)
    # structure
    same(len(ptg), len(case["order"]), "groups")
    for g, kind in zip(ptg, case["order"]):
        same(g.name, {"words": "Word_Phone", "ranges": "RangesTier", "points": "Points"}[kind], f"name of the {kind} group")
        expect(getattr(ptg, g.name) is g, f"accessor .{g.name}")
        expect(isinstance(g, PointsGroup if kind == "points" else TierGroup), "kind of group")
        for t in g:
            expect(getattr(ptg, t.entry_class.__name__) is t, lambda: f"accessor .{t.entry_class.__name__}")
            base = Word if t.entry_class.__name__ == "Word" else Phone if t.entry_class.__name__ == "Phone" \
                else getattr(polar, t.entry_class.__name__)
            expect(all(isinstance(x, base) for x in t), lambda: f"entries of the {base.__name__} tier")
    wf(ptg)
    scale, hi = case["scale"], case["hi"]
    tps, lvs = ptg.TurningPoints, ptg.Levels
    tol = 1e-4 if case["src"] == "path" else 1e-6
    same_ents(ents(tps), to_secs(case, case["tp"]), "turning points", tol)
    same_ents(ents(lvs), to_secs(case, case["lv"]), "levels", tol)
    # levels <-> turning points
    by_tick = {t: x for (t, _), x in zip(case["tp"], tps)}
    mated = 0
    for (t, lab), l in zip(case["lv"], lvs):
        want = by_tick.get(t)
        expect(l.turning_point is want, lambda: f"{nm(l)}.turning_point is {l.turning_point!r}, expected {want!r}")
        if want is not None:
            expect(want.level is l, lambda: f"{nm(want)}.level is {want.level!r}, not {nm(l)}")
            mated += 1
    has = {t for t, _ in case["lv"]}
    for (t, _), x in zip(case["tp"], tps):
        if t not in has:
            expect(x.level is None, lambda: f"{nm(x)} has no level at its time, but .level is {nm(x.level)}")
    # labels
    for (t, lab), x in zip(case["tp"], tps):
        same(x.certainty, "uncertain" if "?" in lab else "certain", f"certainty of turning point {lab!r}")
        same(x.override, lab.split(",")[1] if "," in lab else None, f"override of turning point {lab!r}")
    if case["prs"]:
        for (t, lab), x in zip(case["prs"], ptg.PrStr):
            same(x.certainty, "uncertain" if "?" in lab else "certain", f"certainty of {lab!r}")
            same(x.status, "prominence" if "*" in lab else "edge", f"status of {lab!r}")
    # ranges and bands
    want_rg = {(round(s, 4), round(e, 4)): l for s, e, l in to_secs(case, case["rg"])}
    for r in ptg.Ranges:
        lab = want_rg.pop((round(float(r.start), 4), round(float(r.end), 4)), "")
        same(r.label, lab, f"label of {nm(r)}")
        try:
            lo, hi_ = [float(v) for v in lab.split("-")]
        except ValueError:
            expect(np.isnan(r.low) and np.isnan(r.high), lambda: f"{nm(r)}: range {r.range}")
            expect(len(r.bands) == 6, "number of band edges")
            continue
        expect(float(r.low) == lo and float(r.high) == hi_ and list(r.range) == [lo, hi_], lambda: f"{nm(r)}: range {r.range}")
        expect(len(r.bands) == 6 and all(close(b, lo + k * (hi_ - lo) / 5) for k, b in enumerate(r.bands)),
               lambda: f"{nm(r)}: bands {r.bands}")
    expect(not want_rg, lambda: f"ranges lost: {want_rg}")
    inside = 0
    for (t, lab), l in zip(case["lv"], lvs):
        hit = [r for r in ptg.Ranges if r.start <= l.time < r.end]
        expect(l.ranges_tier is ptg.Ranges, "ranges tier of a level")
        expect(l.range_interval is (hit[0] if hit else None),
               lambda: f"{nm(l)}.range_interval is {l.range_interval!r}, expected {hit!r}")
        n = int(lab.replace("?", ""))
        same(l.level, n, f"level of {lab!r}")
        same(l.certainty, "uncertain" if "?" in lab else "certain", f"certainty of level {lab!r}")
        if hit:
            inside += 1
            b = hit[0].bands
            expect(len(l.band) == 2 and all((np.isnan(u) and np.isnan(v)) or close(u, v)
                                            for u, v in zip(l.band, (b[n - 1], b[n]))),
                   lambda: f"{nm(l)}.band is {l.band}, of bands {b}")
    stats.label("with_turning_point", mated > 0)
    stats.label("without_turning_point", mated < len(case["lv"]))
    stats.label("inside_a_range", inside > 0)
    stats.label("src_" + case["src"])
    stats.nontrivial(len(case["tp"]) > 1 and len(case["lv"]) > 1 and mated > 0)


PARTS = [Part("polar", case_, check, 3000, 60000, "several levels and turning points, some of them together")]
ASSUMPTIONS = ["the textgrid has levels, turning points and ranges, in groups of their kind",
               "a level and a turning point belong together when their times are equal to within rounding, and are "
               "otherwise at least half a tick (5 ms) apart"]
