"""Points: time order, neighbours, distances, nearest point and extents, over histories of edits of point tiers."""
from core import Part, Violation, expect, same
from hist import *

Q = st.integers(-6, 60)


@st.composite
def case_(draw):
    c = draw(timebase())
    n = draw(st.integers(1, 3))
    c["tiers"] = []
    for _ in range(n):
        t = draw(point_tier(0, 20))
        c["tiers"].append([t[k] for k in draw(st.permutations(list(range(len(t)))))])      # given out of order
    c["src"] = draw(st.sampled_from(["tuples", "points", "objects", "praatio"]))
    c["where"] = draw(st.sampled_from(["tiers", "group", "textgrid"]))
    op = st.one_of(
        st.tuples(st.just("append"), small, st.integers(0, 40), labels),
        st.tuples(st.just("shift"), st.integers(-5, 20)),
        st.tuples(st.just("tconcat"), small, st.lists(st.tuples(st.integers(1, 6), labels), min_size=1, max_size=3)),
        st.tuples(st.just("times"), small, st.lists(st.integers(1, 5), min_size=30, max_size=30)),
        st.tuples(st.just("relabel"), small, small, labels),
        st.tuples(st.just("move"), small, small),
        st.tuples(st.just("leap"), small, small, st.integers(0, 40)),
        st.tuples(st.just("rebuild"), small, st.booleans()),
        st.tuples(st.just("retier"), small),
        st.tuples(st.just("re_relate")))
    c["ops"] = draw(st.lists(op.map(list), max_size=5))
    c["q"] = draw(st.lists(Q, min_size=1, max_size=5))
    c["ivs"] = draw(tier_from(draw(partition(draw(st.sampled_from([0, 0, -12])), 20))))
    return c


class World:
    def __init__(self, case):
        self.case = case
        n = len(case["tiers"])
        cl = custom_classes([f"P{k}" for k in range(n)], points=list(range(n)))
        self.model = [sorted([[secs(case, t), l] for t, l in es]) for es in case["tiers"]]
        ts = []
        for es, c in zip(case["tiers"], cl):
            vals = to_secs(case, es)
            src = {"tuples": lambda: [tuple(v) for v in vals], "points": lambda: [Point(*v) for v in vals],
                   "objects": lambda: [c(v) for v in vals],
                   "praatio": lambda: PointTier(c.__name__, [Point(*v) for v in vals])}[case["src"]]()
            if case["src"] == "tuples":
                src = [Point(*v) for v in src]
            ts.append(SequencePointTier(src, c))
        self.group = self.atg = None
        if case["where"] != "tiers":
            self.group = PointsGroup(ts)
            if case["where"] == "textgrid":
                self.atg = AlignedTextGrid([self.group])
                self.group = self.atg[0]
        self.ts = ts

    @property
    def tiers(self):
        return list(self.group) if self.group is not None else self.ts

    def apply(self, op):
        k = op[0]
        sc = self.case["scale"]
        if k == "append":
            ti = op[1] % len(self.tiers)
            t, m = self.tiers[ti], self.model[ti]
            time = self.case["offset"] + (op[2] / 2 + .25) * sc
            if any(close(e[0], time) for e in m):
                return None
            t.append(t.entry_class((time, op[3])))
            m.append([time, op[3]])
            m.sort()
        elif k == "shift":
            d = op[1] * sc
            if self.atg is not None:
                self.atg.shift(d)
            elif self.group is not None:
                self.group.shift(d)
            else:
                for t in self.ts:
                    t.times = [v + d for v in t.times]
            for m in self.model:
                for e in m:
                    e[0] += d
        elif k == "tconcat":
            ti = op[1] % len(self.tiers)
            t, m = self.tiers[ti], self.model[ti]
            last, new, at_ = m[-1][0], [], 0
            for d, l in op[2]:
                at_ += d * sc
                new.append((at_, l))
            t.concat(SequencePointTier([t.entry_class(e) for e in new], t.entry_class))
            m += [[last + a, l] for a, l in new]
        elif k == "times":
            ti = op[1] % len(self.tiers)
            t, m = self.tiers[ti], self.model[ti]
            if len(m) > 30:
                return None
            at_, out = 0, []
            for d in op[2][:len(m)]:
                at_ += d * sc
                out.append(at_)
            t.times = out
            for e, v in zip(m, out):
                e[0] = v
        elif k == "relabel":
            ti = op[1] % len(self.tiers)
            i = op[2] % len(self.model[ti])
            self.tiers[ti][i].label = op[3]
            self.model[ti][i][1] = op[3]
        elif k == "move":
            ti = op[1] % len(self.tiers)
            m = self.model[ti]
            i = op[2] % len(m)
            # within its neighbours
            lo = m[i - 1][0] if i else m[i][0] - 1
            new = (lo + m[i][0]) / 2
            self.tiers[ti][i].time = new
            m[i][0] = new
        elif k == "leap":
            # past its neighbours: everything but the order follows at once, the order once the list is set again
            ti = op[1] % len(self.tiers)
            t, m = self.tiers[ti], self.model[ti]
            i = op[2] % len(m)
            new = self.case["offset"] + (op[3] / 2 + .125) * sc
            if any(close(e[0], new) for e in m):
                return None
            t[i].time = new
            m[i][0] = new
            now = [e[0] for e in m]
            same([float(x.time) for x in t], [float(v) for v in now], "times after moving a point")
            same([float(v) for v in t.times], [float(v) for v in now], "times of the tier after moving a point")
            expect(close(t.xmin, min(now)) and close(t.xmax, max(now)), lambda: f"extents after moving a point: {t.xmin} {t.xmax} of {now}")
            for x in t:
                for d, y in ((x.fol_distance, x.fol), (x.prev_distance, x.prev)):
                    expect(d is None if is_boundary(y) else close(d, y.time - x.time), lambda: f"distance from {nm(x)} to {nm(y)}: {d}")
            for q in self.case["q"]:
                at_ = self.case["offset"] + q * sc / 2
                expect(abs(t.get_nearest_point(at_).time - at_) <= min(abs(v - at_) for v in now) + 1e-9,
                       lambda: f"nearest to {at_} in {now}: {t.get_nearest_point(at_).time}")
            if self.group is not None:
                allt = [e[0] for mm in self.model for e in mm]
                expect(close(self.group.xmin, min(allt)) and close(self.group.xmax, max(allt)), "extents of the group after moving a point")
            t.sequence_list = list(t)
            m.sort()
        elif k == "rebuild":
            if self.group is not None:
                return None
            ti = op[1] % len(self.ts)
            t = self.ts[ti]
            old = list(t)
            self.ts[ti] = SequencePointTier(t) if op[2] else SequencePointTier(list(reversed(old)), t.entry_class)
        elif k == "retier":
            ti = op[1] % len(self.tiers)
            t = self.tiers[ti]
            t.sequence_list = list(reversed(list(t)))
        elif k == "re_relate":
            if self.group is None:
                return None
            self.group.re_relate()
        return k

    def check(self, tag):
        case = self.case
        iv = [SequenceInterval(e) for e in to_secs(case, case["ivs"])]
        itier = SequenceTier([SequenceInterval(e) for e in to_secs(case, case["ivs"])])
        for ti, (t, m) in enumerate(zip(self.tiers, self.model)):
            w = f"after {tag}: tier {ti}"
            same_ents(ents(t), [tuple(e) for e in m], w)
            inv_tier(t)
            chain_ok(t, w)
            xs = list(t)
            times = [e[0] for e in m]
            same([float(v) for v in t.times], [float(x.time) for x in xs], f"{w}: times")
            same(list(t.labels), [e[1] for e in m], f"{w}: labels")
            expect(close(t.xmin, min(times)) and close(t.xmax, max(times)), lambda: f"{w}: xmin {t.xmin} xmax {t.xmax}")
            for i, x in enumerate(xs):
                expect(x.start == x.time, f"{w}: start of a point")
                fd, pd = x.fol_distance, x.prev_distance
                wf_ = times[i + 1] - times[i] if i + 1 < len(xs) else None
                wp = times[i - 1] - times[i] if i else None
                for got, want, what in ((fd, wf_, "fol_distance"), (pd, wp, "prev_distance")):
                    expect(got is None if want is None else got is not None and close(got, want),
                           lambda: f"{w}: {what} of {nm(x)} is {got}, expected {want}")
                for j, y in enumerate(xs):
                    expect(close(x.distance_from(y), times[i] - times[j]), lambda: f"{w}: distance_from {nm(x)} {nm(y)}")
                for y in iv:
                    d = x.distance_from(y)
                    expect(np.shape(d) == (2,) and close(d[0], x.time - y.start) and close(d[1], x.time - y.end),
                           lambda: f"{w}: distance of {nm(x)} from {nm(y)}: {d}")
                p = x.return_point()
                expect(isinstance(p, Point) and close(p.time, times[i]) and p.label == m[i][1], f"{w}: return_point")
                hit = [k for k, y in enumerate(itier) if y.start <= x.time < y.end]
                got = x.get_interval_at_point(itier)
                expect(got is (itier[hit[0]] if hit else None), lambda: f"{w}: interval at {nm(x)}: {got!r}")
            for q in case["q"]:
                at_ = case["offset"] + q * case["scale"] / 2
                best = min(abs(v - at_) for v in times)
                i = t.get_nearest_point_index(at_)
                expect(0 <= i < len(xs) and abs(times[i] - at_) <= best + 1e-9, lambda: f"{w}: nearest to {at_} is {i}")
                expect(abs(t.get_nearest_point(at_).time - at_) <= best + 1e-9, lambda: f"{w}: nearest point to {at_}")
            pt = t.return_tier()
            same_ents([(float(a), b) for a, b in pt.entries], [(e[0], e[1].strip()) for e in m], f"{w}: return_tier") \
                if all(e[1] == e[1].strip() for e in m) else None
            same(pt.name, t.name, f"{w}: name of the exported tier")
        if self.group is not None:
            g = self.group
            allt = [e[0] for m in self.model for e in m]
            expect(close(g.xmin, min(allt)) and close(g.xmax, max(allt)), lambda: f"after {tag}: group extents {g.xmin} {g.xmax}")
            for q in case["q"]:
                at_ = case["offset"] + q * case["scale"] / 2
                for ii in (g.get_nearest_points_index(at_), g.get_intervals_at_time(at_)):
                    same(len(ii), len(self.model), "one index per tier")
                    for i, m in zip(ii, self.model):
                        expect(abs(m[i][0] - at_) <= min(abs(e[0] - at_) for e in m) + 1e-9,
                               lambda: f"after {tag}: group: nearest to {at_} in {m} is {i}")
            same([t.entry_class for t in g], list(g.entry_classes), "entry classes of the group")
        if self.atg is not None:
            wf(self.atg)
            expect(close(self.atg.xmin, min(allt)) and close(self.atg.xmax, max(allt)), "extents of the textgrid")


def check(case, stats):
    w = World(case)
    w.check("building")
    done = 0
    for op in case["ops"]:
        tag = w.apply(op)
        if tag:
            done += 1
            stats.label("op_" + tag)
            w.check(tag)
    stats.label("where_" + case["where"])
    stats.nontrivial(done > 0 and any(len(m) > 2 for m in w.model))


PARTS = [Part("points", case_, check, 3000, 60000, "an edit was made and a tier has more than two points")]
ASSUMPTIONS = ["points of a tier have distinct times", "of equally near points either may be called the nearest"]
