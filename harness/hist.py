"""Histories: a generated textgrid and a list of operations on it, all plain data.
apply() interprets one operation through the public API; indices are taken modulo what is there."""
from sut import *
import random
from hypothesis import strategies as st
from model import *
from gens import *

PREFIX = ["Part", "Seg", "Segment", "PartSegment", "S", "Segmentation"]
MODES = ["tight", "tight", "gap", "ext", "mis", "wild"]


@st.composite
def group_tiers(draw, mode, depth, hi, max_cuts=5):
    lo = 0
    if mode in ("ext", "wild"):
        hi = draw(st.integers(1, max(24, hi)))
        lo = draw(st.integers(0, hi - 1))
    tiers = draw(aligned_tiers(depth, lo, hi, max_cuts))
    if mode in ("gap", "ext"):
        tiers = [draw(gappy(t)) for t in tiers]
    elif mode == "mis":
        tiers = [tiers[0]] + [draw(tier_from(draw(partition(lo, hi, None, max_cuts)))) for _ in tiers[1:]]
    elif mode == "wild":
        out = []
        for _ in tiers:
            h = draw(st.integers(1, hi))
            l = draw(st.integers(0, h - 1))
            out.append(draw(gappy(draw(tier_from(draw(partition(l, h, None, max_cuts)))))))
        tiers = out
    return tiers


def long_tiers(rng, mode, depth, n):
    """tiers of n and more intervals; from a seed, since drawing each boundary would take long"""
    def part(lo, hi, within=()):
        return sorted({lo, hi} | set(within) | set(rng.sample(range(lo + 1, hi), min(n, hi - lo - 1))))

    def tier(b):
        return [[s, e, rng.choice(LABELS)] for s, e in zip(b, b[1:])]

    hi, tiers, b = 6 * n, [], []
    for _ in range(depth):
        if mode in ("mis", "wild"):
            b = part(rng.randint(0, n) * (mode == "wild"), hi - rng.randint(0, n) * (mode == "wild"))
        else:
            b = part(0, hi, b)
        t = tier(b)
        if mode not in ("tight", "mis"):
            t = [e for e in t if rng.random() > .1] or t
        tiers.append(t)
    return tiers


@st.composite
def grid(draw, modes=MODES, max_groups=3, max_depth=3, points=True, min_depth=1, layout=True):
    """{'scale','offset','mode','groups':[tiers in hierarchical order],'perm':[file order of each
    group's tiers],'points':[point tiers],
    'layout': [style of tier names, place of the first group of points, number of its tiers]}"""
    c = draw(timebase())
    c["mode"] = draw(st.sampled_from(modes))
    if draw(st.integers(0, 11)) == 7:            # now and then a wider or deeper one
        max_groups, max_depth = max_groups + 1, max_depth + 2
    ng = draw(st.integers(1, max_groups))
    big = draw(st.integers(0, 15)) == 9          # now and then a longer one
    hi = draw(st.integers(40, 90)) if big else draw(st.integers(2, 24))
    c["groups"], c["perm"] = [], []
    for gi in range(ng):
        depth = draw(st.integers(min_depth, max_depth))
        c["groups"].append(draw(group_tiers(c["mode"], depth, hi, 25 if big and gi == 0 else 5)))
        c["perm"].append(draw(st.permutations(list(range(depth)))))
    if draw(st.integers(0, 79)) == 37:           # and rarely one as long as a recording
        rng = random.Random(draw(st.integers(0, 9999)))
        c["groups"][0] = long_tiers(rng, c["mode"], min(3, len(c["groups"][0])), rng.randint(30, 60))
        c["perm"][0] = list(range(len(c["groups"][0])))
        if c["mode"] in ("tight", "mis"):
            hi = max(t[-1][1] for t in c["groups"][0])
            for g in c["groups"][1:]:
                for t in g:
                    t[-1][1] = hi
    c["points"] = draw(st.lists(point_tier(), max_size=3)) if points else []
    # "own": classes per group; "shared": one hierarchy, of which each group has the upper part;
    # "wp": the same with the built-in Word and Phone
    # "clash": hierarchies of their own, with some class names in common
    # "prefix": the same with names of which some begin with, or hold, others
    kinds = ["own", "shared", "prefix"] + (["clash"] if ng > 1 else []) + (["wp"] if max(len(t) for t in c["groups"]) <= 2 else [])
    c["classes"] = draw(st.sampled_from(kinds))
    if layout:
        c["layout"] = draw(st.one_of(st.none(), st.tuples(st.integers(0, 2), st.integers(0, 4), st.integers(0, 2)).map(list)))
    c["spare"] = draw(st.integers(0, 3)) == 3    # the hierarchy has one more class below, of which there is no tier
    return c


def class_names(case):
    if case["classes"] == "own":
        return [[f"G{gi}{NAMES[k]}" for k in range(len(t))] for gi, t in enumerate(case["groups"])]
    if case["classes"] == "clash":
        return [(NAMES + NAMES)[gi:gi + len(t)] for gi, t in enumerate(case["groups"])]
    full = {"wp": ["Word", "Phone"], "prefix": PREFIX}.get(case["classes"], NAMES)
    return [full[:len(t)] for t in case["groups"]]


def gname(gi):
    return ["spkA", "Zoë", "otherC", "lastD"][gi]


def make_classes(case):
    """the entry classes of each group, top first"""
    names = class_names(case)
    spare = case.get("spare", False)
    depth = [len(t) for t in case["groups"]]
    if case["classes"] in ("own", "clash"):
        return [custom_classes(names[gi] + [f"Spare{gi}"] * spare)[:n] for gi, n in enumerate(depth)]
    full = PREFIX if case["classes"] == "prefix" else NAMES
    shared = [Word, Phone] if case["classes"] == "wp" else custom_classes(full[:max(depth)] + ["Spare"] * spare)
    return [shared[:n] for n in depth]


def tname(case, gi, k):
    style = (case.get("layout") or [0])[0]
    if style == 1:                               # no speaker: groups have no name in common with their tiers
        return f"{NAMES[k]}" if gi == 0 else f"{NAMES[k]} ({gi})"
    return f"{gname(gi)} - {NAMES[k]}" if style == 0 else f"Zoë {gi + 1}. {NAMES[k].lower()}-tier"


def file_tiers(case):
    """tiers in file order, and entry classes in the same order"""
    parts = []
    for gi, (tiers, cl) in enumerate(zip(case["groups"], make_classes(case))):
        perm = case["perm"][gi]
        parts.append(([(tname(case, gi, k), "int", tiers[k]) for k in perm], [cl[k] for k in perm]))
    if case["points"]:
        n = len(case["points"])
        pc = custom_classes([f"P{k}" for k in range(n)], points=list(range(n)))
        pt = [(f"events - P{k}", "pts", t) for k, t in enumerate(case["points"])]
        _, at_, first = case.get("layout") or [0, len(parts), n]
        cut = first if 0 < first < n else n      # tiers of the first of at most two groups of points
        parts.insert(min(at_, len(parts)), (pt[:cut], pc[:cut]))
        if cut < n:
            parts.append((pt[cut:], pc[cut:]))
    return [t for tl, _ in parts for t in tl], [ec for _, ec in parts]


def load(case):
    tl, ec = file_tiers(case)
    return AlignedTextGrid(make_tg(case, tl), ec)


def load_raw(case):
    """put together from groups, without cleaning up: lower intervals may lie outside of all upper ones"""
    groups = [TierGroup([SequenceTier([Interval(*e) for e in to_secs(case, t)], c) for t, c in zip(tiers, cl)])
              for tiers, cl in zip(case["groups"], make_classes(case))]
    for k, t in enumerate(case["points"]):
        c = custom_classes(f"P{k}", points=[0])
        groups.append(PointsGroup([SequencePointTier([c(e) for e in to_secs(case, t)], c)]))
    for i, g in enumerate(groups):
        g.name = f"raw{i}"
    return AlignedTextGrid(groups)


# ---------------------------------------------------------------- operations
small = st.integers(0, 30)
OPS = dict(
    fuse=st.tuples(st.just("fuse"), small, small, small, st.booleans()),
    shift=st.tuples(st.just("shift"), st.integers(-5, 30)),
    cleanup=st.tuples(st.just("cleanup")),
    re_relate=st.tuples(st.just("re_relate"), small),
    relabel=st.tuples(st.just("relabel"), small, small, small, st.one_of(labels, labels, st.sampled_from([" a", "b ", "\ta", " "]))),
    tappend=st.tuples(st.just("tappend"), small, st.integers(0, 3), st.integers(1, 6),
                      st.lists(st.integers(1, 5), max_size=3), labels),
    sub_append=st.tuples(st.just("sub_append"), small, small, labels),
    concat=st.tuples(st.just("concat"), small, st.lists(st.tuples(st.integers(1, 4), labels), min_size=1, max_size=3)),
    gappend=st.tuples(st.just("gappend"), st.integers(1, 2), st.integers(0, 6), st.integers(1, 8)),
    interleave=st.tuples(st.just("interleave"), small, small, st.booleans(), st.booleans(), st.booleans()),
    pop_class=st.tuples(st.just("pop_class"), small, small),
    pickle=st.tuples(st.just("pickle")),
    padd=st.tuples(st.just("padd"), small, small, labels),
    twin=st.tuples(st.just("twin"), small),
    deepen=st.tuples(st.just("deepen"), small, st.booleans(), labels),
    ptier=st.tuples(st.just("ptier"), st.lists(small, min_size=1, max_size=3, unique=True), labels),
    nudge=st.tuples(st.just("nudge"), small, small, small, st.booleans()),
    gshift=st.tuples(st.just("gshift"), small, st.integers(-5, 12)),
    rename=st.tuples(st.just("rename"), small, small, st.booleans()),
    remake=st.tuples(st.just("remake"), st.integers(0, 3), small),
    regroup=st.tuples(st.just("regroup"), st.sampled_from(["reverse", "drop", "rotate"]), small),
    pmove=st.tuples(st.just("pmove"), small, small, small, st.booleans()),
    pconcat=st.tuples(st.just("pconcat"), small, st.lists(st.integers(1, 9), min_size=1, max_size=3, unique=True), labels),
    orphan=st.tuples(st.just("orphan"), small, small, st.integers(0, 3), st.integers(1, 4), labels),
    uappend=st.tuples(st.just("uappend"), small, small, st.integers(0, 2), labels),
    bpop=st.tuples(st.just("bpop"), small, small),
    gsame=st.tuples(st.just("gsame"), small, small, st.integers(0, 6), st.lists(st.integers(1, 4), min_size=1, max_size=3)),
)


def ops(names, max_size=6):
    return st.lists(st.one_of([OPS[n] for n in names]).map(list), min_size=1, max_size=max_size)


class State:
    def __init__(self, case):
        self.case = case
        self.atg = load_raw(case) if case.get("raw") else load(case)
        self.n = 0          # fresh class names
        self.log = []


def igroups(atg):
    return [g for g in atg if isinstance(g, TierGroup)]


def ambiguous(atg, cl):
    """another class of the textgrid has the same name, so that a name does not say which is meant"""
    return any(c is not cl and c.__name__ == cl.__name__ for g in atg for c in g.entry_classes)


def filled(g):
    """every interval of the upper tiers has a subset list that fills it"""
    return all(len(x.subset_list) and x.validate() for t in list(g)[:-1] for x in t) and \
        all(close(a.end, b.start) for t in g for a, b in zip(list(t), list(t)[1:]))


def nested(classes, start, cuts, end, label):
    """an interval of classes[0] over [start,end], with snug descendants cut at cuts"""
    top = classes[0]((start, end, label))
    if len(classes) > 1:
        b = [start] + cuts + [end]
        for i, (s, e) in enumerate(zip(b, b[1:])):
            top.append(nested(classes[1:], s, [], e, f"{label}{i}"))
    return top


def apply(st_, op):
    """Applies one operation; returns a short tag, or None when it does not apply here."""
    atg, case = st_.atg, st_.case
    k = op[0]
    gs = igroups(atg)
    sc = case["scale"]
    if k == "fuse":
        if not gs:
            return None
        g = gs[op[1] % len(gs)]
        t = g[op[2] % len(g)]
        x = t[op[3] % len(t)]
        nb = x.fol if op[4] else x.prev
        if nb.label == "#":
            return None
        x.fuse_rightwards() if op[4] else x.fuse_leftwards()
        return "fuse"
    if k == "shift":
        atg.shift(op[1] * sc)
        return "shift"
    if k == "cleanup":
        atg.cleanup()
        return "cleanup"
    if k == "re_relate":
        if not gs:
            return None
        gs[op[1] % len(gs)].re_relate()
        return "re_relate"
    if k == "relabel":
        g = atg[op[1] % len(atg)]
        t = g[op[2] % len(g)]
        x = t[op[3] % len(t)]
        x.label = op[4]
        return "relabel"
    if k == "tappend":
        if not gs:
            return None
        g = gs[op[1] % len(gs)]
        start = float(g.xmax) + op[2] * sc
        end = start + op[3] * sc
        cuts = sorted({start + c * sc for c in op[4] if c < op[3]})
        g[0].append(nested(g.entry_classes, start, cuts, end, op[5] or "n"))
        return "tappend"
    if k == "sub_append":
        cand = [g for g in gs if len(g) > 1]
        if not cand:
            return None
        g = cand[op[1] % len(cand)]
        # extend the last top interval by a new child at its end
        top = g[0].last
        start = float(g.xmax)
        new = nested(g.entry_classes[1:], start, [], start + 2 * sc, op[3] or "s")
        top.end = start + 2 * sc
        top.append(new)
        return "sub_append"
    if k == "concat":
        if not gs:
            return None
        g = gs[op[1] % len(gs)]
        cl = g.entry_classes
        b, s = [], 0.0
        for d, l in op[2]:
            b.append((s, s + d * sc, l))
            s += d * sc
        other = TierGroup([SequenceTier([c(e) for e in b], c) for c in cl])
        g.concat(other)
        return "concat"
    if k == "gappend":
        st_.n += 1
        cl = custom_classes([f"N{st_.n}{NAMES[i]}" for i in range(op[1])])
        s = case["offset"] + op[2] * sc
        grp = TierGroup([SequenceTier([c((s, s + op[3] * sc, "q"))], c) for c in cl])
        grp.name = f"new{st_.n}"
        atg.append(grp)
        return "gappend"
    if k == "gsame":
        # one more group of the classes of an existing one (or of the upper part of them)
        if not gs or len(atg) > 6:
            return None
        g = gs[op[1] % len(gs)]
        cl = g.entry_classes[:1 + op[2] % len(g)]
        st_.n += 1
        b, s = [], case["offset"] + op[3] * sc
        for i, d in enumerate(op[4]):
            b.append((s, s + d * sc, f"g{i}"))
            s += d * sc
        grp = TierGroup([SequenceTier([c(e) for e in b], c) for c in cl])
        grp.name = f"same{st_.n}"
        atg.append(grp)
        got = atg[-1]
        expect(len(got) == len(cl) and all(a is c for a, c in zip(got.entry_classes, cl)),
               lambda: f"appended group of {[c.__name__ for c in cl]} has other classes: {got.entry_classes}")
        for t in got:
            same_ents(ents(t), [tuple(map(float, e[:2])) + e[2:] for e in b], "tier of an appended group")
        return "gsame"
    if k == "twin":
        # a group with the very entries (and classes) of another: two speakers annotated alike
        if not gs or len(atg) > 6:
            return None
        g = gs[op[1] % len(gs)]
        st_.n += 1
        grp = TierGroup([SequenceTier([t.entry_class((x.start, x.end, x.label)) for x in t], t.entry_class) for t in g])
        grp.name = f"twin{st_.n}"
        atg.append(grp)
        if filled(g):
            same_snap([snap(atg)[-1]], [[ents(t) for t in g]], "an appended copy of a group")
        return "twin"
    if k == "deepen":
        # one more tier below, of the next class of the hierarchy
        cand = [g for g in gs if not issubclass(g.entry_classes[-1].subset_class, Bottom)]
        if not cand:
            return None
        g = cand[op[1] % len(cand)]
        cl, src = g.entry_classes[-1].subset_class, g[-1]
        es = [(x.start, x.end, op[3] if op[2] else x.label) for x in src]
        tight = filled(g)
        g.append(SequenceTier([cl(e) for e in es], cl))
        expect(g.entry_classes[-1] is cl, lambda: f"lowest class after a tier was appended: {g.entry_classes}")
        if tight:
            same_ents(ents(g[-1]), [tuple(map(float, e[:2])) + e[2:] for e in es], "an appended tier")
        return "deepen"
    if k == "ptier":
        ps = [g for g in atg if isinstance(g, PointsGroup) and len(g) < 5]
        if not ps:
            return None
        g = ps[0]
        st_.n += 1
        cl = custom_classes(f"Q{st_.n}", points=[0])
        es = sorted((case["offset"] + t * sc, op[2]) for t in op[1])
        n = len(g)
        g.append(SequencePointTier([cl(e) for e in es], cl))
        same(len(g), n + 1, "number of point tiers after one was appended")
        same_ents(ents(g[-1]), es, "an appended point tier")
        return "ptier"
    if k == "nudge":
        # moves a boundary in all the tiers of a group that have it
        if not gs:
            return None
        g = gs[op[1] % len(gs)]
        t = g[op[2] % len(g)]
        if len(t) < 2:
            return None
        i = op[3] % (len(t) - 1)
        at_ = t[i].end
        if not close(at_, t[i + 1].start):
            return None
        lefts = [x for u in g for x in u if close(x.end, at_)]
        rights = [x for u in g for x in u if close(x.start, at_)]
        if len(lefts) != len(rights) or any(x.start < at_ < x.end and not is_in(x, lefts + rights) for u in list(g)[g.index(t):] for x in u):
            return None
        new = (at_ + min(x.end for x in rights)) / 2 if op[4] else (at_ + max(x.start for x in lefts)) / 2
        for x in lefts:
            x.end = new
        for x in rights:
            x.start = new
        return "nudge"
    if k == "interleave":
        if not gs:
            return None
        g = gs[op[1] % len(gs)]
        i = op[2] % len(g)
        above, from_above = op[3], op[4]
        # timing has to come from a tier that is there
        if above and from_above and i == 0:
            from_above = False
        if not above and not from_above and i == len(g) - 1:
            from_above = True
        timing = i - 1 if (above and from_above) else i + 1 if (not above and not from_above) else i
        need, spec = g.entry_classes[timing], g.entry_classes[i]
        if any(spec in h.entry_classes and need not in h.entry_classes for h in gs):
            return None
        if ambiguous(atg, spec):
            return None
        st_.n += 1
        kw = {"above" if above else "below": g.entry_classes[i].__name__}
        atg.interleave_class(name=f"I{st_.n}", timing_from="above" if from_above else "below",
                             copy_labels=op[5], **kw)
        return "interleave"
    if k == "pop_class":
        cand = [g for g in gs if len(g) > 1]
        if not cand:
            return None
        g = cand[op[1] % len(cand)]
        atg.pop_class(g.entry_classes[op[2] % len(g)].__name__)
        return "pop_class"
    if k == "pickle":
        st_.atg = cloudpickle.loads(cloudpickle.dumps(atg))
        return "pickle"
    if k == "padd":
        ps = [g for g in atg if isinstance(g, PointsGroup)]
        if not ps:
            return None
        g = ps[op[1] % len(ps)]
        t = g[op[1] % len(g)]
        time = case["offset"] + (op[2] + .5) * sc
        if any(close(p.time, time) for p in t):
            return None
        t.append(t.entry_class((time, op[3])))
        return "padd"
    if k in ("orphan", "uappend"):
        cand = [g for g in gs if len(g) > 1]
        if not cand:
            return None
        g = cand[op[1] % len(cand)]
        i = 1 + op[2] % (len(g) - 1)
        start = float(g.xmax) + op[3] * sc
        if k == "orphan":
            # an interval of a lower tier with nothing above it, which cleaning up then puts there
            end = start + op[4] * sc
            x = g[i].entry_class((start, end, op[5]))
            g[i].append(x)
            expect(is_in(x, g[i]), "appended interval")
            g.cleanup()
        else:
            # an interval that brings along those above and below it
            end = start + 2 * sc
            top = nested(g.entry_classes, start, [], end, op[4])
            x = top
            for _ in range(i):
                x = x[0]
            g[i].append(x)
            y = top
            for t in g:
                expect(t.last is y, lambda: f"{nm(x)} was appended with {nm(y)}, but {t.name} ends in {nm(t.last)}")
                y = y[0] if len(y) else None
        for t in g:
            expect(close(t.last.end, end), lambda: f"{k}: {t.name} ends at {t.last.end}, not at {end}")
        return k
    ps = [g for g in atg if isinstance(g, PointsGroup)]
    if k == "gshift":
        atg[op[1] % len(atg)].shift(op[2] * sc)
        return k
    if k == "rename":
        st_.n += 1
        g = atg[op[1] % len(atg)]
        if op[3]:
            g.name = f"named{st_.n}"
            atg.tier_groups = list(atg)          # accessors are made when groups are set
        else:
            g[op[2] % len(g)].name = f"tier named {st_.n}"
        return k
    if k == "remake":
        # a textgrid, group or tier made anew from the parts of the present one
        before, tight = snap(atg), all(filled(g) for g in gs)
        names = [(g.name, [t.name for t in g]) for g in atg]
        if op[1] == 0:
            st_.atg = AlignedTextGrid([g for g in atg])
        elif op[1] == 1:
            st_.atg = AlignedTextGrid()
            for g in list(atg):
                st_.atg.append(g)
        elif op[1] == 2:
            atg.tier_groups = [type(g)(list(g)) for g in atg]
        else:
            g = atg[op[2] % len(atg)]
            st_.atg = AlignedTextGrid([type(h)([type(t)(t) for t in h]) if h is g else h for h in atg])
        if tight:
            same_snap(snap(st_.atg), before, "remade textgrid")
        if op[1] < 2:
            same([(g.name, [t.name for t in g]) for g in st_.atg], names, "names in the remade textgrid")
        return k
    if k == "regroup":
        gl = list(atg)
        if len(gl) < 2:
            return None
        i = op[2] % len(gl)
        new = gl[::-1] if op[1] == "reverse" else gl[:i] + gl[i + 1:] if op[1] == "drop" else gl[i:] + gl[:i]
        atg.tier_groups = new
        expect(len(atg) == len(new) and all(a is b for a, b in zip(atg, new)), "tier groups that were set")
        return k
    if k == "pmove":
        # moves a point without passing another one
        if not ps:
            return None
        g = ps[op[1] % len(ps)]
        t = g[op[2] % len(g)]
        i = op[3] % len(t)
        lo = t[i - 1].time if i else t[0].time - 2 * sc
        hi = t[i + 1].time if i + 1 < len(t) else t[i].time + 2 * sc
        t[i].time = (t[i].time + (hi if op[4] else lo)) / 2
        return k
    if k == "pconcat":
        if not ps:
            return None
        g = ps[op[1] % len(ps)]
        g.concat(PointsGroup([SequencePointTier([t.entry_class((d * sc, op[3])) for d in sorted(op[2])], t.entry_class) for t in g]))
        return k
    if k == "bpop":
        # an entry of the lowest tier is taken out
        if not gs:
            return None
        t = gs[op[1] % len(gs)][-1]
        if len(t) < 2:
            return None
        x = t[op[2] % len(t)]
        t.pop(x)
        expect(not is_in(x, t), "entry that was taken out is still there")
        return k
    raise ValueError(op)


ALL_OPS = list(OPS)


@st.composite
def history(draw, names=None, modes=MODES, max_size=6, **kw):
    c = draw(grid(modes=modes, **kw))
    names = names or ALL_OPS
    if draw(st.booleans()):            # few kinds of operations, and more of them, so that they meet more often
        few = draw(st.lists(st.sampled_from(names), min_size=1, max_size=4, unique=True))
        c["ops"] = draw(ops(few, max_size + 4))
    else:
        c["ops"] = draw(ops(names, max_size))
    return c


@st.composite
def maybe_raw(draw, *a, **kw):
    """a history, or now and then a textgrid put together without cleaning up"""
    c = draw(history(*a, **kw))
    if draw(st.integers(0, 4)) == 2:
        c.update(raw=True, ops=[])
    return c


def run_history(case, stats, after, start=None):
    """Builds the textgrid, applies the operations, and calls after(state, tag) at every step."""
    s = State(case)
    stats.label("mode_" + case["mode"] + ("_raw" if case.get("raw") else ""))
    stats.label("classes_" + case["classes"])
    (start or after)(s, "load")
    done = []
    for op in case["ops"]:
        tag = apply(s, op)
        if tag is None:
            stats.label("op_not_applicable")
            continue
        stats.label("op_" + tag)
        done.append(tag)
        after(s, tag)
    return s, done


def rich(case):
    """non-trivial textgrid: some interval below another, and more than one interval in a tier"""
    return any(len(t) > 1 for t in case["groups"]) and any(len(x) > 1 for g in case["groups"] for x in g)
