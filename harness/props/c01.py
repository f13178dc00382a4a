"""Loading fidelity: nested, gap-free textgrids come out exactly as they went in."""
from core import Part, expect, same
from hist import *
import tempfile, os, pathlib, shutil


def parents_by_time(atg):
    """on nested tiers the superset is the interval of the tier above that covers the entry"""
    for g in igroups(atg):
        for up, lo in zip(list(g), list(g)[1:]):
            for x in lo:
                cover = [u for u in up if u.start <= x.start + TOL and x.end <= u.end + TOL]
                expect(len(cover) == 1 and x.super_instance is cover[0],
                       lambda: f"{nm(x)}.super_instance is {nm(x.super_instance)}, covered by {[nm(c) for c in cover]}")


def tg_entries(tg):
    return [(t.name, type(t).__name__, [tuple(e) for e in t.entries]) for t in tg.tiers]


@st.composite
def load_case(draw):
    c = draw(timebase())
    if draw(st.integers(0, 5)) == 3:          # an excerpt from late in a long recording
        c.update(scale=draw(st.sampled_from([0.0004, 0.005, 0.05])), offset=draw(st.sampled_from([60.25, 1234.5, 7200.0])))
    c["classes_as"] = draw(st.sampled_from(["nested", "nested_tuple", "flat", "hierarchywise", "default"]))
    ng = draw(st.integers(1, 3))
    hi = draw(st.integers(1, 24))
    depth = draw(st.integers(1, 4))
    c["groups"], c["perm"] = [], []
    for _ in range(ng):
        d = depth if c["classes_as"] == "flat" else draw(st.integers(1, 4))
        if c["classes_as"] == "default":
            d = 1
        c["groups"].append(draw(aligned_tiers(d, 0, hi)))
        c["perm"].append(draw(st.permutations(list(range(d)))))
    if c["classes_as"] == "flat":
        c["perm"] = [c["perm"][0]] * ng
    c["interleave"] = draw(st.randoms(use_true_random=False)).random()
    c["shared"] = draw(st.booleans())         # one hierarchy for several groups of the same depth
    c["clash"] = draw(st.booleans())          # hierarchies of their own with class names in common
    c["wp"] = depth == 2 and draw(st.booleans())
    c["source"] = draw(st.sampled_from(["object", "object", "str", "Path", "kw"]))
    c["format"] = draw(st.sampled_from(["long_textgrid", "short_textgrid", "textgrid_json", "json"]))
    c["points"] = draw(st.lists(st.tuples(point_tier(), st.booleans()).map(list), max_size=2)) \
        if c["classes_as"].startswith("nested") else []
    return c


def check(case, stats):
    mode = case["classes_as"]
    if case["source"] != "object":
        # reading a file pads interval tiers to the extent of the file: keep points inside the intervals
        hi = case["groups"][0][0][-1][1]
        pts = [[[p for p in pt if p[0] <= hi], j] for pt, j in case["points"]]
        case = dict(case, points=[x for x in pts if x[0]])
    groups, perms = case["groups"], case["perm"]
    own = lambda gi, n: (NAMES + NAMES)[gi:gi + n] if case["clash"] else [f"G{gi}{NAMES[k]}" for k in range(n)]
    tiers, ec = [], []
    exp = []                       # expected groups: list of (kind, [(name, class name, entries)])
    if mode in ("nested", "nested_tuple"):
        for gi, (g, perm) in enumerate(zip(groups, perms)):
            names = own(gi, len(g))
            cl = custom_classes(names)
            ec.append([cl[k] for k in perm])
            for k in perm:
                tiers.append((f"{gname(gi)} - {NAMES[k]}", "int", g[k]))
            exp.append(("int", [(f"{gname(gi)} - {NAMES[k]}", names[k], g[k]) for k in range(len(g))]))
        for pi, (pt, joined) in enumerate(case["points"]):
            pc = custom_classes(f"P{pi}", points=[0])
            name = f"pt{pi}"
            if joined and pi == 0:      # a point tier listed together with the last group's interval tiers
                ec[-1].append(pc)
            else:
                ec.append([pc])
            exp.append(("pts", [(name, f"P{pi}", pt)]))
            tiers.append((name, "pts", pt))
        if mode == "nested_tuple":
            ec = [tuple(e) for e in ec]
    elif mode == "flat":
        d = len(groups[0])
        perm = perms[0]
        cl = [Word, Phone] if case["wp"] and d == 2 else custom_classes(NAMES[:d])
        ec = [cl[k] for k in perm]
        for gi, g in enumerate(groups):
            for k in perm:
                tiers.append((f"{gname(gi)} - {NAMES[k]}", "int", g[k]))
            exp.append(("int", [(f"{gname(gi)} - {NAMES[k]}", cl[k].__name__, g[k]) for k in range(d)]))
    elif mode == "hierarchywise":
        # one flat list of all classes, tiers of different hierarchies mixed: groups follow the classes
        items, rep, cls = [], {}, {}
        for gi, g in enumerate(groups):
            rep[gi] = next((h for h in range(gi) if len(groups[h]) == len(g)), gi) if case.get("shared") else gi
            names = own(rep[gi], len(g))
            cl = cls.setdefault(rep[gi], custom_classes(names))
            items += [(gi, k, cl[k], names[k]) for k in range(len(g))]
        import random
        random.Random(case["interleave"]).shuffle(items)
        # a hierarchy given several times: the nth tier of each of its classes makes up the nth group
        seen = {}
        for i, (gi, k, c, n) in enumerate(items):
            seen.setdefault((rep[gi], k), []).append(i)
        for (r, k), at in seen.items():
            gis = sorted((gi for gi in rep if rep[gi] == r), key=lambda gi: next(
                j for j, it in enumerate(items) if it[0] == gi and it[1] == 0)) if k else []
            for i, gi in zip(at, gis):
                items[i] = (gi, *items[i][1:])
        if len(groups) == 1:       # a single hierarchy given flat: same thing
            pass
        for gi, k, c, n in items:
            tiers.append((f"{gname(gi)} - {NAMES[k]}", "int", groups[gi][k]))
            ec.append(c)
        order = list(dict.fromkeys(gi for gi, k, c, n in sorted(
            (it for it in items if it[1] == 0), key=items.index)))
        for gi in order:
            exp.append(("int", [(f"{gname(gi)} - {NAMES[k]}", own(rep[gi], len(groups[gi]))[k], groups[gi][k])
                                for k in range(len(groups[gi]))]))
    else:
        ec = None
        for gi, g in enumerate(groups):
            tiers.append((f"{gname(gi)}", "int", g[0]))
            exp.append(("int", [(f"{gname(gi)}", "SequenceInterval", g[0])]))

    tg = make_tg(case, tiers)
    before = tg_entries(tg)
    kw = {} if ec is None else dict(entry_classes=ec)
    if case["source"] == "object":
        atg = AlignedTextGrid(tg, **kw)
        same(tg_entries(tg), before, "loading changed the given Textgrid object")
        want = {n: to_secs(case, es) for n, _, es in tiers}
        tol = 0
    else:
        d = tempfile.mkdtemp(prefix="vtg")
        try:
            p = os.path.join(d, "in.TextGrid")
            tg.save(p, format=case["format"], includeBlankSpaces=True)
            src = {"str": p, "Path": pathlib.Path(p), "kw": None}[case["source"]]
            atg = AlignedTextGrid(textgrid_path=p, **kw) if src is None else AlignedTextGrid(src, **kw)
        finally:
            shutil.rmtree(d)
        want = {n: to_secs(case, es) for n, _, es in tiers}
        tol = 1e-6
    stats.label("classes_" + mode)
    stats.label("source_" + case["source"])
    same(len(atg), len(exp), "number of groups")
    for g, (kind, ts) in zip(atg, exp):
        expect(isinstance(g, TierGroup if kind == "int" else PointsGroup), f"{g!r} should hold {kind} tiers")
        same([t.name for t in g], [n for n, _, _ in ts], "tier names, top of hierarchy first")
        same([t.entry_class.__name__ for t in g], [c for _, c, _ in ts], "entry classes, top of hierarchy first")
        for t, (n, _, _) in zip(g, ts):
            same_ents(ents(t), want[n], f"tier {n}", tol)
            same(list(t.labels), [e[-1] for e in want[n]], f"labels of {n}")
            times = [e[0] for e in want[n]]
            expect(close(t.xmin, times[0]), "tier xmin")
            expect(close(t.xmax, want[n][-1][-2]), "tier xmax")
            if kind == "int":
                expect(all(close(a, b[0]) for a, b in zip(t.starts, want[n])) and
                       all(close(a, b[1]) for a, b in zip(t.ends, want[n])), "tier starts / ends")
            else:
                expect(all(close(a, b[0]) for a, b in zip(t.times, want[n])), "tier times")
        expect(close(g.xmin, min(want[n][0][0] for n, _, _ in ts)), "group xmin")
        expect(close(g.xmax, max(want[n][-1][-2] for n, _, _ in ts)), "group xmax")
    same([list(n) for n in atg.tier_names] if mode != "x" else
         [[t.name for t in g] for g in atg], [[n for n, _, _ in ts] for _, ts in exp], "tier_names")
    expect(close(atg.xmin, min(w[0][0] for w in want.values())), "textgrid xmin")
    expect(close(atg.xmax, max(w[-1][-2] for w in want.values())), "textgrid xmax")
    parents_by_time(atg)
    wf(atg, names=True)
    stats.nontrivial(any(len(t) > 1 for g in groups for t in g) and (len(groups) > 1 or len(groups[0]) > 1))


PARTS = [Part("load", load_case, check, 6000, 120000,
              "some tier has several intervals and there are several tiers")]
ASSUMPTIONS = ["tiers of a group are nested and gap-free (others: C05, C06)",
               "files are written by praatio; times in files are non-negative, labels have no outer whitespace"]
