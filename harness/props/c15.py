"""Addressing: paths, ids and named accessors lead to the object they name, after any history; names persist."""
from core import Part, expect, same
from hist import *


@st.composite
def case_(draw):
    c = draw(history())
    c["rename"] = draw(st.lists(st.sampled_from(["speaker_one", "KY25A", "x1", "same", "same", "Chloé"]), max_size=3))
    c["tier_rename"] = draw(st.lists(st.sampled_from(["myTier", "w", "another one"]), max_size=2))
    return c


def names_of(atg):
    return [(g.name, [t.name for t in g]) for g in atg]


def accessors(atg):
    gn = [g.name for g in atg]
    for g in atg:
        for t in g:
            expect(getattr(g, t.entry_class.__name__) is t, lambda: f"group accessor .{t.entry_class.__name__}")
        same([c.__name__ for c in g.entry_classes], [t.entry_class.__name__ for t in g], "entry_classes of a group")
    same([[c for c in g] for g in atg.entry_classes], [[t.entry_class for t in g] for g in atg], "entry_classes")
    same([id(g) for g in atg.tier_groups], [id(g) for g in atg], "tier_groups")
    for g in igroups(atg):
        same(list(g.tier_names), [t.name for t in g], "tier_names of a group")


def is_subseq(a, b):
    it = iter(b)
    return all(x in it for x in a)


def check(case, stats):
    prev = [None]
    style = (case.get("layout") or [0])[0]
    expected_load = {gname(i) for i, g in enumerate(case["groups"]) if len(g) > 1} if style == 0 else set()

    def after(s, tag):
        atg = s.atg
        inv_within(atg)
        accessors(atg)
        for g in atg:
            for t in g:
                for x in t:
                    same(x.tiername, t.name, f"after {tag}: tiername of {nm(x)}") if tag == "load" else None
        now = names_of(atg)
        gn = [n for n, _ in now]
        if tag == "load":
            expect(expected_load <= set(gn), lambda: f"group names {gn}, expected {expected_load}")
            if len(case["points"]) > 1 and not case.get("layout"):
                expect(any(n.startswith("events") for n in gn), lambda: f"group names {gn}")
            inv_names(atg)
            for g, n in zip(atg, case["rename"]):
                g.name = n
            for g in atg:
                for t, n in zip(g, case["tier_rename"]):
                    t.name = n
            now = names_of(atg)
            if case["rename"]:
                stats.label("renamed")
        else:
            old = prev[0]
            if tag == "rename":
                diff = [(a, b) for a, b in zip(now, old) if a != b]
                expect(len(now) == len(old) and len(diff) == 1, lambda: f"names after {tag}: {now}, before {old}")
                (a, b), = diff
                expect((a[0] != b[0]) + sum(u != v for u, v in zip(a[1], b[1])) == 1, lambda: f"names after {tag}: {now}, before {old}")
                if a[0] != b[0]:
                    s.moved = True
            elif tag == "remake":
                same([n for _, n in now], [n for _, n in old], f"tier names after {tag}")
                s.moved = getattr(s, "moved", False) or now != old      # made of tiers, a group has no given name
            elif tag == "regroup":
                expect(all(n in old for n in now), lambda: f"names after {tag}: {now}, before {old}")
                s.moved = True
            elif tag in ("gappend", "gsame", "twin"):
                same(now[:-1], old, f"names after {tag}")
            elif tag == "pop_class":
                expect(is_subseq([n for n, _ in now], [n for n, _ in old]), lambda: f"group names after {tag}: {now}, before {old}")
            elif tag == "interleave":
                same([n for n, _ in now], [n for n, _ in old], f"group names after {tag}")
                for (_, a), (_, b) in zip(now, old):
                    expect(is_subseq(b, a), lambda: f"tier names after {tag}: {a}, before {b}")
            elif tag in ("deepen", "ptier"):
                # a group that was not given a name is named after its tiers
                changed = [i for i, (a, b) in enumerate(zip(now, old)) if a != b]
                expect(len(now) == len(old) and len(changed) == 1, lambda: f"names after {tag}: {now}, before {old}")
                i = changed[0]
                same(now[i][1][:-1], old[i][1], f"tier names after {tag}")
                if i < len(case["rename"]) and not getattr(s, "moved", False):
                    same(now[i][0], old[i][0], f"group name after {tag}")
            else:
                same(now, old, f"names after {tag}")
            s.moved = getattr(s, "moved", False) or tag == "pop_class"
            if tag in ("interleave", "pop_class", "gappend", "gsame", "twin", "deepen", "ptier"):
                inv_names(atg)
        prev[0] = now
    s, done = run_history(case, stats, after)
    stats.nontrivial(rich(case) and done)


SPEAKERS = ["KJ", "KY25A", "Joe", "speaker_one", "Chloé", "b7"]
OTHER = ["abc", "dmn", "xyz", "qrt"]        # no character in common


@st.composite
def naming_case(draw):
    """groups of tiers named after a speaker, and ones whose tier names have nothing in common"""
    n = draw(st.integers(1, 3))
    return {"groups": [{"depth": draw(st.integers(1, 4)),
                        "speaker": draw(st.one_of(st.none(), st.sampled_from(SPEAKERS))),
                        "sep": draw(st.sampled_from([" - ", "-", "_", " ", " _ "])),
                        "spare": draw(st.permutations(OTHER)), "upper": draw(st.booleans()),
                        "cut": draw(st.lists(st.integers(1, 3), min_size=4, max_size=4))} for _ in range(n)],
            "how": draw(st.sampled_from(["file", "groups", "append"])),
            "hi": draw(st.integers(1, 5))}


def check_naming(case, stats):
    files, given = [], []
    for g in case["groups"]:
        tails = [t[:n] for t, n in zip(g["spare"], g["cut"])][:g["depth"]]
        tails = [t.upper() for t in tails] if g["upper"] else tails
        files.append([(g["speaker"] + g["sep"] if g["speaker"] else "") + t for t in tails])
        alone = files[-1][0] if len(tails) == 1 else g["speaker"] or ""
        name = "".join(c if c.isalnum() or c == "_" else "_" for c in alone.strip(" -_"))
        given.append(name if len(name) > 1 else None)
    cls = [custom_classes([f"L{i}{k}" for k in range(len(f))]) for i, f in enumerate(files)]
    hi = float(case["hi"])
    if case["how"] == "file":
        tg = Textgrid(0, hi)
        if len(set(sum(files, []))) < len(sum(files, [])):
            return                                          # tier names are unique in a file
        for n in sum(files, []):
            tg.addTier(IntervalTier(n, [Interval(0, hi, "x")], 0, hi))
        atg = AlignedTextGrid(tg, cls)
    else:
        groups = []
        for f, c in zip(files, cls):
            ts = [SequenceTier([k((0, hi, "x"))]) for k in c]
            for t, n in zip(ts, f):
                t.name = n
            groups.append(TierGroup(ts))
        if case["how"] == "groups":
            atg = AlignedTextGrid(groups)
        else:
            atg = AlignedTextGrid(groups[:1])
            for g in groups[1:]:
                atg.append(g)
    want = [n or f"group_{i}" for i, n in enumerate(given)]
    same([g.name for g in atg], want, f"group names for tiers {files}")
    same(atg.tier_names, files, "tier names")
    if len(set(want)) == len(want):
        for n, g in zip(want, atg):
            expect(getattr(atg, n, None) is g, lambda: f"accessor .{n}")
    for g in atg:
        for t in g:
            expect(getattr(g, t.entry_class.__name__) is t, lambda: f"accessor .{t.entry_class.__name__}")
    stats.label(case["how"])
    stats.nontrivial(any(g["depth"] > 1 for g in case["groups"]))


PARTS = [Part("history", case_, check, 4000, 80000, "nested tiers of several intervals and an operation took effect"),
         Part("naming", naming_case, check_naming, 1500, 15000, "a group of more than one tier")]
ASSUMPTIONS = ["group names are identifiers, distinct from attributes of the textgrid; "
               "with duplicate group names only the positions are checked"]
