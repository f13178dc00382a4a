"""Interleaving a class adds one tier copied from its neighbour; popping a class removes one tier."""
from core import Part, expect, same
from hist import *
from props.c01 import parents_by_time


@st.composite
def case_(draw, kinds=("interleave", "pop")):
    c = draw(history(max_size=2))
    small = st.integers(0, 20)
    c["edits"] = draw(st.lists(st.tuples(st.sampled_from(list(kinds)), small, small, st.booleans(), st.booleans(),
                                         st.booleans(), st.booleans()).map(list), min_size=1, max_size=draw(st.sampled_from([4, 4, 8]))))
    c["alike"] = draw(st.integers(0, 3)) == 2            # all groups have the same name
    return c


def view(atg):
    return [dict(name=g.name, points=isinstance(g, PointsGroup), cls=[t.entry_class.__name__ for t in g],
                 names=[t.name for t in g], ents=[ents(t) for t in g],
                 ids=[[id(x) for x in t] for t in g]) for g in atg]


def agree(got, want, what):
    same([g["name"] for g in got], [g["name"] for g in want], what + ": group names")
    same([g["cls"] for g in got], [g["cls"] for g in want], what + ": classes of the tiers")
    same([g["names"] for g in got], [g["names"] for g in want], what + ": tier names")
    for gi, (g, w) in enumerate(zip(got, want)):
        for ti, (a, b) in enumerate(zip(g["ents"], w["ents"])):
            same_ents(a, b, f"{what}: group {gi} tier {ti} ({g['cls'][ti]})", 0)
        for ti, (a, b) in enumerate(zip(g["ids"], w["ids"])):
            if b is not None:
                same(a, b, f"{what}: identity of the entries of group {gi} tier {ti}")


def do_interleave(atg, st_, op, model, stats):
    """returns the name of the new class, or None"""
    _, gsel, csel, above, from_above, copy_labels, as_class = op
    gs = [m for m in model if not m["points"]]
    if not gs:
        return None
    g = gs[gsel % len(gs)]
    i = csel % len(g["cls"])
    if above and from_above and i == 0:
        from_above = False
    if not above and not from_above and i == len(g["cls"]) - 1:
        from_above = True
    spec = g["cls"][i]
    src = -1 if (above and from_above) else 1 if (not above and not from_above) else 0
    hit = [m for m in gs if spec in m["cls"]]
    if any(not 0 <= m["cls"].index(spec) + src < len(m["cls"]) for m in hit):
        return None
    if ambiguous(atg, next(c for h in igroups(atg) for c in h.entry_classes if c.__name__ == spec)):
        return None
    st_.n += 1
    name = f"New{st_.n}"
    if csel % 2:            # a name that was popped before can be used again
        name = next(n for n in (f"New{k}" for k in range(1, 99)) if not any(n in m["cls"] for m in model))
    arg = spec
    if as_class:
        arg = atg.get_class_by_name(spec)
    kw = {"above" if above else "below": arg}
    if copy_labels and as_class:
        atg.interleave_class(name, timing_from="above" if from_above else "below", **kw)    # True is the default
    else:
        atg.interleave_class(name, timing_from="above" if from_above else "below", copy_labels=copy_labels, **kw)
    for m in hit:
        k = m["cls"].index(spec)
        timing = m["ents"][k + src]
        at_ = k if above else k + 1
        m["cls"].insert(at_, name)
        m["names"].insert(at_, name)
        m["ents"].insert(at_, [(s, e, l if copy_labels else "") for s, e, l in timing])
        m["ids"].insert(at_, None)
    stats.label("interleave_above" if above else "interleave_below")
    stats.label("timing_above" if from_above else "timing_below")
    stats.label("interleave_groups_%d" % len(hit))
    return name


def do_pop(atg, op, model, stats, name=None):
    gs = [m for m in model if not m["points"]]
    if not gs:
        return None
    if name is None:
        g = gs[op[1] % len(gs)]
        name = g["cls"][op[2] % len(g["cls"])]
    arg = atg.get_class_by_name(name) if op[6] else name
    arg = name if isinstance(arg, list) else arg
    pos = [m["cls"].index(name) for m in gs if name in m["cls"]]
    atg.pop_class(arg)
    for m in list(model):
        if m["points"] or name not in m["cls"]:
            continue
        if len(m["cls"]) == 1:
            model.remove(m)
            stats.label("pop_removes_group")
            continue
        k = m["cls"].index(name)
        stats.label("pop_top" if k == 0 else "pop_bottom" if k == len(m["cls"]) - 1 else "pop_middle")
        for f in ("cls", "names", "ents", "ids"):
            m[f].pop(k)
    return name


def ancestors(atg):
    """for each interval: ids of its ancestors by class name"""
    out = {}
    for g in igroups(atg):
        for t in g:
            for x in t:
                a, p = {}, x.super_instance
                while p is not None:
                    a[type(p).__name__] = id(p)
                    p = p.super_instance
                out[id(x)] = a
    return out


def check(case, stats):
    s, _ = run_history(case, stats, lambda s, t: None)
    atg = s.atg
    atg.cleanup()
    for g in atg if case.get("alike") else []:
        g.name = "alike"
    keep = []
    model = view(atg)
    done = 0
    for op in case["edits"]:
        keep += [x for g in atg for t in g for x in t]       # keeps identities alive
        anc = ancestors(atg)
        if op[0] == "interleave":
            name = do_interleave(atg, s, op, model, stats)
            gone = None
        else:
            name = do_pop(atg, op, model, stats)
            gone = name
        if name is None:
            stats.label("not_applicable")
            continue
        done += 1
        what = f"after {op[0]} of {name}"
        agree(view(atg), model, what)
        for m, v in zip(model, view(atg)):
            m["ids"] = v["ids"]
        wf(atg)
        parents_by_time(atg)
        # relations between the tiers that are still there are as they were
        now = ancestors(atg)
        for k, a in anc.items():
            if k in now:
                for c, p in a.items():
                    if c != gone:
                        expect(now[k].get(c) == p, lambda: f"{what}: an interval has another {c} above it than before")
        if len(atg) == 0:
            break
    stats.nontrivial(done > 0 and rich(case))


@st.composite
def inverse_case(draw):
    return draw(case_(kinds=("interleave",)))


def check_inverse(case, stats):
    """interleaving a class and popping it again gives the textgrid back"""
    s, _ = run_history(case, stats, lambda s, t: None)
    atg = s.atg
    atg.cleanup()
    done = 0
    for op in case["edits"]:
        keep = [x for g in atg for t in g for x in t]
        before, model, anc = view(atg), view(atg), ancestors(atg)
        chain = [[(c.superset_class.__name__.split("_")[0], c.subset_class.__name__.split("_")[0])
                  for c in g.entry_classes] for g in igroups(atg)]
        paths = [x.id for x in keep]
        name = do_interleave(atg, s, op, model, stats)
        if name is None:
            continue
        do_pop(atg, op, model, stats, name)
        agree(view(atg), before, "after interleave and pop")
        same([[(c.superset_class.__name__.split("_")[0], c.subset_class.__name__.split("_")[0])
               for c in g.entry_classes] for g in igroups(atg)], chain, "class hierarchy after interleave and pop")
        same(ancestors(atg), anc, "relations after interleave and pop")
        same([x.id for x in keep], paths, "ids after interleave and pop")
        wf(atg)
        done += 1
    stats.nontrivial(done > 0 and rich(case))


PARTS = [Part("interleave", lambda: case_(("interleave",)), check, 2500, 50000,
              "an interleave took place on nested tiers of several intervals"),
         Part("inverse", inverse_case, check_inverse, 1500, 30000,
              "an interleave took place on nested tiers of several intervals")]
ASSUMPTIONS = ["the textgrid is tight (cleanup was called after any edits)",
               "the tier the timing is to come from exists in every group concerned (else: C21)"]
