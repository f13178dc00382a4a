"""Observations of the code under test through its public API, and structural invariants."""
from core import Violation, expect, same
from sut import *
import math

TOL = 1e-6


def close(a, b, tol=TOL):
    return abs(float(a) - float(b)) <= tol


def ents(tier):
    """[(start, end, label)] or [(time, label)] of a tier."""
    if isinstance(tier, SequenceTier):
        return [(float(i.start), float(i.end), i.label) for i in tier]
    return [(float(p.time), p.label) for p in tier]


def snap(atg):
    return [[ents(t) for t in g] for g in atg]


def same_ents(got, want, what, tol=TOL):
    if len(got) != len(want):
        raise Violation(f"{what}: {len(got)} entries {got!r}, expected {len(want)} {want!r}")
    for g, w in zip(got, want):
        if len(g) != len(w) or g[-1] != w[-1] or any(not close(a, b, tol) for a, b in zip(g[:-1], w[:-1])):
            raise Violation(f"{what}: {got!r}, expected {want!r}")


def same_snap(got, want, what, tol=TOL):
    same([len(g) for g in got], [len(g) for g in want], f"{what}: tiers per group")
    for gi, (g, w) in enumerate(zip(got, want)):
        for ti, (a, b) in enumerate(zip(g, w)):
            same_ents(a, b, f"{what}: group {gi} tier {ti}", tol)


def is_in(x, seq):
    """identity membership"""
    return any(x is y for y in seq)


def positions(x, seq):
    return [i for i, y in enumerate(seq) if x is y]


def is_boundary(x):
    return x is not None and x.label == "#" and (x.start if hasattr(x, "start") else x.time) is None


def nm(x):
    if isinstance(x, SequenceInterval):
        return f"{type(x).__name__}({x.start},{x.end},{x.label!r})"
    if isinstance(x, SequencePoint):
        return f"{type(x).__name__}({x.time},{x.label!r})"
    return repr(x)


# ---------------------------------------------------------------- invariants
def inv_class_chain(group):
    cl = [t.entry_class for t in group]
    for up, lo in zip(cl, cl[1:]):
        expect(up.subset_class is lo, lambda: f"{up.__name__}.subset_class is not {lo.__name__}")
        expect(lo.superset_class is up, lambda: f"{lo.__name__}.superset_class is not {up.__name__}")
    for t in group:
        expect(t.superset_class is t.entry_class.superset_class and t.subset_class is t.entry_class.subset_class,
               lambda: f"the tier of {t.entry_class.__name__} is between {t.superset_class.__name__} and "
                       f"{t.subset_class.__name__}, its class between {t.entry_class.superset_class.__name__} and "
                       f"{t.entry_class.subset_class.__name__}")
        for x in t:
            expect(type(x) is t.entry_class, lambda: f"{nm(x)} in a tier of {t.entry_class!r} has class {type(x)!r}")


def inv_tier(tier):
    """order, membership, index, tier-wise navigation"""
    xs = list(tier)
    st = [x.start if isinstance(x, SequenceInterval) else x.time for x in xs]
    expect(all(a <= b for a, b in zip(st, st[1:])), lambda: f"tier {tier.name} out of time order: {ents(tier)}")
    same(len(tier), len(xs), "len(tier)")
    for i, x in enumerate(xs):
        expect(x.intier is tier, lambda: f"{nm(x)}.intier is not its tier")
        same(x.tier_index, i, f"{nm(x)}.tier_index")
        expect(len(positions(x, xs)) == 1, lambda: f"{nm(x)} twice in its tier")
        expect(x in tier, lambda: f"{nm(x)} not in its tier")
    if xs:
        expect(tier.first is xs[0] and tier.last is xs[-1], "tier.first/last")


def inv_hierarchy(group):
    """strictness: a.super_instance is B  <=>  a in B.subset_list, exactly one parent, in the tier above"""
    tiers = list(group)
    for ti, tier in enumerate(tiers):
        for x in tier:
            if ti == 0:
                expect(x.super_instance is None, lambda: f"{nm(x)} in the top tier has a super_instance")
            else:
                up = tiers[ti - 1]
                p = x.super_instance
                expect(p is not None, lambda: f"{nm(x)} has no super_instance")
                expect(is_in(p, up), lambda: f"{nm(x)}.super_instance {nm(p)} is not in the tier above")
                holders = [u for u in up if positions(x, u.subset_list)]
                expect(len(holders) == 1 and holders[0] is p,
                       lambda: f"{nm(x)} is in subset_list of {[nm(h) for h in holders]}, super_instance {nm(p)}")
                same(len(positions(x, p.subset_list)), 1, f"occurrences of {nm(x)} in its superset")
                expect(x in p, lambda: f"{nm(x)} not in its super_instance")
            if ti == len(tiers) - 1:
                same(len(x.subset_list), 0, f"{nm(x)} in the bottom tier: len(subset_list)")
            else:
                lo = tiers[ti + 1]
                for y in x.subset_list:
                    expect(is_in(y, lo), lambda: f"{nm(y)} in subset_list of {nm(x)} but not in the tier below")
                    expect(y.super_instance is x, lambda: f"{nm(y)} in subset_list of {nm(x)}, super_instance {nm(y.super_instance)}")
                same(len(x), len(x.subset_list), "len(interval)")


def inv_order_below(group):
    """the subset lists, read left to right, are the tier below"""
    tiers = list(group)
    for up, lo in zip(tiers, tiers[1:]):
        flat = [y for x in up for y in x.subset_list]
        expect(len(flat) == len(lo) and all(a is b for a, b in zip(flat, lo)),
               lambda: f"subset lists {[nm(y) for y in flat]} are not the tier below {[nm(y) for y in lo]}")


def chain_ok(xs, what):
    xs = list(xs)
    for i, x in enumerate(xs):
        if i == 0:
            expect(is_boundary(x.prev), lambda: f"{what}: initial {nm(x)}.prev is {nm(x.prev)}, not a boundary")
            expect(not is_in(x.prev, xs), f"{what}: boundary is a member")
        else:
            expect(x.prev is xs[i - 1], lambda: f"{what}: {nm(x)}.prev is {nm(x.prev)}, expected {nm(xs[i-1])}")
        if i == len(xs) - 1:
            expect(is_boundary(x.fol), lambda: f"{what}: final {nm(x)}.fol is {nm(x.fol)}, not a boundary")
        else:
            expect(x.fol is xs[i + 1], lambda: f"{what}: {nm(x)}.fol is {nm(x.fol)}, expected {nm(xs[i+1])}")
        for y in (x.prev, x.fol):
            expect(type(y) is type(x), lambda: f"{what}: neighbour of {nm(x)} has class {type(y)!r}")


def inv_precedence(group):
    if isinstance(group, PointsGroup):
        for t in group:
            chain_ok(t, f"point tier {t.name}")
        return
    tiers = list(group)
    chain_ok(tiers[0], f"top tier {tiers[0].name}")
    for t in tiers[:-1]:
        for x in t:
            chain_ok(x.subset_list, f"subset list of {nm(x)}")


def inv_snug(group, tol=TOL):
    """no gaps, overlaps or empty intervals; subsets exactly cover their superset"""
    for t in group:
        xs = list(t)
        for x in xs:
            expect(x.end - x.start > tol, lambda: f"{nm(x)} has no duration; tier {ents(t)}")
        for a, b in zip(xs, xs[1:]):
            expect(close(a.end, b.start, tol), lambda: f"gap or overlap between {nm(a)} and {nm(b)}")
    for t in list(group)[:-1]:
        for x in t:
            sub = list(x.subset_list)
            expect(sub, lambda: f"{nm(x)} has an empty subset list")
            expect(close(sub[0].start, x.start, tol) and close(sub[-1].end, x.end, tol),
                   lambda: f"subset list {[nm(s) for s in sub]} does not span {nm(x)}")


def inv_within(atg):
    """within / within_index / within_path / id lead from the textgrid to the object and back"""
    seen = {}
    for gi, g in enumerate(atg):
        expect(g.within is atg and atg[gi] is g, f"group {gi} within")
        same(g.within_index, gi, f"group {gi} within_index")
        for ti, t in enumerate(g):
            expect(t.within is g and g[ti] is t, f"group {gi} tier {ti} within")
            same(t.within_index, ti, f"group {gi} tier {ti} within_index")
            same(list(t.within_path), [gi, ti], f"group {gi} tier {ti} within_path")
            for xi, x in enumerate(t):
                if isinstance(x, SequencePoint) or ti == 0:
                    want = [gi, ti, xi]
                    expect(x.within is t, lambda: f"{nm(x)}.within is not its tier")
                else:
                    p = x.super_instance
                    expect(x.within is p, lambda: f"{nm(x)}.within is not its super_instance")
                    k = positions(x, p.subset_list)[0]
                    want = list(p.within_path) + [k]
                same(list(x.within_path), want, f"{nm(x)}.within_path")
                same(x.id, "-".join(str(i) for i in want), f"{nm(x)}.id")
                expect(x.id not in seen, lambda: f"id {x.id} shared by {nm(x)} and {nm(seen[x.id])}")
                seen[x.id] = x
                # walk back down
                o = atg[want[0]][want[1]][want[2]]
                for k in want[3:]:
                    o = o[k]
                expect(o is x, lambda: f"path {want} leads to {nm(o)}, not {nm(x)}")


def inv_names(atg):
    names = [g.name for g in atg]
    for g in atg:
        cn = [t.entry_class.__name__ for t in g]
        if len(set(cn)) == len(cn):
            for c, t in zip(cn, g):
                expect(getattr(g, c, None) is t, lambda: f"group accessor .{c} is not the {c} tier")
    if len(set(names)) == len(names):
        for n, g in zip(names, atg):
            if n:
                expect(getattr(atg, n, None) is g, lambda: f"textgrid accessor .{n} is not the group named {n}")


def wf(atg, snug=True, names=True):
    for g in atg:
        for t in g:
            inv_tier(t)
        if isinstance(g, TierGroup):
            inv_class_chain(g)
            inv_hierarchy(g)
            inv_order_below(g)
            if snug:
                inv_snug(g)
        inv_precedence(g)
    inv_within(atg)
    if names:
        inv_names(atg)


# ---------------------------------------------------------------- builders
def make_tg(case, tiers):
    """tiers: [(name, 'int'|'pts', entries in ticks)] -> praatio Textgrid"""
    tg = Textgrid()
    for name, kind, es in tiers:
        if kind == "int":
            tg.addTier(IntervalTier(name, [Interval(sec(case, s), sec(case, e), l) for s, e, l in es]),
                       reportingMode="silence")
        else:
            tg.addTier(PointTier(name, [Point(sec(case, t), l) for t, l in es]), reportingMode="silence")
    return tg


def sec(case, tick):
    return case["offset"] + tick * case["scale"]


def to_secs(case, es):
    return [tuple(sec(case, v) for v in e[:-1]) + (e[-1],) for e in es]
