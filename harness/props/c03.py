"""Hierarchy strictness."""
from core import Part, expect, same
from hist import *
from relations import rel_case, RelWorld

def check_history(case, stats):
    def after(s, tag):
        for g in igroups(s.atg):
            inv_class_chain(g)
            inv_hierarchy(g)
            inv_order_below(g)
    s, done = run_history(case, stats, after)
    stats.nontrivial(rich(case) and done)

def check_load(case, stats):
    atg = load(case)
    stats.label("mode_" + case["mode"])
    for g in igroups(atg):
        inv_class_chain(g)
        inv_hierarchy(g)
        inv_order_below(g)
    stats.nontrivial(rich(case))

def check_rel(case, stats):
    w = RelWorld(case)
    for op in case["ops"]:
        tag = w.apply(op)
        stats.label(tag or "op_not_applicable")
        w.check_hierarchy(tag)
    stats.nontrivial(w.moves > 0)

PARTS = [
    Part("load", lambda: grid(max_groups=3, max_depth=4, points=False), check_load, 1600, 60000,
         "a group has more than one tier and some tier more than one interval"),
    Part("history", lambda: history(), check_history, 1600, 60000,
         "as for load, and at least one operation took effect"),
    Part("relations", rel_case, check_rel, 1600, 60000,
         "at least one interval changed its superset"),
]
ASSUMPTIONS = ["tiers are non-empty and internally free of overlaps; no two intervals of a tier agree in "
               "start, end and label; no label is the boundary label '#'",
               "a group's tiers start at the top of its class hierarchy"]
