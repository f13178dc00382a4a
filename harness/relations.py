"""Histories of relation changes between free-standing intervals of a two-level hierarchy,
against a model that is a dict child -> parent."""
from sut import *
from model import *
from hypothesis import strategies as st

KINDS = ["set_super", "append", "append_subset_list", "set_subset_list", "assign", "remove_superset",
         "remove_from", "pop", "steal_list", "iadd", "plus", "plus_up", "set_none"]


@st.composite
def rel_case(draw):
    n_up, n_lo = draw(st.integers(1, 4)), draw(st.integers(1, 7))
    order = draw(st.permutations(list(range(n_lo))))
    small = st.integers(0, 20)
    op = st.one_of(
        st.tuples(st.sampled_from(["set_super", "append", "append_subset_list", "remove_from", "pop",
                                    "plus", "plus_up", "set_none"]), small, small),
        st.tuples(st.sampled_from(["set_subset_list", "assign", "iadd"]), small, st.lists(small, max_size=5)),
        st.tuples(st.just("remove_superset"), small),
        st.tuples(st.just("steal_list"), small, small, st.booleans()))
    few = st.sampled_from(["", "a", "a", "b", None])          # None: a label of its own
    return dict(n_up=n_up, n_lo=n_lo, order=order, wp=draw(st.booleans()),
                ulab=draw(st.lists(few, min_size=n_up, max_size=n_up)), llab=draw(st.lists(few, min_size=n_lo, max_size=n_lo)),
                dur=draw(st.lists(st.integers(1, 3), min_size=n_lo, max_size=n_lo)), spread=draw(st.booleans()),
                unit=draw(st.sampled_from([1, 1, 0.25, 0.0005])), at=draw(st.sampled_from([0, 0, -4, 0.1, 700])),
                ops=draw(st.lists(op.map(list), min_size=1, max_size=10)))


class RelWorld:
    def __init__(self, case):
        if case["wp"]:
            U, L = Word, Phone
        else:
            U, L = custom_classes(["Upper", "Lower"])
        n, unit, at = case["n_lo"], case.get("unit", 1), case.get("at", 0)
        own = [None] * 8
        lab = lambda key, i: (case.get(key) or own)[i]
        name = lambda key, i: f"{key[0]}{i}" if lab(key, i) is None else lab(key, i)
        when = lambda i: at + i * unit
        self.up = [U((when(i * n), when(i * n + n), name("ulab", i)) if case.get("spread") else (when(0), when(n), name("ulab", i)))
                   for i in range(case["n_up"])]
        # start times are a permutation, so that insertion order and time order differ
        self.lo = [L((when(t), when(t + (case.get("dur") or [1] * 8)[i]), name("llab", i))) for i, t in enumerate(case["order"])]
        self.parent = {i: None for i in range(len(self.lo))}
        self.moves = 0

    def _set(self, i, p):
        if self.parent[i] != p:
            self.parent[i] = p
            self.moves += 1

    def apply(self, op):
        k = op[0]
        up, lo = self.up, self.lo
        if k in ("set_super", "append", "append_subset_list", "remove_from", "pop", "plus", "plus_up", "set_none"):
            u, l = op[1] % len(up), op[2] % len(lo)
            if k == "plus":
                up[u] = up[u] + lo[l]           # a new object that stands in for the old one
                self._set(l, u)
                return k
            if k == "plus_up":
                if self.parent[l] == u:
                    return None
                lo[l] = lo[l] + up[u]
                self._set(l, u)
                return k
            if k == "set_none":
                up[u].set_subset_list(None)
                return k
            if k == "set_super":
                if self.parent[l] == u:
                    return None
                if isinstance(lo[l], Phone):
                    lo[l].set_word(up[u])
                else:
                    lo[l].set_super_instance(up[u])
                self._set(l, u)
            elif k == "append":
                up[u].append(lo[l])
                self._set(l, u)
            elif k == "append_subset_list":
                up[u].append_subset_list(lo[l])
                self._set(l, u)
            elif k == "remove_from":
                up[u].remove_from_subset_list(lo[l])
                if self.parent[l] == u:
                    self._set(l, None)
            else:
                if self.parent[l] != u:
                    return None
                up[u].pop(lo[l])
                self._set(l, None)
            return k
        if k in ("set_subset_list", "assign", "iadd"):
            u = op[1] % len(up)
            ls = list(dict.fromkeys(i % len(lo) for i in op[2]))
            objs = [lo[i] for i in ls]
            if k == "iadd":
                up[u].subset_list += objs
            else:
                if k == "assign":
                    up[u].subset_list = objs
                elif isinstance(up[u], Word):
                    up[u].set_phones(objs)
                else:
                    up[u].set_subset_list(objs)
                for i, p in list(self.parent.items()):
                    if p == u and i not in ls:
                        self._set(i, None)
            for i in ls:
                self._set(i, u)
            return k
        if k == "remove_superset":
            l = op[1] % len(lo)
            lo[l].remove_superset()
            self._set(l, None)
            return k
        if k == "steal_list":
            a, b = op[1] % len(up), op[2] % len(up)
            if a == b:
                return None
            if op[3]:
                up[a].set_subset_list(up[b].subset_list)
            else:
                up[a].subset_list = up[b].subset_list
            for i, p in list(self.parent.items()):
                if p == a:
                    self._set(i, None)
            for i, p in list(self.parent.items()):
                if p == b:
                    self._set(i, a)
            return k

    def children(self, u):
        ids = [i for i, p in self.parent.items() if p == u]
        return [self.lo[i] for i in sorted(ids, key=lambda i: self.lo[i].start)]

    def check_hierarchy(self, tag):
        for i, p in self.parent.items():
            want = None if p is None else self.up[p]
            expect(self.lo[i].super_instance is want,
                   lambda: f"after {tag}: l{i}.super_instance is {nm(self.lo[i].super_instance)}, expected {nm(want)}")
            if isinstance(self.lo[i], Phone):
                expect(self.lo[i].inword is want, "inword differs from super_instance")
        for u in range(len(self.up)):
            got, want = list(self.up[u].subset_list), self.children(u)
            expect(len(got) == len(want) and all(a is b for a, b in zip(got, want)),
                   lambda: f"after {tag}: subset list of u{u} is {[nm(x) for x in got]}, expected {[nm(x) for x in want]}")
            same(len(self.up[u]), len(want), f"after {tag}: len(u{u})")
            same(list(self.up[u].sub_labels), [x.label for x in want], f"after {tag}: sub_labels")
            same([float(v) for v in self.up[u].sub_starts], [float(x.start) for x in want], f"after {tag}: sub_starts")
            same([float(v) for v in self.up[u].sub_ends], [float(x.end) for x in want], f"after {tag}: sub_ends")
            for k, x in enumerate(want):
                expect(x in self.up[u] and self.up[u][k] is x and self.up[u].index(x) == k,
                       lambda: f"after {tag}: membership or index of {nm(x)}")

    def check_precedence(self, tag):
        for u in range(len(self.up)):
            chain_ok(self.children(u), f"after {tag}: children of u{u}")
