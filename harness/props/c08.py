"""Fusion: one interval absorbs its neighbour; time, labels and children are conserved."""
from core import Part, expect, same
from hist import *

LABEL_FUNS = {
    "default": (None, lambda a, b: " ".join([a, b])),
    "cat": (lambda x, y: x + y, lambda a, b: a + b),
    "left": (lambda x, y: x, lambda a, b: a),
    "pair": (lambda x, y: f"<{x}|{y}>", lambda a, b: f"<{a}|{b}>"),
}
METHODS = [("fuse_rightwards", True), ("fuse_leftwards", False), ("fuse_rightward", True), ("fuse_leftward", False)]


@st.composite
def case_(draw):
    c = draw(grid(points=False, max_groups=2, max_depth=4, modes=["tight", "tight", "tight", "gap", "mis", "wild"]))
    small = st.integers(0, 40)
    c["fuses"] = draw(st.lists(st.tuples(small, small, small, st.integers(0, 3),
                                         st.sampled_from(sorted(LABEL_FUNS)), st.booleans()).map(list),
                               min_size=1, max_size=8))
    return c


def struct(g):
    """[(id, start, end, label, [ids of children], id of parent)] per tier"""
    return [[(id(x), float(x.start), float(x.end), x.label, [id(y) for y in x.subset_list],
              id(x.super_instance) if x.super_instance is not None else None) for x in t] for t in g]


def fuse_model(m, ti, i, right, fun):
    """m: struct of a group; interval i of tier ti absorbs its neighbour"""
    a, b = (i, i + 1) if right else (i - 1, i)
    L, R = m[ti][a], m[ti][b]
    keep = m[ti][i]
    gone = R if right else L
    out = [list(t) for t in m]
    new = (keep[0], L[1], R[2], fun(L[3], R[3]), L[4] + R[4], keep[5])
    out[ti][a:b + 1] = [new]
    if ti + 1 < len(m):
        out[ti + 1] = [x[:5] + (keep[0],) if x[0] in new[4] else x for x in out[ti + 1]]
    if ti > 0:
        out[ti - 1] = [x[:4] + ([c for c in x[4] if c != gone[0]],) + x[5:] for x in out[ti - 1]]
    return out, gone[0]


def check(case, stats):
    atg = load(case)
    # give intervals unique labels (fusion treats entries equal in time and label as the same)
    n = fused = edges = 0
    for op in case["fuses"]:
        gi, tsel, isel, meth, lf, custom_inner = op
        g = atg[gi % len(atg)]
        ti = tsel % len(g)
        t = g[ti]
        i = isel % len(t)
        x = t[i]
        name, right = METHODS[meth]
        fun, model_fun = LABEL_FUNS[lf]
        before = [struct(h) for h in atg]
        everything = [y for h in atg for tt in h for y in tt]          # keeps ids alive
        tops = ti == 0
        sib = list(t) if tops else list(x.super_instance.subset_list)
        k = positions(x, sib)[0]
        at_edge = k == len(sib) - 1 if right else k == 0
        call = getattr(x, name)
        if at_edge:
            try:
                call() if fun is None else call(fun)
            except Exception:
                pass
            else:
                raise Violation(f"{name} of {nm(x)} at the edge did not raise")
            same([struct(h) for h in atg], before, f"{name} at the edge changed something")
            edges += 1
            continue
        neighbour = sib[k + 1] if right else sib[k - 1]
        want, gone = fuse_model(before[gi % len(atg)], ti, i, right, model_fun)
        call() if fun is None else (call(label_fun=fun) if custom_inner else call(fun))
        fused += 1
        got = [struct(h) for h in atg]
        for hi, h in enumerate(atg):
            exp = want if hi == gi % len(atg) else before[hi]
            for tj, (a, b) in enumerate(zip(got[hi], exp)):
                what = f"{name} in tier {ti} of group {gi % len(atg)}: group {hi} tier {tj}"
                same([r[0] for r in a], [r[0] for r in b], what + ": entries")
                for r, w in zip(a, b):
                    same(r[1:4], w[1:4], what + ": times and label")
                    same(r[4], w[4], what + ": children")
                    same(r[5], w[5], what + ": superset")
        expect(not is_in(neighbour, t), "fused interval still in the tier")
        expect(neighbour.super_instance is None, "fused interval still has a superset")
        same(len(neighbour.subset_list), 0, "fused interval still has subsets: len")
        for h in atg:
            for tt in h:
                inv_tier(tt)
            inv_hierarchy(h)
            inv_order_below(h)
            inv_precedence(h)
            inv_snug(h)
        inv_within(atg)
        stats.label("fuse_tier%d" % min(ti, 3))
    stats.label("edge", edges > 0)
    stats.label("fused_%d" % min(fused, 4))
    stats.nontrivial(fused > 0)


@st.composite
def free_case(draw):
    n = draw(st.integers(1, 4))
    words = [[draw(st.integers(1, 3)) for _ in range(draw(st.integers(0, 4)))] for _ in range(n)]
    small = st.integers(0, 20)
    return dict(words=words, custom=draw(st.booleans()),
                fuses=draw(st.lists(st.tuples(st.booleans(), small, small, st.booleans()).map(list),
                                    min_size=1, max_size=6)))


def check_free(case, stats):
    """words with phones that are in no tier; words linked by precedence only"""
    W, P = custom_classes(["Wd", "Ph"]) if case["custom"] else (Word, Phone)
    t, words, k = 0, [], 0
    for wi, phs in enumerate(case["words"]):
        s = t
        ps = []
        for d in phs:
            ps.append(P((t, t + d, f"p{k}")))
            t += d
            k += 1
        t += not phs                       # a word without phones
        w = W((s, t, f"w{wi}"))
        w.set_subset_list(ps)
        words.append(w)
    for a, b in zip(words, words[1:]):
        a.set_fol(b)
    model = [[w.start, w.end, w.label, [(p.start, p.end, p.label) for p in w.subset_list]] for w in words]
    fused = edges = 0

    def view():
        return [[w.start, w.end, w.label, [(p.start, p.end, p.label) for p in w.subset_list]] for w in words]

    for phone_level, i, j, right in case["fuses"]:
        wi = i % len(words)
        w = words[wi]
        phone_level = phone_level and len(w.subset_list) > 0
        if phone_level:
            pi = j % len(w.subset_list)
            x = w.subset_list[pi]
            edge = pi == len(w.subset_list) - 1 if right else pi == 0
        else:
            x = w
            edge = wi == len(words) - 1 if right else wi == 0
        call = x.fuse_rightwards if right else x.fuse_leftwards
        if edge:
            try:
                call()
            except Exception:
                pass
            else:
                raise Violation(f"fusing {nm(x)} at the edge did not raise")
            edges += 1
        elif phone_level:
            ps = model[wi][3]
            a, b = (pi, pi + 1) if right else (pi - 1, pi)
            ps[a:b + 1] = [(ps[a][0], ps[b][1], ps[a][2] + " " + ps[b][2])]
            call()
            fused += 1
        else:
            a, b = (wi, wi + 1) if right else (wi - 1, wi)
            A, B = model[a], model[b]
            model[a:b + 1] = [[A[0], B[1], A[2] + " " + B[2], A[3] + B[3]]]
            call()
            words[a:b + 1] = [x]
            fused += 1
        same(view(), model, "words and phones")
        chain_ok(words, "words")
        for q, w in enumerate(words):
            chain_ok(w.subset_list, f"phones of {nm(w)}")
            for p in w.subset_list:
                expect(p.super_instance is w, lambda: f"{nm(p)}.super_instance")
    stats.label("edge", edges > 0)
    stats.nontrivial(fused > 0)


PARTS = [Part("tiers", case_, check, 4000, 80000, "at least one fusion took place"),
         Part("free", free_case, check_free, 2000, 40000, "at least one fusion took place")]
ASSUMPTIONS = ["no label is the boundary label '#'"]
