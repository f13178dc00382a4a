"""Sequence lists: always sorted, no entry twice, one class only; checked against a sorted list of tuples."""
from core import Part, expect, same
from hist import *

KINDS = ["interval", "point", "word"]


@st.composite
def case_(draw):
    small = st.integers(0, 30)
    kind = draw(st.sampled_from(KINDS))
    n0 = draw(st.integers(0, 5))
    start = draw(st.lists(small, min_size=n0, max_size=n0, unique=True))
    op = st.one_of(
        st.tuples(st.just("append"), small),
        st.tuples(st.just("append_copy"), small),
        st.tuples(st.just("append_shift"), small),
        st.tuples(st.sampled_from(["add", "iadd", "add_list"]), st.lists(small, max_size=4, unique=True)),
        st.tuples(st.sampled_from(["remove", "pop", "pop_absent", "remove_copy"]), small),
        st.tuples(st.just("concat"), st.lists(st.integers(1, 6), min_size=1, max_size=3, unique=True)),
        st.tuples(st.sampled_from(["bad_append", "bad_add", "bad_concat", "bad_mixed"]), small),
    )
    return dict(kind=kind, start=start, scale=draw(st.sampled_from(SCALES)), zero=draw(st.booleans()),
                sub=draw(st.booleans()), ties=draw(st.booleans()), other=draw(st.booleans()), ops=draw(st.lists(op.map(list), min_size=1, max_size=10)))


def check(case, stats):
    sc = case["scale"]
    off = 0 if case["zero"] else 3
    ties = case.get("ties", False)          # several entries start together, and differ in their ends or labels
    if case["kind"] == "point":
        C, Bad = custom_classes(["Pt", "Other"], points=[0, 1])
        mk = lambda k, c=None: (c or C)(((k // 3 + off) * sc, f"t{k % 3}") if ties else ((k + off) * sc, f"l{k}"))
        key = lambda x: (float(x.time), x.label)
    else:
        C = Word if case["kind"] == "word" else custom_classes(["Iv"])[0]
        Bad = Phone if case["kind"] == "word" else custom_classes(["Other"])[0]
        mk = lambda k, c=None: (c or C)(((k // 3 + off) * sc, (k // 3 + off + 1 + k % 3) * sc, ["a", ""][k % 2]) if ties else
                                        ((k + off) * sc, (k + off + 1) * sc, f"l{k}"))
        key = lambda x: (float(x.start), float(x.end), x.label)
    Sub = type(C.__name__ + "Sub", (C,), {})           # a class derived from C may stand in for it
    lst = SequenceList(*[mk(k) for k in case["start"]])
    objs = {id(x): x for x in lst}
    model = sorted(key(x) for x in lst)
    same(len(model), len(case["start"]), "length at the start")
    changed = refused = 0
    fresh = [100]
    olds = []                                          # lists that were added to, and what was in them

    def last_end():
        return max(m[-2] for m in model) if model else 0

    def tie(kv):
        return not ties and any(close(kv[0], m[0]) and m != kv for m in model)

    def rounded(kv):
        return tuple(round(v, 6) for v in kv[:-1]) + (kv[-1],)

    for op in [["look"]] + case["ops"]:
        k = op[0]
        tag = k
        before = list(lst)
        if k == "append":
            v = mk(op[1], Sub if case["sub"] and model else None)
            kv = key(v)
            if tie(kv):
                continue
            lst.append(v)
            if kv not in model:
                model.append(kv)
                changed += 1
        elif k == "append_copy":
            if not model:
                continue
            v = lst[op[1] % len(lst)]
            lst.append(v)                              # already there
            lst.append(type(v)(v))                     # equal to one that is there
            same(len(lst), len(before), "length after appending an entry that is there")
        elif k == "append_shift":
            v = mk(op[1])
            if key(v) in model:
                continue
            inc = last_end()
            want = tuple(t + inc for t in key(v)[:-1]) + (v.label + "s%d" % fresh[0],)
            v.label = want[-1]
            fresh[0] += 1
            if any(close(want[0], m[0]) for m in model) or model and model[-1][-2] != inc:
                continue
            lst.append(v, shift=True)
            model.append(want)
            changed += 1
        elif k in ("add", "iadd", "add_list"):
            new = [v for v in (mk(i) for i in op[1]) if not tie(key(v))]
            add = [key(v) for v in new if key(v) not in model]
            arg = new if k == "add_list" else SequenceList(*new)
            if k == "iadd":
                lst += arg
                model += add
            else:
                out = lst + arg
                got = sorted((key(x) for x in out), key=rounded)
                want = sorted(model + add, key=rounded)
                expect(len(got) == len(want) and all(close(a[0], b[0]) and a[-1] == b[-1] for a, b in zip(got, want)),
                       lambda: f"list + {add}: {got}, expected {want}")
                expect(len(lst) == len(before) and all(a is b for a, b in zip(lst, before)),
                       "adding to a list changed the list")
                expect(out is not lst, "adding to a list gives the very list")
                if case.get("other") and not before and not case["start"] and op is case["ops"][0]:
                    other = mk(1, Bad)                 # an empty list that was added to is as free as before
                    lst.append(other)
                    before = [other]
                olds.append((lst, before))
                lst = out
                model += add
            changed += len(add)
        elif k in ("remove", "pop", "remove_copy"):
            if not model:
                continue
            i = op[1] % len(lst)
            v = lst[i]
            if k == "pop":
                lst.pop(v)
            else:
                lst.remove(type(v)(v) if k == "remove_copy" else v)
            model.pop(i)
            changed += 1
        elif k == "pop_absent":
            v = mk(op[1])
            v.label = "absent"
            lst.pop(v)                                 # nothing to pop, nothing happens
            expect(v not in lst, "absent entry found")
            try:
                lst.remove(v)
            except Exception:
                pass
            else:
                raise Violation("removing an absent entry is accepted")
        elif k == "concat":
            inc = last_end()
            new = [mk(i) for i in op[1]]
            for v in new:
                v.label += "c%d" % fresh[0]
            fresh[0] += 1
            add = [tuple(t + inc for t in key(v)[:-1]) + (v.label,) for v in new]
            if not ties and any(close(a[0], m[0]) for a in add for m in model):
                continue
            lst.concat(new)
            model += add
            changed += 1
        elif k.startswith("bad"):
            if not model:
                continue
            b = mk(op[1], Bad)
            b.label = "bad"
            try:
                if k == "bad_append":
                    lst.append(b)
                elif k == "bad_add":
                    lst + [b]
                elif k == "bad_concat":
                    lst.concat([b])
                else:
                    SequenceList(mk(1), mk(2, Bad))
            except (ValueError, AssertionError):
                refused += 1
            else:
                raise Violation(f"{k}: entries of another class are accepted")
        for o, b in olds:
            expect(len(o) == len(b) and all(u is v for u, v in zip(o, b)), f"after {tag}: a list that was added to changed")
        model.sort(key=rounded)
        read = [key(x) for x in lst]
        got = sorted(read, key=rounded)
        expect(len(got) == len(model) and all(len(a) == len(b) and a[-1] == b[-1] and
                                              all(close(u, v) for u, v in zip(a[:-1], b[:-1]))
                                              for a, b in zip(got, model)),
               lambda: f"after {tag} {op[1:]}: {got}, expected {model}")
        # keep exact times from here on (shifts add floats)
        model = got = read
        expect(all(a[0] <= b[0] for a, b in zip(got, got[1:])), f"after {tag}: not sorted")
        same(len(lst), len(model), f"after {tag}: len")
        same(list(lst.labels), [m[-1] for m in model], f"after {tag}: labels")
        same([float(v) for v in lst.starts], [m[0] for m in model], f"after {tag}: starts")
        same([float(v) for v in lst.ends], [m[-2] for m in model], f"after {tag}: ends")
        for i, x in enumerate(lst):
            expect(lst[i] is x and x in lst and lst.index(x) == i and len(positions(x, lst)) == 1,
                   lambda: f"after {tag}: access to {nm(x)}")
            expect(type(x) is (type(lst[0])) and isinstance(x, C), lambda: f"after {tag}: class of {nm(x)}")
        if model:
            expect(mk(77) not in lst, "absent entry found")
        stats.label(tag)
    stats.label("refused", refused > 0)
    stats.nontrivial(changed > 1)


@st.composite
def over_case(draw):
    iv = st.tuples(st.integers(0, 20), st.integers(1, 6)).map(list)
    ivs = draw(st.lists(iv, min_size=1, max_size=8, unique_by=lambda v: v[0]))
    k = draw(st.integers(0, len(ivs) - 1))
    return dict(ivs=ivs, k=k, how=draw(st.sampled_from(["add", "add_list", "iadd"])))


def check_over(case, stats):
    """the documented warning: some of the intervals put together overlap"""
    C, = custom_classes(["Iv"])
    mk = lambda vs: [C((s * .125, (s + d) * .125, f"l{s}")) for s, d in vs]
    lst = SequenceList(*mk(case["ivs"][:case["k"]]))
    rest = mk(case["ivs"][case["k"]:])
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        if case["how"] == "iadd":
            lst += SequenceList(*rest)
        else:
            lst = lst + (rest if case["how"] == "add_list" else SequenceList(*rest))
    ivs = sorted(case["ivs"])
    over = any(a[0] + a[1] > b[0] for a, b in zip(ivs, ivs[1:]))
    same(len(w) > 0, over, f"putting {ivs} together warns")
    same([x.label for x in lst], [f"l{s}" for s, d in ivs], "labels")
    stats.label("overlap", over)
    stats.nontrivial(len(ivs) > 1)


PARTS = [Part("list", case_, check, 6000, 120000, "at least two operations changed the list"),
         Part("overlap", over_case, check_over, 2000, 40000, "more than one interval")]
ASSUMPTIONS = ["entries that agree in times and label are the same entry; the order of entries that start together is left open",
               "a class and a class derived from it count as one class"]
