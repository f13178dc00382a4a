"""A process of its own that unpickles what it is sent, edits it, and reports what it sees.
Protocol: length-prefixed pickles of plain data on stdin and stdout."""
import os, sys, struct, pickle
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def cname(c):
    from model import Top, Bottom
    if c is None:
        return None
    return "Top" if issubclass(c, Top) else "Bottom" if issubclass(c, Bottom) else c.__name__


def observe(atg):
    from model import SequencePoint, TierGroup, nm, positions
    out = []
    for g in atg:
        tl = []
        for ti, t in enumerate(g):
            rows = []
            for x in t:
                if isinstance(x, SequencePoint):
                    rows.append((float(x.time), x.label, x.id, x.fol.label, x.prev.label))
                else:
                    p = x.super_instance
                    rows.append((float(x.start), float(x.end), x.label, x.id, x.fol.label, x.prev.label,
                                 None if p is None else positions(p, list(g[ti - 1]))[0], len(x.subset_list)))
            tl.append((t.name, t.entry_class.__name__,
                       cname(getattr(t, "superset_class", None)), cname(getattr(t, "subset_class", None)), rows))
        out.append((g.name, type(g).__name__, tl))
    return type(atg).__name__, atg.tier_names, [float(atg.xmin), float(atg.xmax)], out


def root(x):
    while getattr(x, "within", None) is not None:
        x = x.within
    return x


def serve(req):
    import cloudpickle
    import hist
    from core import describe
    data, ops, case, path = req
    try:
        obj = cloudpickle.loads(data)
        atg = root(obj)
        o = atg
        for k in path:
            o = o[k]
        if o is not obj:
            return dict(err="the object is not where it was within its textgrid")
        if not case.get("raw"):
            hist.wf(atg, snug=False)
        seen = observe(atg)
        s = hist.State.__new__(hist.State)
        s.case, s.atg, s.n, s.log = case, atg, 100, []
        done = []
        for op in ops:
            tag = hist.apply(s, op)
            if tag:
                done.append(tag)
                hist.wf(s.atg, snug=False)
        return dict(seen=seen, done=done, after=observe(s.atg))
    except Exception as e:
        return dict(err="in another process: " + describe(e))


def main():
    out = os.fdopen(os.dup(1), "wb")
    inp = os.fdopen(os.dup(0), "rb")
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    while True:
        h = inp.read(8)
        if len(h) < 8:
            return
        res = pickle.dumps(serve(pickle.loads(inp.read(struct.unpack("<Q", h)[0]))))
        out.write(struct.pack("<Q", len(res)) + res)
        out.flush()


if __name__ == "__main__":
    main()
