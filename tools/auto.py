"""auto.py gen | run [--jobs J] [--n N] [--only SUBSTR]: systematic small changes of the source (one operator, constant,
condition, name or statement at a time); those that the repository's tests accept are run against all checks.
Results in /tmp/auto/results.jsonl. Development tool; no check uses it."""
import ast, sys, os, json, argparse, hashlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
SRC = "/repo/src/aligned_textgrid"
CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<"], ast.Gt: [">=", "<"], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="],
       ast.Is: ["is not", "=="], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
SWAP = {"starts": "ends", "ends": "starts", "start": "end", "end": "start", "first": "last", "last": "first",
        "prev": "fol", "fol": "prev", "min": "max", "max": "min", "any": "all", "all": "any", "xmin": "xmax",
        "xmax": "xmin", "superset_class": "subset_class", "subset_class": "superset_class", "sub_starts": "sub_ends",
        "sub_ends": "sub_starts", "set_prev": "set_fol", "set_fol": "set_prev", "append": "remove",
        "above": "below", "below": "above", "isinstance": "issubclass", "argmin": "argmax", "argmax": "argmin"}


def mutants(path):
    src = open(path).read()
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    b = src.encode()

    def span(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        s, e = span(n)
        return b[s:e].decode()
    out = []

    def add(n, new, kind):
        s, e = span(n)
        if b[s:e].decode() != new:
            out.append((s, e, new, kind, n.lineno))
    docs, annots = set(), set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) \
                and isinstance(n.body[0].value, ast.Constant):
            docs.add(n.body[0])
            docs.add(n.body[0].value)
        if isinstance(n, ast.FunctionDef):
            for a in [n.returns] + [x.annotation for x in n.args.args + n.args.kwonlyargs]:
                if a is not None:
                    annots |= set(ast.walk(a))
        if isinstance(n, ast.AnnAssign):
            annots |= set(ast.walk(n.annotation))
    for n in ast.walk(tree):
        if n in docs or n in annots:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                add(n, f"({text(n.left)} {o} {text(n.comparators[0])})", "cmp")
        elif isinstance(n, ast.BoolOp):
            o = " or " if isinstance(n.op, ast.And) else " and "
            add(n, "(" + o.join(f"({text(v)})" for v in n.values) + ")", "bool")
            for k in range(len(n.values)):
                rest = [v for i, v in enumerate(n.values) if i != k]
                p = " and " if isinstance(n.op, ast.And) else " or "
                add(n, "(" + p.join(f"({text(v)})" for v in rest) + ")", "dropcond")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, f"({text(n.operand)})", "not")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            add(n, f"({text(n.operand)})", "neg")
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            add(n.test, "False", "cond")
            if not isinstance(n, ast.While):
                add(n.test, "True", "cond")
        elif isinstance(n, ast.comprehension):
            for c in n.ifs:
                add(c, "True", "filter")
        elif isinstance(n, ast.BinOp) and type(n.op) in (ast.Add, ast.Sub, ast.Mult, ast.Div):
            o = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*"}[type(n.op)]
            add(n, f"({text(n.left)} {o} {text(n.right)})", "arith")
            if isinstance(n.op, ast.Add):
                add(n, text(n.left), "arith")
                add(n, text(n.right), "arith")
        elif isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                add(n, str(not v), "const")
            elif isinstance(v, int):
                add(n, str(v + 1), "const")
                if v:
                    add(n, str(v - 1), "const")
            elif isinstance(v, float):
                add(n, str(v * 2), "const")
            elif isinstance(v, str) and text(n)[0] in "'\"" and not text(n).startswith('"""'):
                add(n, repr(v + "X") if v else "'X'", "str")
        elif isinstance(n, ast.Slice):
            if n.lower is not None and n.upper is None:
                add(n, ":", "slice")
            elif n.upper is not None and n.lower is None:
                add(n, ":", "slice")
        elif isinstance(n, ast.Attribute) and n.attr in SWAP and isinstance(n.ctx, ast.Load):
            add(n, f"{text(n.value)}.{SWAP[n.attr]}", "swap")
        elif isinstance(n, ast.Name) and n.id in SWAP and isinstance(n.ctx, ast.Load):
            add(n, SWAP[n.id], "swap")
        if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign)) and not (
                isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            add(n, "pass", "delstmt")
        elif isinstance(n, ast.Raise):
            add(n, "pass", "delraise")
        elif isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            add(n, "return None", "retnone")
        elif isinstance(n, ast.Break):
            add(n, "pass", "break")
        elif isinstance(n, ast.Continue):
            add(n, "break", "break")
        if isinstance(n, ast.Call) and not n.keywords and len(n.args) == 2:
            add(n, f"{text(n.func)}({text(n.args[1])}, {text(n.args[0])})", "swapargs")
        if isinstance(n, ast.Call) and n.keywords:
            for k in n.keywords:
                if k.arg:
                    rest = [text(a) for a in n.args] + [f"{x.arg}={text(x.value)}" if x.arg else f"**{text(x.value)}" for x in n.keywords if x is not k]
                    add(n, f"{text(n.func)}({', '.join(rest)})", "dropkw")
    rel = os.path.relpath(path, SRC)
    res, seen = [], set()
    for s, e, new, kind, line in out:
        t = b[:s] + new.encode() + b[e:]
        if t in seen:
            continue
        seen.add(t)
        try:
            ast.parse(t)
        except SyntaxError:
            continue
        res.append(dict(file=rel, s=s, e=e, new=new, old=b[s:e].decode(), kind=kind, line=line))
    return res


def gen():
    allm = []
    for d, _, fs in os.walk(SRC):
        for f in sorted(fs):
            if f.endswith(".py") and f != "__init__.py":
                allm += mutants(os.path.join(d, f))
    for m in allm:
        m["id"] = hashlib.md5(json.dumps([m["file"], m["s"], m["e"], m["new"]]).encode()).hexdigest()[:10]
    return allm


def work(args):
    slot, ms, n = args
    from iso import Box
    box = Box(f"auto{slot}")
    try:
        for m in ms:
            p = f"{box.repo}/src/aligned_textgrid/{m['file']}"
            b = open(p, "rb").read()
            if b[m["s"]:m["e"]].decode() != m["old"]:
                continue
            open(p, "wb").write(b[:m["s"]] + m["new"].encode() + b[m["e"]:])
            try:
                rc, _ = box.run("PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 POLARS_MAX_THREADS=1 "
                                "/opt/venv/bin/python -m pytest -x -q -p no:cacheprovider --no-cov --timeout=60", 120)
                if rc == 0:
                    rc, out = box.run(f"cd /verif && timeout 600 python3 tools/sweep.py {n} 1", 700)
                    m["res"] = out.strip().splitlines()[-1] if out.strip() else f"rc={rc}"
                else:
                    m["res"] = "tests"
            finally:
                open(p, "wb").write(b)
            with open("/tmp/auto/results.jsonl", "a") as f:
                f.write(json.dumps(m) + "\n")
    finally:
        box.close()


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd")
    ap.add_argument("--jobs", type=int, default=6)
    ap.add_argument("--n", type=int, default=60)
    ap.add_argument("--only", default="")
    a = ap.parse_args()
    ms = [m for m in gen() if a.only in m["file"]]
    if a.cmd == "gen":
        from collections import Counter
        print(len(ms), Counter(m["kind"] for m in ms), Counter(m["file"] for m in ms))
        sys.exit()
    done = {}
    if os.path.exists("/tmp/auto/results.jsonl"):
        done = {json.loads(l)["id"] for l in open("/tmp/auto/results.jsonl")}
    ms = [m for m in ms if m["id"] not in done]
    import random
    random.Random(1).shuffle(ms)
    from multiprocessing import Pool
    chunks = [ms[i:i + 20] for i in range(0, len(ms), 20)]
    with Pool(a.jobs) as pool:
        for _ in pool.imap_unordered(work, [(i, c, a.n) for i, c in enumerate(chunks)]):
            pass
