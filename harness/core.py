"""Small property-test runner: data-only cases, Hypothesis generation and shrinking,
sharded over processes, replay files, evidence."""
import os, sys, zlib, contextlib, json, time, hashlib, traceback, signal, importlib
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SHARDS = 8
HANG_S = 60      # a case normally takes milliseconds
SHRINK_S = 120   # longer than nearly every reduction takes
MEM = 6 << 30    # per process


class Violation(AssertionError):
    pass


class Hang(Exception):
    pass


class HarnessError(Exception):
    pass


def expect(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


def short(x):
    r = repr(x)
    return r if len(r) < 1500 else r[:1500] + " ..."


def same(a, b, what):
    if a != b:
        raise Violation(f"{what}: got {short(a)}, expected {short(b)}")


class Stats:
    def __init__(self):
        self.evals = 0
        self.labels = Counter()
        self.distinct = set()
        self.samples = []
        self._cur = None

    def label(self, name, cond=True):
        if cond:
            self.labels[name] += 1

    def nontrivial(self, cond=True):
        if cond and self._cur is not None:
            h = hashlib.blake2b(json.dumps(self._cur, sort_keys=True).encode(), digest_size=8).hexdigest()
            if h not in self.distinct:
                self.distinct.add(h)
                if len(self.samples) < 2:
                    self.samples.append(self._cur)


class Part:
    """One generated check. strategy() -> Hypothesis strategy of JSON-able cases;
    check(case, stats) raises Violation."""
    def __init__(self, name, strategy, check, quick, thorough, rule):
        self.name, self.strategy, self.check = name, strategy, check
        self.quick, self.thorough, self.rule = quick, thorough, rule


def _alarm(sig, frm):
    raise Hang(f"no result after {HANG_S} s")


def run_case(part, case, stats):
    stats._cur = case
    stats.evals += 1
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(HANG_S)
    try:
        with open(os.devnull, "w") as null, contextlib.redirect_stdout(null):
            part.check(case, stats)
    finally:
        signal.alarm(0)


def describe(exc):
    if isinstance(exc, Violation):
        return str(exc)
    tb = traceback.extract_tb(exc.__traceback__)
    loc = next((f"{os.path.basename(f.filename)}:{f.lineno} in {f.name}" for f in reversed(tb)
                if "aligned_textgrid" in f.filename), "")
    return f"unexpected {type(exc).__name__}: {exc} {('at ' + loc) if loc else ''}"


def load(pid):
    return importlib.import_module(f"props.{pid.lower()}")


def fresh_cases():
    """Hypothesis follows every generated case with up to five variants in which parts are repeated; where these no
    longer line up with the strategy, the rest of the case is the simplest possible. That is most of the histories
    here, so this is done for one case in 25 only."""
    from hypothesis.internal.conjecture.engine import ConjectureRunner
    mutate = getattr(ConjectureRunner, "generate_mutations_from", None)
    if mutate is None or getattr(mutate, "sparse", False):
        return

    def sparse(self, data):
        if self.random.random() < 0.04:
            mutate(self, data)
    sparse.sparse = True
    ConjectureRunner.generate_mutations_from = sparse


def run_shard(pid, part_name, shard, n, seed, shrink=True):
    """Runs in its own process; returns a plain dict."""
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    mod = load(pid)
    import hypothesis
    from hypothesis import given, settings, Phase, HealthCheck
    fresh_cases()
    part = next(p for p in mod.PARTS if p.name == part_name)
    stats = Stats()
    fail = {}

    def body(case):
        if fail and time.time() - fail["at"] > SHRINK_S:
            raise SystemExit(3)
        try:
            run_case(part, case, stats)
        except (HarnessError, KeyboardInterrupt):
            raise
        except Exception as e:
            fail.setdefault("at", time.time())
            size = len(json.dumps(case))
            if size <= fail.get("size", size):
                fail.update(case=case, size=size, msg=describe(e), trace=traceback.format_exc())
            if isinstance(e, (Hang, MemoryError)):
                raise SystemExit(3)          # no shrinking: every step would take as long
            raise

    test = given(part.strategy())(body)
    test = settings(max_examples=n, deadline=None, database=None, derandomize=False,
                    report_multiple_bugs=False, print_blob=False,
                    phases=[Phase.generate] + [Phase.shrink] * shrink,
                    suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large,
                                           HealthCheck.large_base_example])(test)
    test = hypothesis.seed((seed * 1000003 + shard * 7919 + zlib.crc32((pid + part_name).encode())) & 0xFFFFFFFF)(test)
    err = None
    try:
        test()
    except SystemExit:
        pass
    except BaseException as e:
        if not fail:
            err = traceback.format_exc()
        elif isinstance(e, (hypothesis.errors.HypothesisException, HarnessError)) \
                and type(e).__name__ not in ("FlakyFailure", "Flaky", "FlakyReplay"):
            err = traceback.format_exc()
        elif type(e).__name__.startswith("Flaky"):
            # a real failure that depends on what ran before it in the process (state kept by the code)
            fail["msg"] += " (not reproduced when the same case was run again in this process)"
    return dict(evals=stats.evals, labels=dict(stats.labels), distinct=sorted(stats.distinct),
                samples=stats.samples, fail=fail or None, err=err)


def known_findings(pid):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    return [f for f in json.load(open(path)).get("known", []) if f["property"] == pid]


def write_replay(pid, part, fail):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{pid}-{part}.json")
    with open(path, "w") as f:
        json.dump(dict(property=pid, part=part, message=fail["msg"], case=fail["case"],
                       trace=fail["trace"],
                       how=f"python3 /verif/check.py {pid} --replay {path}"), f, indent=1,
                  ensure_ascii=True)
    return path


def replay(pid, path):
    data = json.load(open(path))
    mod = load(pid)
    part = next(p for p in mod.PARTS if p.name == data["part"])
    st = Stats()
    try:
        run_case(part, data["case"], st)
    except HarnessError:
        raise
    except Exception as e:
        print(describe(e))
        traceback.print_exc()
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    print("replay: property held")
    return 0


def run(pid, tier, seed, scale=1.0, only=None):
    from concurrent.futures import ProcessPoolExecutor
    import multiprocessing as mp
    t0 = time.time()
    mod = load(pid)
    known = known_findings(pid)
    jobs, results, violations, errors = [], {}, [], []

    # 1. saved inputs (minimal cases of earlier failures), outside Hypothesis
    corpus = os.path.join(VERIF, "corpus", f"{pid}.json")
    reg = Stats()
    if os.path.exists(corpus):
        for item in json.load(open(corpus)):
            part = next((p for p in mod.PARTS if p.name == item["part"]), None)
            if part is None or (only and part.name not in only):
                continue
            try:
                run_case(part, item["case"], reg)
            except HarnessError:
                raise
            except Exception as e:
                violations.append((part.name, dict(case=item["case"], msg=describe(e),
                                                   trace=traceback.format_exc())))
                break
    # 2. generated
    if not violations:
        ctx = mp.get_context("spawn")
        with ProcessPoolExecutor(SHARDS, mp_context=ctx) as ex:
            for part in mod.PARTS:
                if only and part.name not in only:
                    continue
                n = max(1, int((2 * part.quick if tier == "quick" else part.thorough) * scale / SHARDS))
                for s in range(SHARDS):
                    jobs.append((part.name, s, ex.submit(run_shard, pid, part.name, s, n, seed)))
            for name, s, fut in jobs:
                results[(name, s)] = fut.result()
        for (name, s), r in results.items():
            if r["err"]:
                errors.append((name, r["err"]))
            elif r["fail"]:
                violations.append((name, r["fail"]))

    evals = reg.evals + sum(r["evals"] for r in results.values())
    distinct = {}
    labels = {}
    samples = []
    for (name, s), r in results.items():
        distinct.setdefault(name, set()).update(r["distinct"])
        labels.setdefault(name, Counter()).update(r["labels"])
        if s == 0:
            samples += [dict(part=name, case=c) for c in r["samples"][:1]]
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration",
              coverage=dict(
                  evaluations=evals,
                  distinct_nontrivial=sum(len(v) for v in distinct.values()),
                  rule=" | ".join(f"{p.name}: {p.rule}" for p in mod.PARTS),
                  samples=samples,
                  per_part={n: dict(evaluations=sum(r["evals"] for (m, _), r in results.items() if m == n),
                                    distinct_nontrivial=len(distinct[n]), classes=dict(labels[n]))
                            for n in distinct},
                  saved_inputs_replayed=reg.evals),
              assumptions=list(getattr(mod, "ASSUMPTIONS", [])),
              wall_s=round(time.time() - t0, 2), violations=len(violations))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)

    for k in known:
        part = next(p for p in mod.PARTS if p.name == k["part"])
        try:
            run_case(part, k["case"], Stats())
            print(f"a listed finding no longer fails: {k['what']}")
        except HarnessError:
            raise
        except Exception:
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
    for name, st in ((n, labels[n]) for n in labels):
        print(f"{pid}/{name}: {ev['coverage']['per_part'][name]['evaluations']} cases, "
              f"{len(distinct[name])} distinct non-trivial; {dict(st)}")
    if violations:
        name, fail = min(violations, key=lambda v: len(json.dumps(v[1]["case"])))
        path = write_replay(pid, name, fail)
        print(f"{pid}/{name}: {fail['msg']}")
        print("case:", json.dumps(fail["case"])[:2000])
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    if errors:
        print(f"harness error in {errors[0][0]}:\n{errors[0][1]}", file=sys.stderr)
        return 2
    print(f"{pid}: held on {evals} cases in {ev['wall_s']} s")
    return 0
