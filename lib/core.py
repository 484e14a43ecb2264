"""Runner for generated-input checks.

A check module lists Sub(name, strategy, run, quick, thorough).  `run(case, rec)`
exercises the code in /repo on one JSON-able case and raises Violation when the
oracle disagrees.  Cases are generated (and shrunk) by Hypothesis, seeded from
VERIF_SEED, in parallel shards.  A failing case is written as a replay file which
`--replay` runs again without Hypothesis.
"""
import os, sys, json, time, hashlib, traceback, importlib, multiprocessing, random

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SHARDS = 8
CASE_LIMIT_S = 400

sys.path.insert(0, REPO)
sys.path.insert(0, os.path.join(VERIF, "checks"))
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
os.environ.setdefault("TQDM_DISABLE", "1")


class Violation(Exception):
    """The code under test broke the property."""

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class Reject(Exception):
    """The case is outside the domain of the property (counted, not judged)."""


class Sub:
    def __init__(self, name, strategy, run, quick, thorough, shards=SHARDS):
        self.name, self.strategy, self.run = name, strategy, run
        self.quick, self.thorough, self.shards = quick, thorough, shards


class Recorder:
    def __init__(self):
        self.evaluations = 0
        self.classes = {}
        self.excluded = {}
        self.known = {}
        self.samples = []
        self.nontrivial_hashes = set()
        self._nt = False
        self.judged = 0

    def cls(self, label, n=1):
        self.classes[label] = self.classes.get(label, 0) + n

    def exclude(self, label, n=1):
        self.excluded[label] = self.excluded.get(label, 0) + n

    def nontrivial(self, flag=True):
        if flag:
            self._nt = True

    def begin(self):
        self._nt = False
        self.evaluations += 1

    def end(self, case):
        if self._nt:
            h = hashlib.sha1(dumps(case).encode()).hexdigest()[:16]
            if h not in self.nontrivial_hashes:
                self.nontrivial_hashes.add(h)
                if len(self.samples) < 2 or (len(self.samples) < 4 and len(dumps(case)) < 1500):
                    self.samples.append(case)


def dumps(case):
    return json.dumps(case, sort_keys=True, default=str)


def repo_frame(exc):
    """Does the traceback of an exception pass through the code under test?"""
    tb = exc.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(REPO + os.sep):
            return True
        tb = tb.tb_next
    return False


def describe(exc):
    last = traceback.extract_tb(exc.__traceback__)
    where = [f for f in last if f.filename.startswith(REPO + os.sep)]
    at = f" at {os.path.relpath(where[-1].filename, REPO)}:{where[-1].lineno}" if where else ""
    return f"unexpected {type(exc).__name__}: {exc}{at}"


def unreadable(exc):
    """an error of ours while looking at results: an empty line, a missing key, None instead of a number"""
    if isinstance(exc, AttributeError):
        return "'NoneType' object has no attribute" in str(exc)
    return isinstance(exc, (IndexError, KeyError, TypeError, ValueError, ZeroDivisionError))


def load_known(prop):
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding: "):
                d = json.loads(line[len("finding: "):])
                if d["property"] == prop:
                    out.append(d)
    return out


class Runner:
    """Executes cases of one sub-check and remembers what failed."""

    def __init__(self, sub, known=()):
        self.sub, self.rec = sub, Recorder()
        self.failure = None  # (case, message)
        self.harness = None
        self.history = []
        self.known = {k["key"]: k for k in known}

    def __call__(self, case):
        rec = self.rec
        rec.begin()
        try:
            self.sub.run(case, rec)
        except Reject as e:
            rec.exclude(str(e) or "rejected")
            return
        except Violation as e:
            if e.key is not None and e.key in self.known:
                rec.known[e.key] = str(e)
                return
            self.failure = (case, str(e))
            raise
        except (KeyboardInterrupt, SystemExit):
            raise
        except Exception as e:
            if repo_frame(e):
                self.failure = (case, describe(e))
                raise Violation(describe(e)) from e
            if unreadable(e):
                # what the code gave back is not of the shape every result has had so far
                where = traceback.extract_tb(e.__traceback__)[-1]
                msg = f"a result cannot be read: {type(e).__name__}: {e} ({os.path.basename(where.filename)}:{where.lineno})"
                self.failure = (case, msg)
                raise Violation(msg) from e
            self.harness = "".join(traceback.format_exception(e))
            raise
        rec.end(case)


def derive_seed(*parts):
    h = hashlib.sha256(":".join(map(str, parts)).encode()).digest()
    return int.from_bytes(h[:6], "big")


def run_shard(sub, seed, n, known):
    from hypothesis import given, settings, seed as hseed, HealthCheck, Phase, Verbosity
    import hypothesis.internal.conjecture.engine as engine

    engine.MAX_SHRINKING_SECONDS = 45
    runner = Runner(sub, known)

    @hseed(seed)
    @settings(
        max_examples=n,
        database=None,
        deadline=None,
        derandomize=False,
        report_multiple_bugs=False,
        print_blob=False,
        verbosity=Verbosity.quiet,
        suppress_health_check=list(HealthCheck),
        phases=(Phase.generate, Phase.shrink),
    )
    @given(sub.strategy)
    def test(case):
        runner(case)

    out = {"failure": None, "harness": None}
    try:
        test()
    except BaseException as e:
        if runner.failure is None:
            out["harness"] = runner.harness or "".join(traceback.format_exception(e))
    if runner.failure is not None:
        out["failure"] = runner.failure
    r = runner.rec
    out.update(
        evaluations=r.evaluations, classes=r.classes, excluded=r.excluded, known=r.known,
        samples=r.samples, hashes=list(r.nontrivial_hashes),
    )
    return out


def _worker(conn, sub, seed, n, known):
    import signal
    try:
        res = run_shard(sub, seed, n, known)
    except BaseException as e:  # noqa
        res = {"failure": None, "harness": "".join(traceback.format_exception(e))}
    conn.send_bytes(json.dumps(res, default=str).encode())
    conn.close()
    os._exit(0)


def run_parallel(jobs, deadline):
    """jobs: list of (key, sub, seed, n, known).  Yields (key, result)."""
    ctx = multiprocessing.get_context("fork")
    pending, running, results = list(jobs), [], []
    maxp = max(2, min(SHARDS, os.cpu_count() or 2))
    from multiprocessing.connection import wait
    while pending or running:
        while pending and len(running) < maxp:
            key, sub, seed, n, known = pending.pop(0)
            a, b = ctx.Pipe(duplex=False)
            p = ctx.Process(target=_worker, args=(b, sub, seed, n, known), daemon=True)
            p.start()
            b.close()
            running.append((key, p, a))
        ready = wait([a for _, _, a in running], timeout=5)
        for item in list(running):
            key, p, a = item
            if a in ready:
                try:
                    res = json.loads(a.recv_bytes())
                except EOFError:
                    res = {"failure": None, "harness": f"worker for {key} died (exit {p.exitcode})"}
                p.join(10)
                running.remove(item)
                results.append((key, res))
        if time.time() > deadline:
            for key, p, a in running:
                p.kill()
                results.append((key, {"failure": None, "harness": f"{key}: time limit reached, inconclusive"}))
            break
        if any(r.get("failure") for _, r in results) and os.environ.get("VERIF_KEEP_GOING") != "1":
            # a counterexample is enough: let the shards that already shrink one finish briefly
            t_end = time.time() + 5
            for key, p, a in running:
                if a.poll(max(0, t_end - time.time())):
                    try:
                        results.append((key, json.loads(a.recv_bytes())))
                    except EOFError:
                        pass
                p.kill()
            break
    return results


def write_replay(prop, sub, case, msg, seed):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha1((sub + dumps(case)).encode()).hexdigest()[:10]
    path = os.path.join(d, f"{prop}-{sub}-{h}.json")
    with open(path, "w") as f:
        json.dump({"property": prop, "sub": sub, "case": case, "message": msg, "seed": seed}, f, indent=1, default=str)
    return path


def replay(mod, path):
    d = json.load(open(path))
    sub = {s.name: s for s in mod.SUBS}[d["sub"]]
    runner = Runner(sub, load_known(mod.PROPERTY))
    try:
        runner(d["case"])
    except Exception as e:
        if runner.failure:
            print("FAILED:", runner.failure[1])
            print(f"VIOLATION property={mod.PROPERTY} replay={os.path.abspath(path)}")
            return 1
        traceback.print_exception(e)
        return 2
    print("replay passes")
    return 0


def main(argv):
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = derive_seed(os.environ["VERIF_SEED"])
    t0 = time.time()
    try:
        mod = importlib.import_module(prop.lower())
    except Exception as e:
        if repo_frame(e) and not isinstance(e, ImportError):
            # the code under test cannot even be imported
            path = write_replay(prop, "import", {}, describe(e), seed)
            print(describe(e))
            print(f"VIOLATION property={prop} replay={path}")
            sys.exit(1)
        traceback.print_exc()
        sys.exit(2)
    if "--replay" in argv:
        sys.exit(replay(mod, argv[argv.index("--replay") + 1]))
    known = load_known(prop)
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    only = os.environ.get("VERIF_ONLY")
    jobs = []
    for sub in mod.SUBS:
        if only and sub.name != only:
            continue
        n = int((sub.thorough if tier == "thorough" else sub.quick) * scale)
        shards = min(sub.shards, max(1, n))
        for k in range(shards):
            m = n // shards + (1 if k < n % shards else 0)
            if m:
                jobs.append(((sub.name, k), sub, derive_seed(seed, prop, sub.name, k, tier), m, known))
    limit = 800 if tier == "quick" else 6 * 3600
    results = run_parallel(jobs, t0 + limit)

    total = Recorder()
    hashes = set()
    per_sub = {}
    failures, harness = [], []
    for (name, k), r in results:
        if r.get("failure"):
            failures.append((name, r["failure"][0], r["failure"][1]))
        if r.get("harness"):
            harness.append((name, r["harness"]))
        for c, v in r.get("classes", {}).items():
            total.cls(f"{name}/{c}", v)
        for c, v in r.get("excluded", {}).items():
            total.exclude(f"{name}/{c}", v)
        total.known.update(r.get("known", {}))
        total.evaluations += r.get("evaluations", 0)
        hs = {name + h for h in r.get("hashes", [])}
        hashes |= hs
        ps = per_sub.setdefault(name, {"evaluations": 0, "distinct_nontrivial": 0, "samples": []})
        ps["evaluations"] += r.get("evaluations", 0)
        ps["distinct_nontrivial"] += len(hs)
        if len(ps["samples"]) < 2:
            ps["samples"] += r.get("samples", [])[: 2 - len(ps["samples"])]
    code = 0
    lines = []
    for k in known:
        # a listed finding is reported on every run; its input is replayed by the check itself
        lines.append(f"KNOWN-FINDING: property={prop} {k['what']}")
    if failures:
        failures.sort(key=lambda f: len(dumps(f[1])))
        name, case, msg = failures[0]
        path = write_replay(prop, name, case, msg, seed)
        lines.append(f"{name}: {msg}"[:2000])
        lines.append(f"VIOLATION property={prop} replay={path}")
        code = 1
    elif harness:
        for name, h in harness[:3]:
            lines.append(f"harness error in {name}:\n{h}")
        code = 2
    wall = time.time() - t0
    if not (os.environ.get("VERIF_NO_EVIDENCE") or REPO != "/repo"):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        samples = []
        for name, ps in per_sub.items():
            for s in ps["samples"][:2]:
                t = dumps(s)
                samples.append({"sub": name, "case": s if len(t) < 3000 else t[:3000] + "..."})
        with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
            json.dump(
                {
                    "property": prop, "tier": tier, "seed": seed, "level": "exploration",
                    "coverage": {
                        "evaluations": total.evaluations,
                        "distinct_nontrivial": len(hashes),
                        "rule": mod.RULE,
                        "samples": samples,
                        "per_sub_check": {n: {k: v for k, v in p.items() if k != "samples"} for n, p in per_sub.items()},
                        "classes": total.classes,
                        "excluded": total.excluded,
                    },
                    "assumptions": getattr(mod, "ASSUMPTIONS", []),
                    "wall_s": round(wall, 2),
                    "violations": len(failures),
                },
                f, indent=1, default=str, ensure_ascii=False,
            )
    print(f"{prop} {tier} seed={seed}: {total.evaluations} cases, {len(hashes)} distinct non-trivial, {wall:.1f} s")
    if os.environ.get("VERIF_VERBOSE"):
        for d in (total.classes, total.excluded):
            for k in sorted(d):
                print("   ", k, d[k])
    for l in lines:
        print(l)
    sys.stdout.flush()
    sys.exit(code)
