"""
Driver of the runtime monitors: case scheduling over worker processes, violation reporting, replay, evidence.

Every property has a module vmon/checks/<id>.py with

    NUM       number mixed into the random streams
    RULE      text for evidence.coverage.rule
    COUNTS    {"quick": n, "thorough": n}       number of cases
    REQUIRED  {"counter": minimum}              what must have been observed (scaled checks of "did the monitors see it")
    case(ctx) runs one generated case on the real code, with all monitors attached
    finish(ctx, coverage) optional, in the parent: checks over the merged observations

The random stream of a case depends on (VERIF_SEED, NUM, index) only, so that a case can be replayed on its own. Workers
run under different PYTHONHASHSEEDs (part of the explored schedule space: set orders decide graph layouts in veroku).
"""
import collections
import functools
import hashlib
import importlib
import json
import os
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VMON_REPO", "/repo")
PYTHON = os.environ.get("VMON_PYTHON", "/opt/venv/bin/python")
NUM_WORKERS = int(os.environ.get("VMON_WORKERS", "8"))
LAUNCH = int(os.environ.get("VMON_LAUNCH", NUM_WORKERS))  # development aid: run only the first few workers' cases
CASE_TIMEOUT = 150
WALL_CAP = {"quick": 420, "thorough": 780}
MAX_VIOLATIONS_PER_WORKER = 12


class CaseTimeout(BaseException):
    """A single case did not finish."""


class Reject(Exception):
    """The generated case is outside the property's domain; it is counted as rejected."""


class Ctx:
    """What a case gets: its random stream, and where monitors report."""

    def __init__(self, prop, tier, seed, idx, num, worker):
        import numpy as np

        self.prop, self.tier, self.seed, self.idx = prop, tier, seed, idx
        self.rng = np.random.default_rng([seed, num, idx])
        np.random.seed((seed * 1000003 + num * 7919 + idx) % (2 ** 32))
        self.worker = worker
        self.counts = worker.counts
        self.thorough = tier == "thorough"

    # --- reporting
    def violate(self, mechanism, detail=""):
        self.worker.violation(self, mechanism, detail)

    def check(self, ok, mechanism, detail=""):
        """Count an oracle decision; report it if it fails. detail may be a callable."""
        self.counts["oracle_checks"] += 1
        if not ok:
            self.violate(mechanism, detail() if callable(detail) else detail)
        return bool(ok)

    def count(self, name, k=1):
        self.counts[name] += k

    def sig(self, *parts):
        """Register a distinct non-trivial case / observed state."""
        self.worker.sigs.add(hashlib.blake2b(repr(parts).encode(), digest_size=8).hexdigest())

    def seen(self, group, *parts):
        """Register a distinct observed thing in a named group (reported as distinct_<group>)."""
        self.worker.groups[group].add(hashlib.blake2b(repr(parts).encode(), digest_size=8).hexdigest())

    def sample(self, text):
        if len(self.worker.samples) < 3:
            self.worker.samples.append(str(text)[:1500])


class Worker:
    """Runs the cases of one worker process."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.counts = collections.Counter()
        self.sigs = set()
        self.groups = collections.defaultdict(set)
        self.samples = []
        self.violations = []
        self.errors = []
        self.per_mech = collections.Counter()

    def violation(self, ctx, mechanism, detail):
        self.counts["violations_raw"] += 1
        self.per_mech[mechanism] += 1
        if self.per_mech[mechanism] <= 2 and len(self.violations) < MAX_VIOLATIONS_PER_WORKER:
            self.violations.append(
                dict(
                    property=self.prop, tier=self.tier, seed=self.seed, idx=ctx.idx,
                    hashseed=os.environ.get("PYTHONHASHSEED", ""), mechanism=mechanism, detail=str(detail)[:4000],
                )
            )

    def run_case(self, module, idx):
        ctx = Ctx(self.prop, self.tier, self.seed, idx, module.NUM, self)
        signal.alarm(getattr(module, "CASE_TIMEOUT", CASE_TIMEOUT))
        try:
            module.case(ctx)
            self.counts["cases"] += 1
        except Reject:
            self.counts["rejected"] += 1
        except CaseTimeout:
            ctx.violate("hang", "case did not finish within the case timeout\n" + traceback.format_exc(limit=-6))
        except Exception as exc:  # pylint: disable=broad-except
            self.classify_exception(ctx, exc)
        finally:
            signal.alarm(0)

    def classify_exception(self, ctx, exc):
        frames = traceback.extract_tb(exc.__traceback__)
        repo_frames = [f for f in frames if f.filename.startswith(os.path.join(REPO, "veroku"))]
        text = traceback.format_exc(limit=-8)
        if repo_frames:
            last = repo_frames[-1]
            mech = f"exception:{type(exc).__name__}@{os.path.basename(last.filename)}:{last.name}"
            ctx.violate(mech, "an operation that is valid according to the property raised\n" + text)
        elif isinstance(exc, (ImportError, NameError)) or (isinstance(exc, AttributeError) and _of_the_project(exc)):
            self.errors.append(text)
        else:
            ctx.violate(f"unreadable-result:{type(exc).__name__}", text)

    def result(self):
        return dict(
            counts=dict(self.counts), sigs=sorted(self.sigs), groups={k: sorted(v) for k, v in self.groups.items()},
            samples=self.samples, violations=self.violations, errors=self.errors[:5],
        )


def _of_the_project(exc):
    """A missing attribute on one of the project's own objects is trouble with the machinery, on a result a wrong result."""
    obj = getattr(exc, "obj", None)
    return str(getattr(obj, "__name__", "")).startswith(("veroku", "vmon")) or type(obj).__module__.startswith(("veroku", "vmon"))


def _alarm(_signum, _frame):
    raise CaseTimeout()


def load(prop):
    return importlib.import_module(f"vmon.checks.{prop.lower()}")


def prepare_imports():
    import warnings

    warnings.simplefilter("ignore")
    sys.path.insert(0, REPO)
    import numpy as np

    np.seterr(all="ignore")
    import veroku

    where = os.path.realpath(os.path.dirname(veroku.__file__))
    assert where == os.path.realpath(os.path.join(REPO, "veroku")), where


def worker_main(prop, tier, seed, w, total, cap, outfile):
    prepare_imports()
    signal.signal(signal.SIGALRM, _alarm)
    module = load(prop)
    worker = Worker(prop, tier, seed)
    start = time.time()
    n = module.COUNTS[tier]
    if hasattr(module, "setup"):
        module.setup(worker)
    for idx in range(w, n, total):
        if time.time() - start > cap:
            worker.counts["cases_not_run_wall_cap"] += 1
            continue
        worker.run_case(module, idx)
        if len(worker.violations) >= MAX_VIOLATIONS_PER_WORKER:
            break
    with open(outfile, "w") as f:
        json.dump(worker.result(), f)


def child_env(hashseed, scratch):
    env = dict(os.environ)
    env.update(
        PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OPENBLAS_NUM_THREADS="1",
        OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", MPLCONFIGDIR=scratch, PYTHONPATH="", PYTHONUTF8="1",
        PYTHONWARNINGS="ignore", VMON_SCRATCH=scratch,
    )
    env.pop("PYTHONPYCACHEPREFIX", None)
    return env


def read_known(prop):
    """known_findings.txt: 'known: property=C06 key=<mechanism> <what>' and 'fixed: property=.. <commit> <what>'."""
    known = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("known:"):
                fields = line[len("known:"):].strip().split(" ", 2)
                if fields[0] == f"property={prop}":
                    known.append((fields[1][len("key="):], fields[2].strip()))
    return known


def run_check(prop, tier):
    start = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    sys.path.insert(0, VERIF)
    scratch = tempfile.mkdtemp(prefix=f"vmon_{prop}_")
    procs = []
    try:
        for w in range(min(LAUNCH, NUM_WORKERS)):
            out = os.path.join(scratch, f"r{w}.json")
            wscratch = os.path.join(scratch, f"w{w}")
            os.mkdir(wscratch)
            hashseed = (seed * 8 + w * 131 + 17) % 4294967295
            log = open(os.path.join(scratch, f"log{w}"), "w")
            cmd = [PYTHON, "-B", "-W", "ignore", os.path.join(VERIF, "run.py"), "--worker", prop, tier, str(seed),
                   str(w), str(NUM_WORKERS), str(WALL_CAP[tier]), out]
            launch = functools.partial(subprocess.Popen, cmd, env=child_env(hashseed, wscratch), cwd=wscratch, stdout=log,
                                       stderr=subprocess.STDOUT)
            procs.append((launch(), out, log.name, launch))
        merged = dict(counts=collections.Counter(), sigs=set(), groups=collections.defaultdict(set), samples=[],
                      violations=[], errors=[])
        deadline = start + WALL_CAP[tier] + 90
        for i, (proc, out, log, launch) in enumerate(procs):
            try:
                proc.wait(timeout=max(1, deadline - time.time()))
                if proc.returncode == -9 and not os.path.exists(out):
                    # ended from outside (when memory ran low, say), which tells nothing about the code: run it again
                    proc = launch()
                    procs[i] = (proc, out, log, launch)
                    proc.wait(timeout=max(1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                proc.kill()
                proc.wait()
                merged["errors"].append("worker exceeded the wall limit")
            if os.path.exists(out):
                res = json.load(open(out))
                merged["counts"].update(res["counts"])
                merged["sigs"].update(res["sigs"])
                for k, v in res["groups"].items():
                    merged["groups"][k].update(v)
                merged["samples"] += res["samples"]
                merged["violations"] += res["violations"]
                merged["errors"] += res["errors"]
            else:
                tail = open(log).read()[-3000:]
                merged["errors"].append(f"worker failed (rc {proc.returncode})\n{tail}")
    finally:
        for proc, *_ in procs:
            if proc.poll() is None:
                proc.kill()
        import shutil

        shutil.rmtree(scratch, ignore_errors=True)
    return report(prop, tier, seed, merged, start)


def report(prop, tier, seed, merged, start):
    module_rule, required = _static_info(prop)
    counts = merged["counts"]
    known = read_known(prop)
    unlisted, listed = [], collections.OrderedDict()
    for v in merged["violations"]:
        match = [what for key, what in known if key == v["mechanism"]]
        if match:
            listed[v["mechanism"]] = match[0]
        else:
            unlisted.append(v)
    replay_dir = os.path.join(VERIF, "out", "replays")
    os.makedirs(replay_dir, exist_ok=True)
    printed = collections.Counter()
    for v in sorted(unlisted, key=lambda x: x["idx"]):
        name = f"{prop}_{tier}_s{seed}_i{v['idx']}_{hashlib.md5(v['mechanism'].encode()).hexdigest()[:6]}.json"
        path = os.path.join(replay_dir, name)
        with open(path, "w") as f:
            json.dump(v, f, indent=1)
        printed[v["mechanism"]] += 1
        if printed[v["mechanism"]] == 1 and len(printed) <= 12:
            print(f"VIOLATION property={prop} replay={path}")
            print(f"  mechanism: {v['mechanism']}  (case {v['idx']}, seed {seed}, hash seed {v['hashseed']})")
            print("  " + v["detail"].replace("\n", "\n  ")[:900])
    for key, what in known:
        print(f"KNOWN-FINDING: property={prop} {what}" + ("" if key in listed else " (not exercised by this run)"))
    # half of the amount named by the check: a change of the code under test that shifts how many messages a graph needs
    # must not make a run inconclusive
    missing = {k: (counts.get(k, 0), m / 2) for k, m in required.items() if counts.get(k, 0) < m / 2}
    coverage = dict(
        evaluations=int(counts.get("cases", 0)), distinct_nontrivial=len(merged["sigs"]), rule=module_rule,
        samples=merged["samples"][:5] or ["(no sample recorded)"],
        observed={k: int(v) for k, v in sorted(counts.items()) if k != "cases"},
        distinct_observed={k: len(v) for k, v in sorted(merged["groups"].items())},
        hash_seeds=NUM_WORKERS,
        known_findings_seen=sorted(listed),
    )
    evidence = dict(
        property=prop, tier=tier, seed=seed, level="exploration", coverage=coverage,
        assumptions=["the reference models in /verif/vmon/refs.py and numpy/scipy are correct"],
        wall_s=round(time.time() - start, 2), violations=len(unlisted),
    )
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1)
    print(f"{prop} {tier}: {counts.get('cases', 0)} cases, {counts.get('oracle_checks', 0)} oracle decisions, "
          f"{len(merged['sigs'])} distinct non-trivial, {len(unlisted)} violations, {evidence['wall_s']} s")
    if unlisted:
        return 1
    if merged["errors"]:
        for e in merged["errors"][:4]:
            print("HARNESS ERROR:\n" + e)
        return 2
    if missing:
        print("INCONCLUSIVE: too little was observed:", missing)
        return 3
    return 0


def _static_info(prop):
    """RULE and REQUIRED without importing veroku in the parent."""
    import ast

    tree = ast.parse(open(os.path.join(VERIF, "vmon", "checks", prop.lower() + ".py")).read())
    info = {}
    for node in tree.body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], "id", "") in ("RULE", "REQUIRED"):
            info[node.targets[0].id] = ast.literal_eval(node.value)
    return info["RULE"], info.get("REQUIRED", {})


def replay(prop, path):
    v = json.load(open(path))
    if os.environ.get("PYTHONHASHSEED") != v["hashseed"] or "VMON_SCRATCH" not in os.environ:
        scratch = tempfile.mkdtemp(prefix="vmon_replay_")
        try:
            return subprocess.call([PYTHON, "-B", "-W", "ignore", os.path.join(VERIF, "run.py"), prop, "--replay",
                                    os.path.abspath(path)], env=child_env(v["hashseed"], scratch), cwd=scratch)
        finally:
            import shutil

            shutil.rmtree(scratch, ignore_errors=True)
    prepare_imports()
    signal.signal(signal.SIGALRM, _alarm)
    module = load(prop)
    worker = Worker(prop, v["tier"], v["seed"])
    if hasattr(module, "setup"):
        module.setup(worker)
    worker.run_case(module, v["idx"])
    for x in worker.violations:
        print(f"VIOLATION property={prop} replay={path}\n  mechanism: {x['mechanism']}\n  {x['detail']}")
    for e in worker.errors:
        print("HARNESS ERROR:\n" + e)
    if not worker.violations:
        print("not reproduced: the case passes")
    return 1 if worker.violations else (2 if worker.errors else 0)


def main(argv):
    if argv and argv[0] == "--worker":
        prop, tier, seed, w, total, cap, out = argv[1:8]
        worker_main(prop, tier, int(seed), int(w), int(total), float(cap), out)
        return 0
    if argv and argv[0] == "--setup":
        scratch = tempfile.mkdtemp(prefix="vmon_setup_")
        try:
            return subprocess.call([PYTHON, "-B", "-W", "ignore", "-m", "vmon.selftest"], env=dict(
                child_env(0, scratch), PYTHONPATH=VERIF), cwd=scratch)
        finally:
            import shutil

            shutil.rmtree(scratch, ignore_errors=True)
    prop = argv[0]
    if "--replay" in argv:
        return replay(prop, argv[argv.index("--replay") + 1])
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    return run_check(prop, tier)
