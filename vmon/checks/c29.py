"""C29: independent computations do not influence each other nor the state of the process."""
import contextlib
import io
import json
import os
import subprocess
import sys
import threading
import types
import warnings

import numpy as np

from vmon import core, gen, graphs, models, refs, zoo

NUM = 29
RULE = ("two to four random programs (tables, Gaussians, mixtures, factorised and non-linear factors, graphs of all kinds, templates, "
        "views, rejected calls) over the same names with different contents; each is run alone in a freshly forked interpreter, and "
        "again together with the others: one after another, step by step, pre-empted at random calls inside veroku, or in threads; every "
        "step's results must be those of the lone run, and the process-wide state is compared around every step; "
        "distinct by programs, mode and order of steps")
COUNTS = {"quick": 1100, "thorough": 30000}
REQUIRED = {"steps": 12000, "mode_sequence": 150, "mode_interleaved": 150, "mode_preempted": 150, "mode_threads": 150, "preemptions": 1500,
            "thread_switches": 1500, "state_checks": 5000, "compared_numbers": 200000, "lone_runs": 2000, "graph_programs": 600,
            "view_steps": 400, "rejections": 250, "samples": 150}

ZYGOTE = [None]


# --------------------------------------------------------------------------------------------------------------- the lone runs
class Zygote:
    """An interpreter that has imported veroku, and forks a fresh child for every program."""

    def __init__(self):
        env = dict(os.environ, PYTHONPATH=core.VERIF)
        self.proc = subprocess.Popen([core.PYTHON, "-B", "-W", "ignore", "-m", "vmon.checks.c29"], env=env, cwd=os.getcwd(),
                                     stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)

    def ask(self, *args):
        self.proc.stdin.write(json.dumps(args) + "\n")
        self.proc.stdin.flush()
        line = self.proc.stdout.readline()
        if not line:
            raise core.Reject()
        return json.loads(line)


def zygote_main():
    core.prepare_imports()
    import_all()
    for line in sys.stdin:
        pid = os.fork()
        if pid == 0:
            try:
                out = run_alone(*json.loads(line))
            except core.Reject:
                out = None
            except BaseException as exc:  # pylint: disable=broad-except
                out = [["error", repr(exc)]]
            os.write(1, (json.dumps(out) + "\n").encode())
            os._exit(0)
        os.waitpid(pid, 0)


def import_all():
    import veroku.cluster_graph  # noqa: F401  pylint: disable=unused-import
    import veroku.factors.categorical  # noqa: F401  pylint: disable=unused-import
    import veroku.factors.gaussian  # noqa: F401  pylint: disable=unused-import
    import veroku.factors.experimental.gaussian_mixture  # noqa: F401  pylint: disable=unused-import
    import veroku.factors.sparse_categorical  # noqa: F401  pylint: disable=unused-import
    import veroku.factors.experimental.nonlinear_gaussian  # noqa: F401  pylint: disable=unused-import
    import veroku.factors.experimental.factorised_factor  # noqa: F401  pylint: disable=unused-import
    import matplotlib.pyplot  # noqa: F401  pylint: disable=unused-import


def run_alone(seed, idx, slot, sampling):
    out = []
    with contextlib.redirect_stdout(sys.stderr):
        try:
            for _, x in program(seed, idx, slot, sampling):
                out.append(plain(x))
        except core.Reject:
            return None
        except Exception as exc:  # pylint: disable=broad-except
            out.append(raised(exc))
    return out


def raised(exc):
    return ["raised", type(exc).__name__]


def setup(_worker):
    import_all()
    ZYGOTE[0] = Zygote()


# ----------------------------------------------------------------------------------------------------------------- the results
def plain(x):
    """Json data."""
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, dict):
        return [[str(k), plain(v)] for k, v in x.items()]
    if isinstance(x, np.ndarray):
        return [list(x.shape), [repr(float(v)) for v in x.ravel()]]
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        return repr(float(x))
    return None if x is None else str(x)


def alike(a, b, count):
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(alike(x, y, count) for x, y in zip(a, b))
    if isinstance(a, str) and isinstance(b, str) and a != b:
        try:
            x, y = float(a), float(b)
        except ValueError:
            return False
        count[0] += 1
        return abs(x - y) <= 1e-8 * max(1.0, abs(x), abs(y)) or (np.isnan(x) and np.isnan(y))
    count[0] += 1
    return a == b


def show(f):
    return zoo.snapshot(f)


# ---------------------------------------------------------------------------------------------------------------- the programs
KINDS = ["table", "sparse", "gaussian", "mixture", "ff", "nlg", "dgraph", "dgraph", "ggraph", "ngraph", "template", "views", "reject", "sample"]


class Twin:
    """Random choices that are mostly those of the other programs (the same scopes, graphs and steps), with values of its own."""

    SHARED = ("integers", "choice", "random", "permutation", "shuffle")

    def __init__(self, seed, own, differ):
        self.shared, self.own, self.differ = np.random.default_rng(seed), own, differ

    def __getattr__(self, name):
        if name not in self.SHARED:
            return getattr(self.own, name)
        return getattr(self.own if self.own.random() < self.differ else self.shared, name)


def program(seed, idx, slot, sampling):
    """Generator of (kind of step, results)."""
    shared = np.random.default_rng([seed, NUM, idx, 3])
    pool = gen.names(shared, 5)
    same_kind = str(shared.choice(KINDS)) if shared.random() < 0.5 else None
    rng = np.random.default_rng([seed, NUM, idx, 100 + slot])
    twins = shared.random() < 0.4
    if twins:
        same_kind = same_kind or str(shared.choice(KINDS))
        rng = Twin([seed, NUM, idx, 5], rng, float(shared.choice([0.0, 0.05, 0.2])))
    ctx = types.SimpleNamespace(rng=rng, count=lambda *a: None, thorough=False)
    kind = same_kind or str(rng.choice(KINDS))
    if not sampling and kind in ("sample", "views"):
        kind = str((shared if same_kind else rng).choice(KINDS[:11]))
    yield kind, kind
    yield from PROGRAMS[kind](ctx, pool)


def p_table(ctx, pool, make=None):
    rng = ctx.rng
    cds = gen.cards(rng, pool, hi=3)
    make = make or zoo.make_dense
    live = [make(ctx, gen.subset(rng, pool, 1, 3), cds)[0] for _ in range(3)]
    yield "make", [show(f) for f in live]
    for _ in range(int(rng.integers(3, 9))):
        i, j = rng.integers(len(live), size=2)
        a, b = live[int(i)], live[int(j)]
        op = str(rng.choice(["multiply", "cancel", "marginalize", "reduce", "normalize", "dfv", "kl", "equals", "potential", "argmax", "copy"]))
        if op == "multiply":
            if len(set(a.var_names) | set(b.var_names)) > 4:
                continue
            new = a.multiply(b)
        elif op == "cancel":
            if len(set(a.var_names) | set(b.var_names)) > 4:
                continue
            new = a.multiply(b).cancel(b)
        elif op == "marginalize":
            new = a.marginalize(gen.subset(rng, a.var_names, 1), keep=bool(rng.random() < 0.8)) if len(a.var_names) > 1 else a.copy()
        elif op == "reduce":
            if len(a.var_names) < 2:
                continue
            obs = gen.subset(rng, a.var_names, 1, len(a.var_names) - 1)
            new = a.reduce(list(obs), [int(rng.integers(cds[v])) for v in obs])
        elif op == "normalize":
            if not np.isfinite(refs.tab_of(a).log_mass()):
                continue
            new = a.normalize()
        elif op == "dfv":
            if not np.isfinite(refs.tab_of(a).log_mass()) or not a.var_names:
                continue
            yield op, a.distance_from_vacuous()
            continue
        elif op == "kl":
            if not np.isfinite(refs.tab_of(a).log_mass()) or not a.var_names:
                continue
            yield op, [a.kl_divergence(a.copy()), a.normalize().kl_divergence(a)]
            continue
        elif op == "equals":
            yield op, [a.equals(b), a.equals(a.copy())]
            continue
        elif op == "potential":
            vals = [int(rng.integers(cds[v])) for v in a.var_names]
            yield op, a.potential(list(a.var_names), vals)
            continue
        elif op == "argmax":
            if np.isfinite(refs.tab_of(a).log_mass()):
                yield op, list(a.argmax())
            continue
        else:
            new = a.copy()
        if new.var_names:
            live.append(new)
        yield op, [show(new), show(a)]
    yield "end", [show(f) for f in live]


def p_sparse(ctx, pool):
    yield from p_table(ctx, pool, zoo.make_sparse)


def p_gaussian(ctx, pool):
    rng = ctx.rng
    live = [zoo.make_gaussian(ctx, gen.subset(rng, pool, 1, 4))[0] for _ in range(3)]
    yield "make", [show(f) for f in live]
    for _ in range(int(rng.integers(3, 9))):
        i, j = rng.integers(len(live), size=2)
        a, b = live[int(i)], live[int(j)]
        op = str(rng.choice(["multiply", "divide", "marginalize", "reduce", "normalize", "dfv", "kl", "equals", "potential", "copy", "views"]))
        proper = refs.gref_of(a).proper()
        if op == "multiply":
            new = a.multiply(b)
        elif op == "divide":
            new = a.multiply(b).divide(b)
        elif op == "marginalize":
            if not proper:
                continue
            new = a.marginalize(gen.subset(rng, a.var_names, 1), keep=True)
        elif op == "reduce":
            if len(a.var_names) < 2:
                continue
            obs = gen.subset(rng, a.var_names, 1, len(a.var_names) - 1)
            new = a.reduce(list(obs), list(rng.normal(size=len(obs))))
        elif op == "normalize":
            if not proper:
                continue
            new = a.normalize()
        elif op == "copy":
            new = a.copy()
        elif op == "equals":
            yield op, [a.equals(b), a.equals(a.copy())]
            continue
        elif op == "potential":
            x = rng.normal(size=(len(a.var_names), 1))
            yield op, [a.log_potential(x), a.log_weight if hasattr(a, "log_weight") and proper else 0.0]
            continue
        elif op == "dfv" and proper:
            yield op, a.distance_from_vacuous()
            continue
        elif op == "kl" and proper:
            m = a.multiply(zoo.make_gaussian(ctx, gen.perm(rng, a.var_names))[0])
            yield op, [a.kl_divergence(m), m.kl_divergence(a)]
            continue
        elif op == "views" and proper:
            yield op, [a.get_cov(), a.get_mean(), a.get_prec(), a.get_h(), a.get_g(), a.get_log_weight()]
            continue
        else:
            continue
        live.append(new)
        yield op, [show(new), show(a)]
    yield "end", [show(f) for f in live]


def p_mixture(ctx, pool):
    rng = ctx.rng
    nms = gen.subset(rng, pool, 1, 2)
    a, b = zoo.make_gm(ctx, nms)[0], zoo.make_gm(ctx, nms)[0]
    g = zoo.make_gaussian(ctx, gen.perm(rng, nms))[0]
    yield "make", [show(a), show(b)]
    p = a.multiply(b)
    yield "multiply", show(p)
    q = p.multiply(g)
    yield "multiply", [show(q), show(p)]
    yield "divide", show(q.divide(g))
    yield "normalize", show(q.normalize())
    x = rng.normal(size=(len(nms), 1))
    yield "potential", [q.log_potential(x), q.potential(x), a.potential(x)]
    yield "match", show(q.moment_match_to_single_gaussian())
    if len(nms) > 1:
        yield "marginalize", show(q.marginalize([nms[-1]], keep=True))
        yield "reduce", show(q.reduce([nms[0]], [0.3]))
    yield "equals", [a.equals(a.copy()), a.equals(b), show(a), show(b)]


def p_ff(ctx, pool):
    rng = ctx.rng
    f, _ = zoo.make_ff(ctx, pool[:4], n=2)
    g, _ = zoo.make_gaussian(ctx, gen.subset(rng, pool[:4], 1, 2))
    yield "make", show(f)
    m = f.multiply(g)
    yield "multiply", [sorted(m.var_names), show(m.joint_distribution)]
    d = m.divide(g)
    yield "divide", show(d.joint_distribution)
    yield "reduce", show(m.reduce([pool[0]], [0.25]).joint_distribution)
    yield "marginalize", show(m.marginalize([pool[1]], keep=True).joint_distribution)
    yield "end", show(f)


def p_nlg(ctx, pool):
    rng = ctx.rng
    k = int(rng.integers(1, 3))
    cond, out = pool[:k], pool[k:k + int(rng.integers(1, 3))]
    if rng.random() < 0.3:
        f, _ = zoo.make_nlgm(ctx, cond, out)
        yield "make", show(f)
        g, _ = zoo.make_gaussian(ctx, list(out))
        f = f.multiply(g)
        yield "multiply", show(f)
        yield "marginalize", show(f.marginalize(list(out), keep=True))
        return
    f, _ = zoo.make_nlg(ctx, cond, out)
    yield "make", show(f)
    g, _ = zoo.make_gaussian(ctx, list(out))
    h = f.multiply(g)
    yield "multiply", show(h)
    yield "joint", show(h.joint_distribution)
    yield "marginalize", show(h.marginalize(list(cond), keep=True))
    r = h.reduce([out[0]], [0.4])
    yield "reduce", show(r.joint_distribution) if len(out) > 1 or cond else None
    yield "divide", show(h.divide(g))
    yield "end", show(f)


def p_graph(ctx, build, queries):
    rng = ctx.rng
    cg = build()
    if cg is None:
        raise core.Reject()
    ps = graphs.sorted_paths(cg)
    forest = graphs.is_forest(cg)

    def state():
        return [[[c.cluster_id, sorted(c.neighbour_ids), show_factor(c.factor)] for c in graphs.clusters(cg)],
                [[list(graphs.edge_key(p)), str(p.next_information_gain)] for p in ps]]
    yield "build", state()
    for _ in range(int(rng.integers(1, 6)) if ps else 0):
        ps[int(rng.integers(len(ps)))].pass_next_message()
        yield "deliver", state()
    if rng.random() < 0.5:
        yield "query", queries(cg)
    if forest:
        cg.process_graph(tol=0.0, max_iter=1)
        yield "process", [queries(cg), len(cg.sync_message_passing_max_distances) > 0]
        cg.process_graph(tol=0.0, max_iter=len(ps) + 4)
        yield "process", queries(cg)
    yield "end", queries(cg)


def show_factor(f):
    try:
        return show(f)
    except TypeError:
        return str(sorted(f.var_names))


def p_dgraph(ctx, pool):
    m = models.discrete(ctx, str(ctx.rng.choice(["dense", "sparse"])), loopy=bool(ctx.rng.random() < 0.25), zero=0.0, size=5, hi=3, pool=pool
                        if ctx.rng.random() < 0.5 else None)
    if m is None:
        raise core.Reject()
    every = sorted({v for t in m.tabs for v in t.names} - set(m.evidence))
    yield from p_graph(ctx, m.graph, lambda cg: [show(cg.get_marginal([v]).normalize()) for v in every])


def p_ggraph(ctx, pool):
    m = models.gaussian(ctx, loopy=False, size=5)
    if m is None:
        raise core.Reject()
    every = sorted({v for g in m.grefs for v in g.names} - set(m.evidence))
    yield from p_graph(ctx, m.graph, lambda cg: [show(cg.get_marginal([v])) for v in every])


def p_ngraph(ctx, pool):
    """A chain of non-linear Gaussians with special evidence."""
    from veroku.cluster_graph import ClusterGraph
    from veroku.factors.experimental.nonlinear_gaussian import NonLinearGaussian

    rng = ctx.rng
    n = int(rng.integers(2, 4))
    nms = pool[:n]
    prior, _ = zoo.make_gaussian(ctx, [nms[0]])
    facs, ev = [prior], {}
    for a, b in zip(nms, nms[1:]):
        tr = zoo.Transform(str(rng.choice(["linear", "sin", "tanh"])), rng.normal(0, 1, (1, 1)), rng.normal(0, 1, 1))
        facs.append(NonLinearGaussian([a], [b], tr, gen.spd(rng, 1)))
    ev = {nms[-1]: float(rng.normal())}
    given = dict(ev)
    cg = ClusterGraph(facs, special_evidence=given, disable_tqdm=True)
    yield "build", [c.cluster_id for c in graphs.clusters(cg)]
    for k in range(3):
        cg.process_graph(tol=1e-9, max_iter=2)
        yield "process", [show(cg.get_marginal([v])) for v in nms[:-1]]
    yield "end", given


def p_template(ctx, pool):
    from veroku.factors.categorical import CategoricalTemplate
    from veroku.factors.gaussian import GaussianTemplate

    rng = ctx.rng
    logs = np.log(rng.dirichlet([1] * 4).reshape(2, 2))
    t = CategoricalTemplate(var_templates=["a_{i}", "b_{j}"], log_probs_tensor=logs)
    cov = gen.spd(rng, 2)
    g = GaussianTemplate({"prec": cov, "h": rng.normal(size=(2, 1)), "g": 0.0}, ["x_{i}", "x_{j}"])
    yield "make", None
    for _ in range(3):
        d = dict(i=int(rng.integers(5)), j=int(rng.integers(5, 9)))
        yield "categorical", show(t.make_factor(format_dict=d))
        yield "gaussian", show(g.make_factor(format_dict=d))


def p_views(ctx, pool):
    rng = ctx.rng
    cds = gen.cards(rng, pool, hi=3)
    things = [zoo.make_gaussian(ctx, gen.subset(rng, pool, 1, 3))[0], zoo.make_dense(ctx, gen.subset(rng, pool, 1, 2), cds)[0],
              zoo.make_sparse(ctx, gen.subset(rng, pool, 1, 2), cds)[0], zoo.make_gm(ctx, gen.subset(rng, pool, 1, 2))[0],
              zoo.make_ff(ctx, pool[:3], n=2)[0]]
    if rng.random() < 0.5:
        things.append(zoo.make_nlg(ctx, [pool[0]], [pool[1]])[0])
    yield "make", None
    for f in [things[int(i)] for i in rng.integers(len(things), size=5)]:
        out = io.StringIO()
        how = str(rng.choice(["show", "repr", "str"]))
        with contextlib.redirect_stdout(out):
            if how == "show":
                f.show()
            elif type(f).__name__ in ("Gaussian", "Categorical", "SparseCategorical"):
                print(repr(f) if how == "repr" else str(f))
        text = out.getvalue()
        yield "view", text if " at 0x" not in text else ""
    if rng.random() < 0.15:
        import matplotlib.pyplot as plt

        g = zoo.make_gaussian(ctx, pool[:1])[0]
        g.plot(log=bool(rng.random() < 0.5))
        y = np.concatenate([line.get_ydata() for line in plt.gca().lines])
        plt.close("all")
        yield "view", np.asarray(y, float)


def p_reject(ctx, pool):
    """Invalid calls, whose rejection must not leave anything behind."""
    rng = ctx.rng
    cds = gen.cards(rng, pool[:3], hi=3)
    t, _ = zoo.make_dense(ctx, pool[:3], cds)
    s, _ = zoo.make_sparse(ctx, pool[:2], cds)
    g, _ = zoo.make_gaussian(ctx, pool[:3])
    calls = [lambda: t.reduce(["no such variable"], [0]), lambda: t.marginalize(["no such variable"], keep=True),
             lambda: t.multiply(s), lambda: s.reduce([pool[0]], [cds[pool[0]] + 3]), lambda: g.reduce(["no such variable"], [1.0]),
             lambda: g.marginalize(["no such variable"], keep=True), lambda: g.multiply(t), lambda: s.multiply(g),
             lambda: t.kl_divergence(t.marginalize(pool[:1], keep=True))]
    for i in rng.integers(len(calls), size=4):
        try:
            calls[int(i)]()
            what = "accepted"
        except Exception as exc:  # pylint: disable=broad-except
            what = type(exc).__name__
        yield "reject", [what, show(t), show(s), show(g)]
    yield "valid", [show(t.normalize()), show(s.marginalize(pool[:1], keep=True)), show(g.normalize())]


def p_sample(ctx, pool):
    rng = ctx.rng
    things = [zoo.make_gaussian(ctx, gen.subset(rng, pool, 1, 3))[0], zoo.make_gm(ctx, gen.subset(rng, pool, 1, 2))[0],
              zoo.make_nlg(ctx, [pool[0]], [pool[1]])[0]]
    yield "make", None
    for f in [things[int(i)] for i in rng.integers(3, size=3)]:
        np.random.seed(int(rng.integers(1 << 30)))
        yield "sample", np.asarray(f.sample(int(rng.integers(1, 20))))


PROGRAMS = dict(table=p_table, sparse=p_sparse, gaussian=p_gaussian, mixture=p_mixture, ff=p_ff, nlg=p_nlg, dgraph=p_dgraph, ggraph=p_ggraph,
                ngraph=p_ngraph, template=p_template, views=p_views, reject=p_reject, sample=p_sample)


# ------------------------------------------------------------------------------------------------------------------- the state
def process_state(rng_too=True):
    import matplotlib

    s = {"numpy.geterr": np.geterr(), "numpy.geterrcall": np.geterrcall(), "numpy.printoptions": np.get_printoptions(),
         "warnings.filters": list(warnings.filters), "cwd": os.getcwd(), "environ": dict(os.environ), "recursionlimit": sys.getrecursionlimit(),
         "sys.path": list(sys.path), "stdout": id(sys.stdout), "rcParams": dict(matplotlib.rcParams), "float": sys.float_info.epsilon,
         "threads": [t.name for t in threading.enumerate() if "tqdm" not in type(t).__module__]}
    if rng_too:
        st = np.random.get_state()
        s["numpy.random"] = (st[0], st[1].tobytes(), st[2], st[3], st[4])
    return s


def state_check(ctx, before, what, rng_too=True):
    after = process_state(rng_too)
    ctx.count("state_checks")
    for k, v in after.items():
        if k in before:
            ctx.check(before[k] == v, "process-state:" + k, lambda: f"{what}: {k} was {str(before[k])[:300]} is {str(v)[:300]}")


# ------------------------------------------------------------------------------------------------------------------- the cases
class Run:
    """One program, run step by step."""

    def __init__(self, ctx, slot, sampling):
        self.ctx, self.slot = ctx, slot
        self.gen = program(ctx.seed, ctx.idx, slot, sampling)
        self.out, self.done, self.busy, self.last = [], False, False, ""

    def step(self):
        """False when the program has ended."""
        self.busy = True
        try:
            self.last, x = next(self.gen)
            self.out.append(plain(x))
        except StopIteration:
            self.done = True
        except core.Reject:
            self.done = True
            self.out = None
        except Exception as exc:  # pylint: disable=broad-except
            self.done = True
            self.out.append(raised(exc))
            self.ctx.count("raised_" + type(exc).__name__)
        finally:
            self.busy = False
        return not self.done


def case(ctx):
    rng = ctx.rng
    mode = str(rng.choice(["sequence", "interleaved", "preempted", "threads"], p=[.2, .25, .3, .25]))
    sampling = mode in ("sequence", "interleaved")
    k = int(rng.integers(2, 5))
    runs = [Run(ctx, i, sampling) for i in range(k)]
    old_err, old_print = np.geterr(), np.get_printoptions()
    if rng.random() < 0.6:
        np.seterr(all="warn")
    if rng.random() < 0.6:
        np.set_printoptions(precision=int(rng.integers(5, 12)), linewidth=int(rng.integers(60, 200)), edgeitems=int(rng.integers(2, 6)))
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            order = {"sequence": sequence, "interleaved": interleaved, "preempted": preempted, "threads": threads}[mode](ctx, runs)
    finally:
        np.seterr(**old_err)
        np.set_printoptions(**old_print)
    ctx.count("mode_" + mode)
    kinds = []
    for r in runs:
        if r.out is None:
            continue
        lone = ZYGOTE[0].ask(ctx.seed, ctx.idx, r.slot, sampling)
        ctx.count("lone_runs")
        kinds.append(r.out[0])
        if r.out[0].endswith("graph"):
            ctx.count("graph_programs")
        if lone is None:
            ctx.check(False, "rejected-alone", f"program {r.slot} {r.out[:1]}")
            continue
        if lone and isinstance(lone[-1], list) and lone[-1] and lone[-1][0] == "error":
            raise AssertionError(lone[-1])
        count = [0]
        for i, (x, y) in enumerate(zip(r.out, lone)):
            if not ctx.check(alike(x, y, count), f"{mode}:{r.out[0]}",
                             lambda: f"step {i} of program {r.slot} (with {[q.out and q.out[0] for q in runs]}, order {order})\n"
                                     f"together {str(x)[:1200]}\nalone    {str(y)[:1200]}"):
                break
        else:
            ctx.check(len(r.out) == len(lone), f"{mode}:{r.out[0]}-length", lambda: f"{r.out[-1]} / {lone[-1]}")
        ctx.count("compared_numbers", count[0])
    if len(kinds) > 1:
        ctx.sig(kinds, mode, order)
        ctx.seen("orders_" + mode, kinds, order)
        ctx.sample(f"{mode} {kinds} {order}")


def one(ctx, r):
    """A monitored step."""
    before = process_state()
    r.step()
    ctx.count("steps")
    if r.last == "view":
        ctx.count("view_steps")
    if r.last == "reject":
        ctx.count("rejections")
    if r.last == "sample":
        ctx.count("samples")
        before = {k: v for k, v in before.items() if k != "numpy.random"}
    state_check(ctx, before, f"program {r.slot} {r.out and r.out[0]} step {r.last}")


def sequence(ctx, runs):
    order = []
    for r in [runs[int(i)] for i in ctx.rng.permutation(len(runs))]:
        while not r.done:
            one(ctx, r)
        order.append(r.slot)
    return order


def interleaved(ctx, runs):
    order = []
    while any(not r.done for r in runs):
        live = [r for r in runs if not r.done]
        r = live[int(ctx.rng.integers(len(live)))]
        for _ in range(int(ctx.rng.integers(1, 4))):
            if not r.done:
                one(ctx, r)
                order.append(r.slot)
    return order


def preempted(ctx, runs):
    """Steps of the other programs are run at calls inside veroku, in the middle of a step."""
    rng = ctx.rng
    order = []
    prob = float(rng.choice([0.01, 0.05, 0.3]))
    root = os.path.join(core.REPO, "veroku")
    transform = zoo.Transform.__call__.__code__

    def profile(frame, event, _arg):
        here = frame.f_code.co_filename.startswith(root) or frame.f_code is transform
        if event == "call" and here and rng.random() < prob:
            others = [r for r in runs if not r.done and not r.busy]
            if others:
                r = others[int(rng.integers(len(others)))]
                order.append((r.slot, frame.f_code.co_name))
                ctx.count("preemptions")
                ctx.count("steps")
                r.step()

    before = process_state()
    while any(not r.done for r in runs):
        live = [r for r in runs if not r.done]
        r = live[int(rng.integers(len(live)))]
        order.append(r.slot)
        sys.setprofile(profile)
        try:
            r.step()
        finally:
            sys.setprofile(None)
        ctx.count("steps")
    state_check(ctx, before, "pre-empted " + str([r.out and r.out[0] for r in runs]))
    return order


def threads(ctx, runs):
    """Real threads with very short time slices."""
    order, count = [], [0]
    barrier = threading.Barrier(len(runs))
    err = np.geterr()

    def work(r):
        np.seterr(**err)
        barrier.wait()
        while r.step():
            order.append(r.slot)
            count[0] += 1

    ts = [threading.Thread(target=work, args=(r,)) for r in runs]
    before = process_state()
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    # catch_warnings is not made for threads (python's documentation): its effects on the filters are not judged
    filters = list(warnings.filters)
    try:
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
        warnings.filters[:] = filters
        warnings._filters_mutated()  # pylint: disable=protected-access
    ctx.count("steps", len(order))
    ctx.count("thread_switches", sum(a != b for a, b in zip(order, order[1:])))
    state_check(ctx, before, "threads " + str([r.out and r.out[0] for r in runs]))
    return order


if __name__ == "__main__":
    zygote_main()
