"""C14: converged graphs are calibrated."""
import numpy as np

from vmon import core, graphs, models, refs

NUM = 14
RULE = ("fixed-point monitor on real graphs (tree and loopy, dense, sparse, Gaussian) that stopped by tolerance: separator marginals of "
        "adjacent clusters, single-variable marginals of all clusters containing a variable, and beliefs after further messages; "
        "non-trivial: converged with at least one edge; distinct by edges, class and number of messages")
COUNTS = {"quick": 1800, "thorough": 45000}
REQUIRED = {"converged": 900, "loopy_converged": 150, "separators": 2500, "variable_pairs": 2500, "further_messages": 1500,
            "gaussian_converged": 150, "zero_models": 150}


def case(ctx):
    rng = ctx.rng
    if ctx.idx == 0:
        graphs.loopy_scale_finding(ctx)
    kind = str(rng.choice(["dense", "dense", "sparse", "gaussian"]))
    loopy = rng.random() < 0.5
    zero = 0.0
    if kind == "gaussian":
        model = models.gaussian(ctx, loopy=loopy, size=8, strength=0.2 if loopy else 1.0, linear=False if loopy else None, long=0.05)
        j = model.joint()
        if j.names and np.linalg.eigvalsh(j.K)[0] < 1e-3:
            raise core.Reject()
    else:
        zero = float(rng.choice([0.0, 0.0, 0.25]))
        model = models.discrete(ctx, kind, loopy=loopy, zero=zero, size=9, hi=3, evidence=0.2, long=0.05, kinds=["uniform", "dup", "normal"])
    if model is None:
        raise core.Reject()
    cg = model.graph()
    tol = float(rng.choice([1e-8, 1e-10, 1e-12]))
    if rng.random() < 0.25:
        graphs.random_schedule(ctx, cg, int(rng.integers(1, 6)))
    before = cg.num_messages_passed
    if not graphs.process(ctx, cg, tol=tol, max_iter=25):
        return
    if not graphs.paths(cg):
        ctx.count("no_paths")
        return
    if cg.num_messages_passed - before < 25 * len(graphs.paths(cg)) and cg.sync_message_passing_max_distances:
        # it stopped because of the tolerance
        last = cg.sync_message_passing_max_distances[-1]
        if not ctx.check(last <= tol, "stopped-above-tolerance", lambda: f"{kind} tol {tol} last {last} messages {cg.num_messages_passed}\n"
                         f"{model.describe()}\n{graphs.describe(cg)}"):
            return
    if not cg.sync_message_passing_max_distances or not cg.sync_message_passing_max_distances[-1] <= tol:
        ctx.count("not_converged")
        return
    tree = graphs.is_forest(cg)
    ctx.count("converged")
    ctx.count("loopy_converged", int(not tree))
    ctx.count("gaussian_converged", int(kind == "gaussian"))
    ctx.count("zero_models", int(zero > 0))

    def info():
        return f"{kind} tol {tol} messages {cg.num_messages_passed}\n{model.describe()}\n{graphs.describe(cg)}"
    bel = graphs.beliefs(cg)
    slack = {}
    for p in graphs.paths(cg):
        s = _slack(p, tol)
        k = frozenset(graphs.edge_key(p))
        slack[k] = slack.get(k, 0.0) + s
    worst = 2 * max(slack.values())
    for key, views in graphs.edges(cg).items():
        if slack[key] > 0.2:
            ctx.count("separators_not_judged")
            continue
        a, b = sorted(key)
        sep = views[0][2]
        ctx.count("separators")
        x, y = bel[a].marg(sep), bel[b].marg(sep)
        if not ctx.check(_agree(x, y, 4 * slack[key]), "separator-marginals-differ", lambda: info() + f"\n{a}: {graphs.fmt(x)}\n{b}: "
                         f"{graphs.fmt(y)} slack {slack[key]}"):
            return
        # the public answers
        if a.split("#", 1)[0] == "c0":
            got = graphs.read(cg.get_marginal(sep))
            ctx.check(_agree(got, y, 4 * worst * len(slack)) or worst > 0.05, "queried-separator-marginal", info)
    n_edges = len(slack)
    if worst * n_edges < 0.05:
        clusters = graphs.clusters(cg)
        hidden = {v for c in clusters for v in c.var_names}
        for v in sorted(hidden):
            own = [c for c in clusters if v in c.var_names]
            for c in own[1:]:
                ctx.count("variable_pairs")
                x, y = bel[own[0].cluster_id].marg([v]), bel[c.cluster_id].marg([v])
                if not ctx.check(_agree(x, y, 4 * worst * n_edges), "variable-marginals-differ", lambda: info() +
                                 f"\n{own[0].cluster_id}: {graphs.fmt(x)}\n{c.cluster_id}: {graphs.fmt(y)}"):
                    return
        # further messages change nothing
        for k in range(int(rng.integers(1, 4))):
            p = graphs.sorted_paths(cg)[int(rng.integers(len(graphs.paths(cg))))]
            p.pass_next_message()
            ctx.count("further_messages")
            now = graphs.beliefs(cg)
            ok = all(_agree(bel[i], now[i], 4 * worst * n_edges * (k + 1)) for i in bel if bel[i].names)
            if not ctx.check(ok, "further-message-changed-belief", lambda: info() + f"\nmessage along {graphs.edge_key(p)}"):
                return
    ctx.sig(kind, sorted(map(sorted, graphs.edges(cg))), cg.num_messages_passed)
    ctx.seen("message_counts", cg.num_messages_passed, n_edges)
    ctx.sample(info())


def _slack(p, tol):
    """How much a message can still change (relative, per value) while its information gain is at most tol."""
    m = graphs.read(p.next_message.factor)
    if isinstance(m, refs.GRef):
        return np.sqrt(4 * tol) + 1e-7
    prob = np.exp(m.norm().logs)
    prob = prob[prob > 0]
    return float(np.sqrt(4 * tol / prob.min())) + 1e-9 if prob.size else 1.0


def _agree(x, y, slack):
    if isinstance(x, refs.GRef):
        if not x.names:
            return True
        y = y.order(x.names)
        if not (x.proper() and y.proper()):
            return False
        cx, cy = x.covariance(), y.covariance()
        s = np.sqrt(np.maximum(np.diag(cx), np.diag(cy)))
        dm = np.abs(x.mean() - y.mean()) / s
        dc = np.abs(cx - cy) / np.outer(s, s)
        t = max(slack * 10, 1e-5) * (1 + np.abs(x.mean()).max() * 1e-3)
        return bool(dm.max() <= t and dc.max() <= t)
    if set(x.names) != set(y.names) or np.isnan(x.logs).any() or np.isnan(y.logs).any():
        return False
    if not (np.isfinite(x.log_mass()) and np.isfinite(y.log_mass())):
        return False
    p, q = np.exp(x.norm().logs), np.exp(y.order(x.names).norm().logs)
    return bool(np.abs(p - q).max() <= slack + 1e-8)
