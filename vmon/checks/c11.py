"""C11: inference is exact for discrete models on tree-structured graphs."""
import numpy as np

from vmon import gen, graphs, models, refs

NUM = 11
RULE = ("real process_graph / message sweeps on generated forest models (trees, stars, HMM chains, several components, nested and "
        "duplicate scopes, deterministic tables, evidence), all queryable marginals compared with variable elimination; non-trivial: "
        "at least one message; distinct by structure, cardinalities, evidence and delivered message sequence")
COUNTS = {"quick": 1800, "thorough": 60000}
REQUIRED = {"forests": 1100, "marginals": 9000, "zero_models": 500, "chains": 200, "prefixed_schedules": 200, "sweeps": 200,
            "masses": 800, "evidence_models": 400, "multi_component": 40, "sparse_models": 300, "queries_in_other_order": 500}


def chain(ctx, cls, zero):
    """HMM: hidden chain with emissions, observations as evidence."""
    rng = ctx.rng
    n = int(rng.integers(3, 26 if ctx.thorough else 13))
    k, e = int(rng.integers(2, 4)), int(rng.integers(2, 4))
    base = gen.names(rng, 2, 0)
    hid = [f"{base[0]}{i}" for i in range(n)]
    obs = [f"{base[1]}{i}" for i in range(n)]
    kind = str(rng.choice(["normal", "uniform"]))
    trans = gen.log_table(rng, (k, k), zero, kind)
    emit = gen.log_table(rng, (k, e), zero, kind)
    tabs = [refs.Tab([hid[0]], gen.log_table(rng, (k,), 0, kind))]
    for i in range(n):
        if i:
            t = refs.Tab([hid[i - 1], hid[i]], trans)
            tabs.append(t.order(gen.perm(rng, t.names)))
        t = refs.Tab([hid[i], obs[i]], emit)
        tabs.append(t.order(gen.perm(rng, t.names)))
    tabs = gen.perm(rng, tabs)
    facs = [models.make_factor(ctx, cls, t) for t in tabs]
    p_obs = float(rng.choice([0.0, 0.5, 1.0]))
    ev = {o: int(rng.integers(e)) for o in gen.perm(rng, obs) if rng.random() < p_obs}
    cards = {v: c for t in tabs for v, c in t.cards.items()}
    m = models.Discrete(cls, tabs, facs, ev, cards, True)
    if models.eliminate(m.reduced(), []).logs == refs.NEG:
        return None
    ctx.count("chains")
    return m


def case(ctx):
    rng = ctx.rng
    cls = str(rng.choice(["dense", "dense", "sparse"]))
    zero = float(rng.choice([0.0, 0.15, 0.4]))
    must = False
    if rng.random() < 0.2:
        model, must = chain(ctx, cls, zero), True
    else:
        nested = 0.0 if rng.random() < 0.5 else 0.35
        model = models.discrete(ctx, cls, zero=zero, size=9 if not ctx.thorough else 14, max_scope=int(rng.integers(2, 5)),
                                hi=3, p_nested=nested, evidence=0.3, long=0.06)
        must = nested == 0.0
    if model is None:
        ctx.count("rejected_models")
        return
    check_exact(ctx, model, cls, zero, must)


def check_exact(ctx, model, cls, zero, must):
    rng = ctx.rng
    with graphs.recording() as events:
        cg = model.graph()
        forest = graphs.is_forest(cg)
        if not (forest or must):
            ctx.count("not_a_forest")
            return
        ctx.count("forests")
        ctx.count("zero_models", int(zero > 0))
        ctx.count("evidence_models", int(bool(model.evidence)))
        ctx.count("sparse_models", int(cls == "sparse"))
        comps = graphs.components(cg)
        ctx.count("multi_component", int(len([c for c in comps if len(c) > 1]) > 1))
        n = len(graphs.clusters(cg))
        mode = int(rng.integers(4))
        tol = float(rng.choice([0.0, 1e-15]))
        full = False
        if not graphs.current_marginals(ctx, cg, p=0.4):
            return
        if mode == 0:  # repeated sweeps in a random order of paths
            ctx.count("sweeps")
            for _ in range(n):
                for p in gen.perm(rng, graphs.sorted_paths(cg)):
                    p.pass_next_message()
            full = True
        elif mode == 1:
            ctx.count("prefixed_schedules")
            graphs.random_schedule(ctx, cg, int(rng.integers(1, 2 * n + 2)))
            if not graphs.current_marginals(ctx, cg, p=0.4):
                return
            cg.process_graph(tol=tol, max_iter=n + 8)
        elif mode == 2 and n > 1:
            cg.process_graph(tol=1e-2, max_iter=2)
            if not graphs.current_marginals(ctx, cg, p=0.4):
                return
            cg.process_graph(tol=tol, max_iter=n + 8)
        else:
            cg.process_graph(tol=tol, max_iter=n + 8)
        ctx.count("messages", len(events.log))
    reduced = model.reduced()

    def info():
        return (f"{model.describe()}\n{graphs.describe(cg)}\nmode {mode} tol {tol}\n"
                f"{[(s, r) for s, r, _ in events.log][-12:]}")
    observed = set(model.evidence)
    for c in graphs.clusters(cg):
        scope = list(c.var_names)
        queries = [[v] for v in gen.perm(rng, scope)[:2]] + ([gen.subset(rng, scope, 1)] if len(scope) > 1 else [])
        if c is not graphs.clusters(cg)[0] and rng.random() < 0.4:
            queries = queries[:1]
        for q in queries:
            before = list(q)
            got = graphs.read(cg.get_marginal(q))
            ctx.count("marginals")
            ctx.count("queries_in_other_order", int(len(q) > 1 and q != [v for v in scope if v in q]))
            want = models.eliminate(reduced, q)
            if not ctx.check(q == before and list(got.names) == before and exact(got, want), "marginal", lambda: info() +
                             f"\nquery {before}\ngot {refs.fmt(got)}\nwanted {refs.fmt(want)}"):
                return
        # every cluster's own belief, not only the one a query happens to find
        if np.prod(c.factor.cardinalities if scope else [1]) <= 200:
            want = models.eliminate(reduced, scope)
            got = graphs.read(c.factor)
            ctx.count("beliefs")
            if not ctx.check(exact(got, want), "cluster-belief", lambda: info() + f"\ncluster {c.cluster_id}\ngot {refs.fmt(got)}\n"
                             f"wanted {refs.fmt(want)}"):
                return
    if full:
        for comp in comps:
            vrs = {v for c in comp for v in c.var_names}
            if not vrs:
                continue
            z = models.eliminate([t for t in reduced if set(t.names) & vrs], []).logs
            # scalars (fully observed factors) are absorbed somewhere; compare the total over the components below
            for c in comp:
                ctx.count("masses")
                got = graphs.read(c.factor).log_mass()
                others = [t for t in reduced if not t.names]
                ok = refs.logs_close([got], [float(z)], 1e-7, 1e-7) or bool(others)
                ctx.check(ok, "mass", lambda: info() + f"\ncluster {c.cluster_id} mass {got} expected {z}")
        total = sum(graphs.read(comp[0].factor).log_mass() for comp in comps)
        want = float(models.eliminate(reduced, []).logs)
        ctx.check(refs.logs_close([total], [want], 1e-7, 1e-7), "total-mass", lambda: info() + f"\n{total} expected {want}")
    if events.log:
        ctx.sig(cls, sorted(map(sorted, graphs.edges(cg))), sorted(model.cards.items()), sorted(model.evidence.items()),
                [(s, r) for s, r, _ in events.log])
    ctx.seen("schedules", [(s, r) for s, r, _ in events.log])
    ctx.sample(info())


def exact(got, want):
    """Proportional in the probability domain, same zeros, and close in the log domain where not negligible."""
    if set(got.names) != set(want.names) or np.isnan(got.logs).any() or not np.isfinite(got.log_mass()):
        return False
    g, w = got.order(want.names).norm().logs, want.norm().logs
    if not np.array_equal(g == refs.NEG, w == refs.NEG):
        return False
    fin = w > -18
    return bool(np.all(np.abs(np.exp(g) - np.exp(w)) <= 1e-6) and np.all(np.abs(g[fin] - w[fin]) <= 1e-3 + 1e-6))
