"""C27: propagation never excludes possible values nor readmits impossible ones."""
import itertools

import numpy as np

from vmon import core, gen, graphs, models, refs

NUM = 27
RULE = ("state invariant monitor: constraint models with hard zeros (satisfiable by construction), trees and loops, dense and sparse, "
        "evidence; after every delivered message the zero pattern of the receiving belief (and regularly of all beliefs) is compared "
        "with the exact posterior support from brute-force elimination and with the potential's own zeros; on forests the patterns "
        "must be equal at convergence; non-trivial: hard zeros that exclude something; distinct by scopes, pattern and schedule")
COUNTS = {"quick": 1800, "thorough": 60000}
REQUIRED = {"messages": 12000, "patterns": 12000, "loopy_graphs": 250, "sparse_graphs": 400, "converged_patterns": 1500,
            "excluded_values": 3000, "forests": 400, "processed_graphs": 400, "tiny_potentials": 300}


def case(ctx):
    rng = ctx.rng
    cls = str(rng.choice(["dense", "sparse"]))
    loopy = rng.random() < 0.5
    model = constraint_model(ctx, cls, loopy)
    cg = model.graph()
    forest = graphs.is_forest(cg)
    ctx.count("loopy_graphs", int(not forest))
    ctx.count("forests", int(forest))
    ctx.count("sparse_graphs", int(cls == "sparse"))
    joint = model.joint()
    support = {}
    potential = {}
    for c in graphs.clusters(cg):
        vs = list(c.var_names)
        support[c.cluster_id] = joint.marg(vs) if vs else None
        potential[c.cluster_id] = graphs.read(c.factor)
    excluded = sum(int(((s.logs == refs.NEG) & (potential[k].order(s.names).logs > refs.NEG)).sum()) for k, s in support.items() if s)
    ctx.count("excluded_values", excluded)
    state = dict(ctx=ctx, cg=cg, model=model, support=support, potential=potential, n=0)
    if not inspect(state, graphs.clusters(cg)):
        return
    ps = graphs.paths(cg)
    if not ps:
        exact(state)
        return
    if rng.random() < 0.5:
        from veroku._cg_helpers._cluster import Cluster

        original = Cluster.__dict__["receive_message"]
        mine = {id(c) for c in graphs.clusters(cg)}
        failed = []

        def receive_message(self, message, *args, **kwargs):
            res = original(self, message, *args, **kwargs)
            if id(self) in mine and not failed:
                ctx.count("messages")
                state["n"] += 1
                if not inspect(state, [self]):
                    failed.append(1)
            return res
        Cluster.receive_message = receive_message
        try:
            ctx.count("processed_graphs")
            fine = graphs.process(ctx, cg, tol=float(rng.choice([1e-3, 1e-8, 0.0])), max_iter=6)
        finally:
            Cluster.receive_message = original
        if failed or not fine:
            return
    else:
        ok = []

        def hook(path):
            state["n"] += 1
            good = inspect(state, [path.receiver_cluster]) and not (state["n"] % 25 == 0 and graphs.blown_up(cg))
            ok.append(good)
            return good
        graphs.random_schedule(ctx, cg, int(rng.integers(3, 10 * len(ps))), hook)
        if not ok[-1] and state["n"] % 25:
            return
        if graphs.blown_up(cg):
            ctx.count("loopy_scale_out_of_domain")
            return
    if not inspect(state, graphs.clusters(cg)):
        return
    if forest:
        # any schedule in which everybody has heard everybody
        for _ in range(len(ps) + 1):
            for p in graphs.sorted_paths(cg):
                p.pass_next_message()
        exact(state)
    if excluded:
        ctx.sig(cls, [t.names for t in model.tabs], [np.isneginf(t.logs).tolist() for t in model.tabs], sorted(model.evidence), state["n"])
    ctx.sample(f"{cls} after {state['n']} messages, {excluded} joint values excluded by propagation\n{graphs.describe(cg)}")


def constraint_model(ctx, cls, loopy):
    """Tables with many zeros around hidden solutions."""
    rng = ctx.rng
    if loopy:
        scopes, _ = gen.loopy_scopes(rng, int(rng.integers(3, 7)), int(rng.integers(3, 7)), 3, None, min_scope=2)
    else:
        scopes = gen.perm(rng, gen.forest_scopes(rng, int(rng.integers(1, 8)), 3, 1 if rng.random() < 0.8 else 2, None, 0.25))
    allv = sorted({v for s in scopes for v in s})
    cds = gen.cards(rng, allv, hi=3 if len(allv) > 7 else 4)
    if np.prod([float(c) for c in cds.values()]) > 40000:
        raise core.Reject()
    solutions = [{v: int(rng.integers(cds[v])) for v in allv} for _ in range(int(rng.integers(1, 4)))]
    zero = float(rng.choice([0.3, 0.5, 0.7, 0.85]))
    style = str(rng.choice(["random", "equal", "different", "mixed"]))
    tiny = float(rng.choice([-800.0, -2000.0, -60.0])) if rng.random() < 0.3 else 0.0
    ctx.count("tiny_potentials", int(tiny < 0))
    tabs, facs = [], []
    for s in scopes:
        shape = [cds[v] for v in s]
        logs = gen.log_table(rng, shape, 0.0, str(rng.choice(["normal", "uniform", "dup"])))
        if tiny:  # possible, but with hardly any mass
            logs = logs + tiny * (rng.random(shape) < float(rng.choice([0.2, 0.7, 1.0])))
        for a in itertools.product(*map(range, shape)):
            st = style if style != "mixed" else str(rng.choice(["random", "equal", "different"]))
            if st == "equal":
                out = len(set(a)) > 1 and rng.random() < 0.9
            elif st == "different":
                out = len(a) > 1 and len(set(a)) < len(a) and rng.random() < 0.9
            else:
                out = rng.random() < zero
            if out and not any(all(sol[v] == x for v, x in zip(s, a)) for sol in solutions):
                logs[a] = refs.NEG
        t = refs.Tab(s, logs)
        tabs.append(t)
        # sparse: the zeros are either the default or listed
        facs.append(models.make_factor(ctx, cls, t, refs.NEG if cls == "sparse" else None))
    ev = {}
    if rng.random() < 0.4:
        for v in gen.subset(rng, allv, 1, 2):
            ev[v] = solutions[0][v]
    return models.Discrete(cls, tabs, facs, ev, cds, acyclic=not loopy)


def inspect(state, clusters):
    """Soundness at the present moment."""
    ctx = state["ctx"]
    for c in clusters:
        ctx.count("patterns")
        b = graphs.read(c.factor)
        true = state["support"][c.cluster_id]
        if true is None:
            continue
        true = true.order(b.names)
        pot = state["potential"][c.cluster_id].order(b.names)

        def info():
            return (f"{c.cluster_id} after {state['n']} messages\nbelief {refs.fmt(b)}\ntrue posterior {refs.fmt(true)}\n"
                    f"{graphs.describe(state['cg'])}\n{state['model'].describe()}")
        if not ctx.check(not np.isnan(b.logs).any(), "nan", info):
            return False
        if not ctx.check(not np.isposinf(b.logs).any(), "infinite", info):
            return False
        possible = true.logs > refs.NEG
        if not ctx.check(not (possible & (b.logs == refs.NEG)).any(), "possible-value-excluded", info):
            return False
        if not ctx.check(not ((pot.logs == refs.NEG) & (b.logs > refs.NEG)).any(), "impossible-value-readmitted", info):
            return False
        ctx.seen("patterns", c.cluster_id, (b.logs == refs.NEG).tolist())
    return True


def exact(state):
    """On a forest at convergence the zero pattern is exact."""
    ctx = state["ctx"]
    for c in graphs.clusters(state["cg"]):
        true = state["support"][c.cluster_id]
        if true is None:
            continue
        b = graphs.read(c.factor)
        ctx.count("converged_patterns")
        true = true.order(b.names)
        if not ctx.check(((true.logs == refs.NEG) == (b.logs == refs.NEG)).all(), "pattern-not-exact", lambda: f"{c.cluster_id}\nbelief "
                         f"{refs.fmt(b)}\ntrue {refs.fmt(true)}\n{graphs.describe(state['cg'])}\n{state['model'].describe()}"):
            return
        vs = list(c.var_names)
        q = gen.subset(ctx.rng, vs, 1, 2)
        got, want = graphs.read(state["cg"].get_marginal(q)), true.marg(q)
        want = want.order(got.names)
        ctx.check(((got.logs == refs.NEG) == (want.logs == refs.NEG)).all() and not np.isnan(got.logs).any(), "marginal-pattern",
                  lambda: f"{q} {refs.fmt(got)} true {refs.fmt(want)}")
        norm = graphs.read(state["cg"].get_marginal(q).normalize()).order(got.names)
        ctx.check(((norm.logs == refs.NEG) == (want.logs == refs.NEG)).all() and not np.isnan(norm.logs).any(), "normalised-pattern",
                  lambda: f"{q} {refs.fmt(norm)} true {refs.fmt(want)}")
