"""C25: all ways of entering evidence are equivalent."""
import numpy as np

from vmon import core, gen, graphs, models, refs, zoo

NUM = 25
RULE = ("differential runs of one forest model with the same observations entered in different ways (constructor evidence, factors reduced "
        "or observed beforehand in any order and split, indicator tables, special evidence, and mixtures of these); every marginal of the "
        "unobserved variables is compared with exact elimination, so pairwise too; monitors on separators, queries and inputs; "
        "non-trivial: something is observed and something is not; distinct by scopes, observed set and entry of each observation")
COUNTS = {"quick": 1400, "thorough": 50000}
REQUIRED = {"runs": 2500, "marginals": 8000, "ways_evidence": 500, "ways_reduced": 500, "ways_indicator": 300, "ways_special": 500,
            "ways_mixed": 500, "observed_in_several_factors": 300, "whole_factors": 300, "foreign_evidence": 300, "gaussian_runs": 500,
            "separators": 3000, "evidence_reused": 500}

WAYS = ["evidence", "reduced", "indicator", "special"]


def case(ctx):
    rng = ctx.rng
    kind = str(rng.choice(["dense", "sparse", "gaussian"]))
    if kind == "gaussian":
        model = models.gaussian(ctx, size=6, evidence=0.0, long=0.05)
        every = sorted({v for g in model.grefs for v in g.names})
    else:
        model = models.discrete(ctx, kind, zero=float(rng.choice([0.0, 0.15, 0.3])), size=8, evidence=0.0, long=0.05,
                                kinds=["nearly", "normal"] if rng.random() < 0.15 else None)
        if model is None:
            raise core.Reject()
        every = sorted({v for t in model.tabs for v in t.names})
    observed = observations(ctx, model, every, kind)
    free = [v for v in every if v not in observed]
    model.evidence = dict(observed)
    if kind == "gaussian":
        if not all(models.integrable(g) for g in model.reduced()):
            raise core.Reject()
        joint = model.joint()
        want = {v: joint.marg([v]) for v in free}
    else:
        if models.eliminate(model.reduced(), []).logs == refs.NEG:
            raise core.Reject()
        want = {v: model.marginal([v]) for v in free}
    refs_of = model.grefs if kind == "gaussian" else model.tabs
    ctx.count("observed_in_several_factors", int(any(sum(v in t.names for t in refs_of) > 1 for v in observed)))
    ctx.count("whole_factors", int(any(set(t.names) <= set(observed) for t in refs_of)))
    ways = [["evidence"], ["reduced"], ["special"]] + ([["indicator"]] if kind != "gaussian" else [])
    some = WAYS if kind != "gaussian" else ["evidence", "reduced", "special"]
    ways = [w for w in ways if rng.random() < 0.75] + [gen.subset(rng, some, 2)]
    before = [zoo.snapshot(f) for f in model.factors]
    ran = 0
    for way in ways:
        entry = {v: str(rng.choice(way)) for v in observed}
        ran += run(ctx, model, kind, observed, free, entry, want, way)
    after = [zoo.snapshot(f) for f in model.factors]
    ctx.check(zoo.same(before, after, 0.0, 1e-12), "factors-changed", model.describe)
    if ran and observed and free:
        ctx.sig(kind, [t.names for t in refs_of], sorted(observed), sorted(entry.items()))
    ctx.sample(f"{kind} {[t.names for t in refs_of]} observed {observed} entered {entry}")


def observations(ctx, model, every, kind):
    """Any subset of the variables in any order."""
    rng = ctx.rng
    style = str(rng.choice(["few", "half", "factor", "most", "shared"]))
    if style == "few":
        chosen = gen.subset(rng, every, 1, 2)
    elif style == "half":
        chosen = [v for v in every if rng.random() < 0.5]
    elif style == "most":
        chosen = [v for v in every if rng.random() < 0.8]
    elif style == "shared":
        rs = model.grefs if kind == "gaussian" else model.tabs
        chosen = [v for v in every if sum(v in t.names for t in rs) > 1 and rng.random() < 0.8]
    else:
        rs = model.grefs if kind == "gaussian" else model.tabs
        chosen = list(rs[int(rng.integers(len(rs)))].names)
        chosen += [v for v in every if v not in chosen and rng.random() < 0.2]
    chosen = gen.perm(rng, chosen)
    if kind == "gaussian":
        return {v: float(rng.normal(0, 2)) for v in chosen}
    # a possible combination: sample it variable by variable
    out = {}
    for v in chosen:
        tabs = [t.reduce({k: x for k, x in out.items() if k in t.names}) for t in model.tabs]
        p = np.exp(models.eliminate(tabs, [v]).norm().logs)
        ok = np.flatnonzero(p > 1e-12)
        out[v] = int(rng.choice(ok))
    return out


def indicator(ctx, cls, v, card, value):
    from veroku.factors.categorical import Categorical
    from veroku.factors.sparse_categorical import SparseCategorical

    if cls == "dense":
        logs = np.full(card, -np.inf)
        logs[value] = 0.0
        if ctx.rng.random() < 0.5:
            return Categorical(var_names=[v], log_probs_tensor=logs)
        return Categorical(var_names=[v], probs_table={(value,): 1.0}, cardinalities=[card])
    if ctx.rng.random() < 0.5:
        return SparseCategorical(var_names=[v], probs_table={(value,): 1.0}, cardinalities=[card])
    return SparseCategorical(var_names=[v], log_probs_table={(value,): 0.0}, cardinalities=[card])


def run(ctx, model, kind, observed, free, entry, want, way):
    """One graph with the observations entered as in `entry`."""
    from veroku.cluster_graph import ClusterGraph

    rng = ctx.rng
    facs = list(model.factors)
    by = {w: [v for v in gen.perm(rng, list(observed)) if entry[v] == w] for w in WAYS}
    # reduced beforehand: all at once, in any order, or one after the other
    if by["reduced"]:
        out = []
        for f in facs:
            mine = [v for v in gen.perm(rng, by["reduced"]) if v in f.var_names]
            if mine:
                if rng.random() < 0.5 or len(mine) == len(f.var_names):
                    f = f.reduce(mine, gen.values(rng, [observed[v] for v in mine]))
                else:
                    for v in mine:
                        f = f.reduce([v], [observed[v]])
            out.append(f)
        facs = out
    # indicator tables: multiplied into a factor or as factors of their own
    for v in by["indicator"]:
        ind = indicator(ctx, kind, v, model.cards[v], observed[v])
        where = [i for i, f in enumerate(facs) if v in f.var_names]
        if rng.random() < 0.6:
            i = where[int(rng.integers(len(where)))]
            facs[i] = facs[i].multiply(ind) if rng.random() < 0.5 else ind.multiply(facs[i])
        else:
            facs.insert(int(rng.integers(len(facs) + 1)), ind)
    ev = {v: observed[v] for v in by["evidence"]}
    sev = {v: observed[v] for v in by["special"]}
    foreign = rng.random() < 0.3
    if foreign:
        ctx.count("foreign_evidence")
        (ev if rng.random() < 0.5 else sev)["in no factor"] = 1
    given = (dict(ev), dict(sev))
    given_items = (list(ev.items()), list(sev.items()))
    kw = {}
    if ev or rng.random() < 0.2:
        kw["evidence"] = ev
    if sev or rng.random() < 0.2:
        kw["special_evidence"] = sev
    cg = ClusterGraph(facs, disable_tqdm=True, **kw)
    tampered = rng.random() < 0.3
    if tampered:
        # the dictionaries are the caller's: what happens to them from here on is of no importance
        ctx.count("evidence_reused")
        for d in (ev, sev):
            if rng.random() < 0.4:
                d.clear()
            elif d and rng.random() < 0.5:
                del d[str(gen.perm(rng, list(d))[0])]
            for v in gen.perm(rng, list(observed) + list(free))[:int(rng.integers(3))]:
                d[v] = 0 if kind != "gaussian" else 7.5
        given = (dict(ev), dict(sev))
        given_items = (list(ev.items()), list(sev.items()))

    def info():
        return (f"{kind} observed {observed} entered {entry} foreign {foreign} evidence changed later {tampered}\n{graphs.describe(cg)}\n{model.describe()}")
    gone = set(observed) - set(by["indicator"])
    for key, sides in graphs.edges(cg).items():
        for a, b, sep in sides:
            ctx.count("separators")
            if not ctx.check(not gone & set(sep), "observed-variable-in-separator", lambda: f"{a} {b} {sep}\n" + info()):
                return 0
    if not graphs.is_forest(cg):
        ctx.count("loopy_layout")
        return 0
    ps = graphs.sorted_paths(cg)
    if rng.random() < 0.5:
        for _ in range(len(ps) + 1):
            for p in gen.perm(rng, ps):
                p.pass_next_message()
        if not ps:
            cg.process_graph()
    else:
        cg.process_graph(tol=0.0, max_iter=len(ps) + 4)
    ctx.count("runs")
    ctx.count("gaussian_runs", int(kind == "gaussian"))
    for w in WAYS:
        ctx.count(f"ways_{w}", int(set(entry.values()) == {w}))
    ctx.count("ways_mixed", int(len(set(entry.values())) > 1))
    for v in free:
        ctx.count("marginals")
        got = graphs.read(cg.get_marginal([v]))
        if not ctx.check(list(got.names) == [v], "marginal-scope", lambda: f"{got.names}\n" + info()):
            return 0
        if not ctx.check(close(got, want[v], kind), "wrong-posterior", lambda: f"{v}: {graphs.fmt(norm(got, kind))}\nexact "
                         f"{graphs.fmt(norm(want[v], kind))}\n" + info()):
            return 0
    # larger queries never contain observed variables either
    for c in graphs.clusters(cg):
        vs = [v for v in c.var_names if v in free]
        if len(vs) > 1:
            q = gen.subset(rng, vs, 1, 3)
            got = cg.get_marginal(q)
            ctx.check(set(got.var_names) == set(q), "marginal-scope", lambda: f"{q}: {got.var_names}\n" + info())
    for v in gone:
        try:
            got = cg.get_marginal([v])
        except Exception:  # pylint: disable=broad-except
            continue
        ctx.check(v not in got.var_names, "marginal-of-observed-variable", lambda: f"{v}: {got.var_names}\n" + info())
    ctx.check((ev, sev) == given and (list(ev.items()), list(sev.items())) == given_items, "evidence-changed", info)
    return 1


def norm(x, kind):
    return x if kind == "gaussian" else x.norm()


def close(got, want, kind):
    if kind == "gaussian":
        return graphs.prop_close(got, want, atol=1e-5, rtol=1e-5)
    p, q = got.norm().probs(), want.norm().order(got.names).probs()
    return np.allclose(p, q, rtol=1e-6, atol=1e-7)
