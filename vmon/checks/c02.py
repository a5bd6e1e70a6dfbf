"""C02: discrete marginals sum, and evidence slices, exactly the named variables."""
from vmon import gen, models, probes, refs

NUM = 2
RULE = ("random dense/sparse tables (1-5 variables in any order, cardinalities 1-4, hard zeros, implicit defaults, hostile "
        "names), random kept/removed sets in random order, staged and direct, random evidence (possible or not), "
        "commutation with products, and the marginalize/reduce calls made inside real inference; non-trivial: at least two "
        "variables, a proper subset, and a requested order that differs from the table's; distinct by class, operation, "
        "shape, index pattern and zero pattern")
COUNTS = {"quick": 14000, "thorough": 300000}
REQUIRED = {"many_variables": 100, "marginals": 2000, "reduces": 1500, "staged": 500, "commute": 500,
            "impossible_evidence": 20}
TOL = dict(rtol=1e-10, atol=1e-9)


def operand(ctx, cls, nms, cds, zero, kind=None):
    rng = ctx.rng
    if cls == "dense":
        tab = refs.Tab(nms, gen.log_table(rng, [cds[v] for v in nms], zero, kind))
        return tab, gen.make_dense(rng, tab)
    tab, default = gen.sparse_tab(rng, nms, cds, zero, kind)
    return tab, gen.make_sparse(rng, tab, default)


def marg(ctx, f, tab, keep):
    """Ask the real factor for a marginal in one of the ways the API offers."""
    rng = ctx.rng
    how = int(rng.integers(3))
    out = [v for v in tab.names if v not in keep]
    if how == 0:
        return f.marginalize(out[0] if len(out) == 1 and rng.random() < 0.3 else gen.perm(rng, out), keep=False)
    if len(keep) == 1 and how == 1:
        return f.marginalize(keep[0], keep=True)
    return f.marginalize(list(keep), keep=True) if rng.random() < 0.5 else f.marginalize(list(keep))


def case(ctx):
    rng = ctx.rng
    cls = "dense" if rng.random() < 0.5 else "sparse"
    k = ctx.idx % 10
    if k == 9:
        return in_graph(ctx, cls)
    n = int(rng.integers(1, 6))
    nms = gen.names(rng, n)
    cds = gen.cards(rng, nms, hi=4 if n < 4 else 3)
    if rng.random() < 0.03:
        ctx.count("many_variables")
        nms, cds = gen.many(rng, 7, 28)
        n = len(nms)
    zero = float(rng.choice([0, 0, 0.3, 0.7]))
    tab, f = operand(ctx, cls, nms, cds, zero)
    if k < 4:
        keep = gen.subset(rng, nms, 0 if rng.random() < 0.1 else 1)
        got = refs.tab_of(marg(ctx, f, tab, keep))
        want = tab.marg(keep)
        ctx.count("marginals")
        ctx.check(refs.tabs_close(got, want, **TOL), f"{cls}:marginalize",
                  lambda: f"{refs.fmt(tab)}\nkeep {keep}\ngot {refs.fmt(got)}\nexpected {refs.fmt(want)}")
        ctx.check(refs.logs_close([refs.lse(got.logs)], [tab.log_mass()], **TOL), f"{cls}:marginalize:mass",
                  lambda: f"{refs.fmt(tab)} keep {keep}")
        # staged
        if len(nms) >= 2:
            mid = gen.perm(rng, list(set(keep) | set(gen.subset(rng, nms))))
            g = marg(ctx, f, tab, mid)
            gg = refs.tab_of(marg(ctx, g, refs.Tab(g.var_names, refs.tab_of(g).logs), keep))
            ctx.count("staged")
            ctx.check(refs.tabs_close(gg, want, **TOL), f"{cls}:marginalize:staged",
                      lambda: f"{refs.fmt(tab)}\nvia {mid} to {keep}\ngot {refs.fmt(gg)}\nexpected {refs.fmt(want)}")
        if 0 < len(keep) < n or keep != nms:
            ctx.sig(cls, "m", tab.logs.shape, tuple(nms.index(v) for v in keep), (tab.logs == refs.NEG).tobytes())
    elif k < 7:
        obs = gen.subset(rng, nms, 1)
        ev = {v: int(rng.integers(cds[v])) for v in obs}
        values = [ev[v] for v in obs]
        if rng.random() < 0.2:
            import numpy as np
            values = [np.int64(x) for x in values]
        call = f.reduce if rng.random() < 0.7 else f.observe
        got = refs.tab_of(call(list(obs), values))
        want = tab.reduce(ev)
        ctx.count("reduces")
        if want.log_mass() == refs.NEG:
            ctx.count("impossible_evidence")
        ctx.check(refs.tabs_close(got, want, rtol=1e-12, atol=1e-12), f"{cls}:reduce",
                  lambda: f"{refs.fmt(tab)}\nat {ev}\ngot {refs.fmt(got)}\nexpected {refs.fmt(want)}")
        # one at a time in another order
        g = f
        for v in gen.perm(rng, obs):
            g = g.reduce([v], [ev[v]])
        gg = refs.tab_of(g)
        ctx.check(refs.tabs_close(gg, want, rtol=1e-12, atol=1e-12), f"{cls}:reduce:staged",
                  lambda: f"{refs.fmt(tab)}\nat {ev}\ngot {refs.fmt(gg)}\nexpected {refs.fmt(want)}")
        if n >= 2:
            ctx.sig(cls, "r", tab.logs.shape, tuple(nms.index(v) for v in obs), tuple(values),
                    (tab.logs == refs.NEG).tobytes())
    else:
        # reduce and marginalise (disjoint variables) and products commute
        ctx.count("commute")
        obs = gen.subset(rng, nms, 1, max(1, n - 1))
        ev = {v: int(rng.integers(cds[v])) for v in obs}
        rest = [v for v in nms if v not in obs]
        keep = gen.subset(rng, rest)
        other_names = gen.subset(rng, nms, 1, 3)
        otab, of = operand(ctx, cls, other_names, cds, zero, "normal")
        want = tab.mul(otab).reduce(ev).marg(keep)
        oev = {v: x for v, x in ev.items() if v in other_names}

        def red(fac, e):
            return fac.reduce(list(e), gen.values(rng, e.values())) if e else fac
        if rng.random() < 0.5:
            got = red(f, ev).multiply(red(of, oev)).marginalize(list(keep), keep=True)
        else:
            p = f.multiply(of).marginalize(gen.perm(rng, keep + obs), keep=True)
            got = p.reduce(list(obs), gen.values(rng, [ev[v] for v in obs]))
        got = refs.tab_of(got)
        ctx.check(refs.tabs_close(got, want, **TOL), f"{cls}:commute",
                  lambda: f"{refs.fmt(tab)}\n* {refs.fmt(otab)}\nat {ev} keep {keep}\ngot {refs.fmt(got)}\nexpected {refs.fmt(want)}")
        ctx.sig(cls, "c", tab.logs.shape, tuple(nms.index(v) for v in obs), tuple(nms.index(v) for v in keep),
                tuple(nms.index(v) for v in other_names))
    ctx.sample(f"{cls} kind {k}: {refs.fmt(tab)}")


def in_graph(ctx, cls):
    from veroku.factors.categorical import Categorical
    from veroku.factors.sparse_categorical import SparseCategorical

    rng = ctx.rng
    model = models.discrete(ctx, cls, loopy=rng.random() < 0.5, zero=float(rng.choice([0, 0.25])), size=5)
    if model is None:
        ctx.count("rejected_models")
        return
    real = Categorical if cls == "dense" else SparseCategorical
    with probes.hooked(real, probes.discrete_probe(ctx, {"marginalize", "reduce"})):
        cg = model.graph()
        cg.process_graph(tol=1e-6, max_iter=3)
        for t in model.tabs:
            rest = [v for v in t.names if v not in model.evidence]
            if rest:
                cg.get_marginal(gen.subset(rng, rest, 1))
    ctx.count("graphs")
