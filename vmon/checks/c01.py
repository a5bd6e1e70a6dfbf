"""C01: discrete products, quotients and cancellations are pointwise by variable name."""
import operator

from vmon import gen, models, probes, refs

NUM = 1
RULE = ("random pairs and chains of dense/sparse tables (equal, nested, partial, disjoint, empty overlaps; permuted orders; "
        "cardinality 1..4; hard zeros, defaults, magnitudes up to e^+-60; hostile names) and the multiply/cancel calls made "
        "inside real cluster graph inference; non-trivial: the operands' scopes are not listed in the same order, or one "
        "has a hard zero; distinct by class, operation, scope permutation pattern, shapes and zero patterns")
COUNTS = {"quick": 20000, "thorough": 400000}
REQUIRED = {"many_variables": 150, "op_multiply": 500, "op_divide": 300, "op_cancel": 400,
            "zero_over_zero": 200, "chains": 200}
TOL = dict(rtol=1e-11, atol=1e-10)


def operand(ctx, cls, nms, cds, zero, kind=None):
    rng = ctx.rng
    if cls == "dense":
        tab = refs.Tab(nms, gen.log_table(rng, [cds[v] for v in nms], zero, kind))
        return tab, gen.make_dense(rng, tab)
    tab, default = gen.sparse_tab(rng, nms, cds, zero, kind)
    return tab, gen.make_sparse(rng, tab, default)


def case(ctx):
    kind = ctx.idx % 10
    if kind < 6:
        pair(ctx)
    elif kind < 8:
        chain(ctx)
    else:
        in_graph(ctx)


def pair(ctx):
    rng = ctx.rng
    cls = "dense" if rng.random() < 0.5 else "sparse"
    pool = gen.names(rng, 6)
    cds = gen.cards(rng, pool)
    a_names, b_names, overlap = gen.overlap_scopes(rng, pool)
    if rng.random() < 0.03:  # more variables than the letters of an alphabet, or than any fixed small number
        ctx.count("many_variables")
        pool, cds = gen.many(rng, 7, 28)
        a_names, b_names, overlap = gen.overlap_scopes(rng, pool, max_len=len(pool) - 1)
    if rng.random() < 0.04:
        b_names, overlap = [], "empty"
    zero = float(rng.choice([0, 0, 0.25, 0.6]))
    a, fa = operand(ctx, cls, a_names, cds, zero)
    b, fb = operand(ctx, cls, b_names, cds, zero)
    op = str(rng.choice(["multiply", "divide", "cancel"]))
    if op == "divide" or (op == "cancel" and rng.random() < 0.4):
        # quotients: no division by zero; for cancel also the documented 0/0 = 0
        if op == "divide":
            b = refs.Tab(b.names, gen.log_table(rng, b.logs.shape, 0.0))
            fb = gen.make_dense(rng, b) if cls == "dense" else gen.make_sparse(rng, b)
            if cls == "sparse" and fa.default_log_prob != fb.default_log_prob:
                # documented as not supported: give both the same default
                b, fb = refs.Tab(b.names, b.logs), gen.make_sparse(rng, b, fa.default_log_prob)
    same = rng.random() < 0.06
    if same and (op != "divide" or not (a.logs == refs.NEG).any()):
        b, fb, b_names, overlap = a, fa, a_names, "same object"
    elif op == "cancel" and rng.random() < 0.7:
        # the typical use: remove something that was multiplied in before (0/0 wherever b is zero)
        extra = a
        a = a.mul(b)
        fa = fa.multiply(fb)
        ctx.check(refs.tabs_close(refs.tab_of(fa), a, **TOL), f"{cls}:multiply",
                  lambda: f"{refs.fmt(extra)} * {refs.fmt(b)} gave {refs.fmt(refs.tab_of(fa))} expected {refs.fmt(a)}")
    if op == "multiply":
        call = [lambda: fa.multiply(fb), lambda: fa.absorb(fb), lambda: fa * fb][int(rng.integers(3))]
        want = a.mul(b)
    elif op == "divide":
        call = [lambda: fa.divide(fb), lambda: operator.truediv(fa, fb)][int(rng.integers(2))]
        want = a.div(b)
    else:
        call = lambda: fa.cancel(fb)  # noqa: E731
        want = a.cancel(b)
    got_factor = call()
    got = refs.tab_of(got_factor)
    ctx.count(f"op_{op}")
    ctx.count(f"overlap_{overlap}")
    zz = (a.on(want.names) == refs.NEG) & (b.on(want.names) == refs.NEG)
    if op == "cancel" and zz.any():
        ctx.count("zero_over_zero")
    ctx.check(type(got_factor) is type(fa), f"{cls}:{op}:type", str(type(got_factor)))
    if op == "cancel" and ((b.on(want.names) == refs.NEG) & (a.on(want.names) != refs.NEG)).any():
        ctx.count("x_over_zero_cancel")
        # x/0 is not specified (only 0/0 is): compare elsewhere
        mask = (b.on(want.names) == refs.NEG) & (a.on(want.names) != refs.NEG)
        mask = mask | refs.np.zeros(want.logs.shape, bool)
        ok = set(got.names) == set(want.names)
        if ok:
            g = got.order(want.names).logs
            ok = g.shape == want.logs.shape and refs.logs_close(g[~mask], want.logs[~mask], **TOL)
    else:
        ok = refs.tabs_close(got, want, **TOL)
    ctx.check(ok, f"{cls}:{op}", lambda: f"a={refs.fmt(a)}\nb={refs.fmt(b)}\n{op}: got {refs.fmt(got)}\nexpected {refs.fmt(want)}")
    if a_names != b_names or zero:
        ctx.sig(cls, op, a.logs.shape, b.logs.shape, tuple(b.names.index(n) if n in b.names else -1 for n in a.names),
                (a.logs == refs.NEG).tobytes(), (b.logs == refs.NEG).tobytes())
    ctx.sample(f"{cls} {op}: a={refs.fmt(a)} b={refs.fmt(b)} -> {got.names}")


def chain(ctx):
    """Products of several factors in several association orders, then cancelled again."""
    rng = ctx.rng
    cls = "dense" if rng.random() < 0.5 else "sparse"
    pool = gen.names(rng, 5)
    cds = gen.cards(rng, pool, hi=3)
    zero = float(rng.choice([0, 0.2, 0.4]))
    n = int(rng.integers(3, 6))
    tabs, facs = [], []
    for _ in range(n):
        t, f = operand(ctx, cls, gen.subset(rng, pool, 1, 3), cds, zero, kind=str(rng.choice(["normal", "uniform", "dup"])))
        tabs.append(t)
        facs.append(f)
    want = tabs[0]
    for t in tabs[1:]:
        want = want.mul(t)
    order = gen.perm(rng, range(n))
    if rng.random() < 0.5:
        got = facs[order[0]]
        for i in order[1:]:
            got = got.multiply(facs[i])
    else:  # random binary tree
        items = [facs[i] for i in order]
        while len(items) > 1:
            i = int(rng.integers(len(items) - 1))
            items[i: i + 2] = [items[i].multiply(items[i + 1])]
        got = items[0]
    ctx.count("chains")
    ctx.check(refs.tabs_close(refs.tab_of(got), want, rtol=1e-10, atol=1e-9), f"{cls}:chain-product",
              lambda: f"{[refs.fmt(t) for t in tabs]}\norder {order}\ngot {refs.fmt(refs.tab_of(got))}\nexpected {refs.fmt(want)}")
    k = int(rng.integers(1, n))
    for i in gen.perm(rng, range(n))[:k]:
        got = got.cancel(facs[i])
        want = want.cancel(tabs[i])
    ctx.check(refs.tabs_close(refs.tab_of(got), want, rtol=1e-10, atol=1e-9), f"{cls}:chain-cancel",
              lambda: f"{[refs.fmt(t) for t in tabs]}\ngot {refs.fmt(refs.tab_of(got))}\nexpected {refs.fmt(want)}")
    ctx.sig(cls, "chain", tuple(tuple(pool.index(v) for v in t.names) for t in tabs), tuple(order), zero)


def in_graph(ctx):
    """All multiply/cancel calls that real inference makes (tree or loopy, with evidence)."""
    from veroku.factors.categorical import Categorical
    from veroku.factors.sparse_categorical import SparseCategorical

    rng = ctx.rng
    cls = "dense" if rng.random() < 0.5 else "sparse"
    model = models.discrete(ctx, cls, loopy=rng.random() < 0.5, zero=float(rng.choice([0, 0.25])), size=5)
    if model is None:
        ctx.count("rejected_models")
        return
    real = Categorical if cls == "dense" else SparseCategorical
    with probes.hooked(real, probes.discrete_probe(ctx, {"multiply", "cancel"})):
        cg = model.graph()
        cg.process_graph(tol=1e-6, max_iter=3)
    ctx.count("graphs")
