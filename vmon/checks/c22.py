"""C22: invalid use is rejected and leaves operands intact."""
import numpy as np

from vmon import gen, graphs, models, refs, zoo

NUM = 22
RULE = ("fault injection: randomly generated invalid constructions, operands, evidence, marginals, orders and queries on real factors "
        "of every class and on cluster graphs before, during and after message passing; monitors: an exception must leave the call, "
        "snapshots of every operand and of the graph before and after, and a valid operation afterwards must still give the reference "
        "result; non-trivial: an invalid call was made; distinct by kind of fault, class, scopes and position")
COUNTS = {"quick": 8000, "thorough": 250000}
REQUIRED = {"constructions": 1200, "bad_types": 500, "bad_cards": 400, "bad_evidence": 500, "bad_marginals": 500, "bad_orders": 500,
            "bad_queries": 2000, "bad_graphs": 120, "used_afterwards": 5000, "bad_names": 400}


def case(ctx):
    kind = str(ctx.rng.choice(["construct", "types_", "cards", "evidence", "marginal", "order", "graph", "names_", "construct2"]))
    globals()[kind](ctx)


# ------------------------------------------------------------------------------------------------------------------ helpers
def rejected(ctx, what, call, info, operands=()):
    """The call must raise; operands (real factors) must be unchanged afterwards."""
    before = [zoo.snapshot(f) for f in operands]
    try:
        res = call()
    except Exception as exc:  # pylint: disable=broad-except
        ctx.seen("exceptions", what, type(exc).__name__)
        ctx.counts["oracle_checks"] += 1
        ok = True
    else:
        ok = ctx.check(False, f"accepted:{what}", lambda: info() + f"\nreturned {type(res).__name__} {getattr(res, 'var_names', res)}")
    for b, f in zip(before, operands):
        ctx.check(zoo.same(b, zoo.snapshot(f), 0.0, 1e-12), f"operand-changed:{what}", lambda: info() + f"\nbefore {b}\nafter {zoo.snapshot(f)}")
    ctx.seen("faults", what)
    return ok


def any_factor(ctx, cls, nms, cds=None):
    """A real factor of the class over (some of) the names."""
    rng = ctx.rng
    if cls in ("dense", "sparse"):
        cds = cds or {v: int(rng.integers(2, 4)) for v in nms}
        return (zoo.make_dense if cls == "dense" else zoo.make_sparse)(ctx, list(nms), cds)[0]
    if cls == "gaussian":
        return zoo.make_gaussian(ctx, list(nms))[0]
    if cls == "gm":
        return zoo.make_gm(ctx, list(nms))[0]
    if cls == "ff":
        return zoo.make_ff(ctx, list(nms))[0]
    k = max(1, len(nms) // 2)
    if cls == "nlg":
        return zoo.make_nlg(ctx, list(nms[:k]), list(nms[k:]))[0]
    return zoo.make_nlgm(ctx, list(nms[:k]), list(nms[k:]))[0]


def usable(ctx, f):
    """A valid operation afterwards gives what the represented function says."""
    rng = ctx.rng
    ctx.count("used_afterwards")
    name = type(f).__name__
    if name in ("Categorical", "SparseCategorical"):
        t = refs.tab_of(f)
        keep = gen.subset(rng, t.names, 1)
        ctx.check(refs.tabs_close(refs.tab_of(f.marginalize(keep, keep=True)), t.marg(keep)), "unusable", lambda: refs.fmt(t))
        ctx.check(refs.tabs_close(refs.tab_of(f.multiply(f)), t.mul(t)), "unusable", lambda: refs.fmt(t))
    elif name == "Gaussian":
        g = refs.gref_of(f)
        keep = gen.subset(rng, g.names, 1)
        ctx.check(refs.grefs_close(refs.gref_of(f.marginalize(keep, keep=True)), g.marg(keep)), "unusable", lambda: refs.gfmt(g))
        ctx.check(refs.grefs_close(refs.gref_of(f.multiply(f)), g.mul(g)), "unusable", lambda: refs.gfmt(g))
    elif name == "GaussianMixture":
        v = f.var_names[0]
        ctx.check(list(f.marginalize([v], keep=True).var_names) == [v], "unusable", str(f.var_names))
    else:
        v = list(f.var_names)[0]
        ctx.check(list(f.marginalize([v], keep=True).var_names) == [v], "unusable", str(f.var_names))


# ------------------------------------------------------------------------------------------------------------- constructions
def construct(ctx):
    """Inconsistent discrete constructions."""
    from veroku.factors.categorical import Categorical
    from veroku.factors.sparse_categorical import SparseCategorical

    rng = ctx.rng
    n = int(rng.integers(1, 4))
    nms = gen.names(rng, n)
    cds = [int(rng.integers(1, 4)) for _ in nms]
    tensor = gen.log_table(rng, cds, 0.1)
    table = {a: float(np.exp(rng.normal())) for a in np.ndindex(*cds)}
    bad_at = int(rng.integers(n))
    keys = list(table)
    key = keys[int(rng.integers(len(keys)))]

    def with_bad(bad):
        items = [(k, table[k]) for k in gen.perm(rng, keys)]
        items.insert(int(rng.integers(len(items) + 1)), (tuple(bad), 0.5))
        return dict(items)
    high = list(key)
    high[bad_at] = cds[bad_at] + int(rng.integers(0, 3))
    neg = list(key)
    neg[bad_at] = -1 - int(rng.integers(0, 2))
    longer = list(key) + [0]
    shorter = list(key)[:-1]
    dup = list(nms)
    dup.insert(int(rng.integers(n + 1)), nms[bad_at])
    wrong = list(cds)
    wrong[bad_at] += 1
    faults = {
        "dup-vars": lambda c: c(dup, [cds[nms.index(v)] for v in dup]),
        "cards-too-few": lambda c: c(nms, cds[:-1]),
        "cards-too-many": lambda c: c(nms, cds + [2]),
    }
    cls = str(rng.choice(["dense", "sparse"]))

    def full(names, cards):
        if cls == "dense":
            if rng.random() < 0.5 and len(names) == len(cards):
                return Categorical(var_names=names, log_probs_tensor=np.zeros(cards))
            return Categorical(var_names=names, cardinalities=cards, probs_table={tuple(0 for _ in cards): 1.0})
        return SparseCategorical(var_names=names, cardinalities=cards, log_probs_table={tuple(0 for _ in cards): 0.0})
    name = str(rng.choice(list(faults) + ["high", "neg", "long", "short", "no-table", "tensor-dims", "tensor-shape", "nothing"]))

    def info():
        return f"{cls} {name}: {nms} {cds} key {key}"
    ctx.count("constructions")
    if name in faults:
        rejected(ctx, f"{cls}:{name}", lambda: faults[name](full), info)
    elif name in ("high", "neg", "long", "short"):
        bad = with_bad({"high": high, "neg": neg, "long": longer, "short": shorter}[name])
        kept = dict(bad)
        what = "probs_table" if cls == "dense" or rng.random() < 0.5 else "log_probs_table"
        rejected(ctx, f"{cls}:assignment-{name}", lambda: (Categorical if cls == "dense" else SparseCategorical)(
            var_names=nms, cardinalities=cds, **{what: bad}), lambda: info() + f"\n{bad}")
        ctx.check(bad == kept, "argument-changed", info)
    elif name == "no-table":
        rejected(ctx, f"{cls}:no-table", lambda: (Categorical if cls == "dense" else SparseCategorical)(
            var_names=nms, cardinalities=cds), info)
    elif name == "tensor-dims":
        t = tensor[..., None] if rng.random() < 0.5 else tensor.reshape(-1)[:1].reshape((1,) * (n - 1))
        rejected(ctx, "dense:tensor-dims", lambda: Categorical(var_names=nms, log_probs_tensor=t), info)
    elif name == "tensor-shape":
        rejected(ctx, "dense:tensor-shape", lambda: Categorical(var_names=nms, cardinalities=wrong, log_probs_tensor=tensor), info)
    else:
        rejected(ctx, "dense:nothing", lambda: Categorical(var_names=nms), info)
        rejected(ctx, "dense:table-without-cards", lambda: Categorical(var_names=nms, probs_table=dict(table)), info)
    if cls == "dense" and rng.random() < 0.5:
        an = [[f"{v}{i}" for i in range(c)] for v, c in zip(nms, cds)]
        bad = [list(x) for x in an]
        how = str(rng.choice(["missing", "extra", "repeated", "repeated-extra", "list-short"]))
        if how == "missing":
            bad[bad_at] = bad[bad_at][:-1]
        elif how == "extra":
            bad[bad_at] = bad[bad_at] + ["more"]
        elif how == "repeated":
            if cds[bad_at] < 2:
                return
            bad[bad_at][-1] = bad[bad_at][0]
        elif how == "repeated-extra":
            bad[bad_at] = bad[bad_at] + [bad[bad_at][0]]
        else:
            bad = bad[:-1]
        ctx.count("constructions")
        rejected(ctx, f"dense:names-{how}", lambda: Categorical(var_names=nms, log_probs_tensor=tensor, variables_assignment_names=bad),
                 lambda: info() + f"\n{bad}")
    ctx.sig("construct", cls, name, nms, cds)
    ctx.sample(info())


def construct2(ctx):
    """Inconsistent Gaussian, mixture and non-linear Gaussian constructions."""
    from veroku.factors.experimental.gaussian_mixture import GaussianMixture
    from veroku.factors.experimental.nonlinear_gaussian import NonLinearGaussian, NonLinearGaussianMixture
    from veroku.factors.gaussian import Gaussian, make_linear_gaussian

    rng = ctx.rng
    n = int(rng.integers(1, 4))
    nms = gen.names(rng, n + 3)
    extra, nms = nms[n:], nms[:n]
    ctx.count("constructions")
    form = str(rng.choice(["cov", "can"]))
    mat, vec, num = ("cov", "mean", "log_weight") if form == "cov" else ("prec", "h_vec", "g_val")
    good = {mat: gen.spd(rng, n), vec: rng.normal(size=(n, 1)), num: float(rng.normal())}
    name = str(rng.choice(["dup-vars", "missing", "mixed", "names-few", "names-many", "mat-dim", "vec-dim", "mat-not-square", "gm-empty",
                           "gm-scopes", "nlg-overlap", "nlg-noise", "nlg-dup", "nlgm-empty", "linear", "linear-noise", "linear-overlap"]))

    def info():
        return f"{name} {form} {nms} {extra}"

    def gaussian(**kw):
        args = {**good, "var_names": list(nms), **kw}
        return Gaussian(**{k: v for k, v in args.items() if v is not None})
    k = int(rng.integers(1, 3))
    a = rng.normal(size=(k, n))
    yv = extra[:k]
    if name == "dup-vars":
        dup = nms + [nms[int(rng.integers(n))]]
        call = lambda: gaussian(**{mat: np.eye(n + 1), vec: np.zeros((n + 1, 1)), "var_names": gen.perm(rng, dup)})
    elif name == "missing":
        drop = str(rng.choice([mat, vec, num]))
        call = lambda: gaussian(**{drop: None})
    elif name == "mixed":
        other = {"cov": ("prec", "h_vec", "g_val"), "can": ("cov", "mean", "log_weight")}[form]
        i = int(rng.integers(3))
        value = [np.eye(n), np.zeros((n, 1)), 0.0][i]
        call = lambda: gaussian(**{(mat, vec, num)[i]: None, other[i]: value})
    elif name == "names-few":
        call = lambda: gaussian(var_names=nms[:-1])
    elif name == "names-many":
        call = lambda: gaussian(var_names=nms + extra[:1])
    elif name == "mat-dim":
        wrong = int(rng.choice([m for m in (1, n - 1, n + 1, n + 2) if m not in (0, n)]))
        wrong = [np.eye(wrong), np.eye(wrong).tolist()][int(rng.integers(2))]
        call = lambda: gaussian(**{mat: wrong})
    elif name == "vec-dim":
        wrong = [m for m in (0, 1, n - 1, n + 1, 2 * n) if m != n]
        wrong = rng.normal(size=(int(rng.choice(wrong)), 1))
        wrong = [wrong, wrong.ravel(), list(wrong.ravel())][int(rng.integers(3))]
        call = lambda: gaussian(**{vec: wrong})
    elif name == "mat-not-square":
        call = lambda: gaussian(**{mat: np.ones((n, n + 1))})
    elif name == "gm-empty":
        call = lambda: GaussianMixture([])
    elif name == "gm-scopes":
        parts = [zoo.make_gaussian(ctx, nms)[0], zoo.make_gaussian(ctx, nms[:-1] + extra[:1])[0]]
        call = lambda: GaussianMixture(gen.perm(rng, parts))
    elif name == "nlg-overlap":
        call = lambda: NonLinearGaussian(list(nms), gen.perm(rng, yv + nms[:1]), lambda x, v: x, np.eye(k + 1))
    elif name == "nlg-noise":
        call = lambda: NonLinearGaussian(list(nms), list(yv), lambda x, v: x, np.eye(k + 1))
    elif name == "nlg-dup":
        call = lambda: NonLinearGaussian(nms + nms[:1], list(yv), lambda x, v: x, np.eye(k))
    elif name == "nlgm-empty":
        call = lambda: NonLinearGaussianMixture([])
    elif name == "linear":
        bad = str(rng.choice(["x", "y", "a"]))
        call = lambda: make_linear_gaussian(a if bad != "a" else rng.normal(size=(k, n + 1)), np.eye(k),
                                            nms + (extra[2:] if bad == "x" else []), yv if bad != "y" else yv + ["another"])
    elif name == "linear-noise":
        call = lambda: make_linear_gaussian(a, np.eye(k + 1), list(nms), list(yv))
    else:
        call = lambda: make_linear_gaussian(rng.normal(size=(1, n)), np.eye(1), list(nms), nms[:1])
    rejected(ctx, name, call, info)
    ctx.sig("construct2", name, form, nms)


# ------------------------------------------------------------------------------------------------------------------ operands
OK_PAIRS = {("gaussian", "nlg"), ("gm", "gaussian"), ("ff", "gaussian"), ("ff", "nlg"), ("ff", "nlgm"), ("nlg", "gaussian"),
            ("nlg", "ff"), ("nlgm", "gaussian"), ("nlgm", "gm")}


def types_(ctx):
    rng = ctx.rng
    cls = str(rng.choice(zoo.CLASSES))
    nms = gen.names(rng, int(rng.integers(2, 4)))
    f = any_factor(ctx, cls, nms)
    other = str(rng.choice(zoo.CLASSES + ["number", "none", "string", "array", "dict"]))
    if other in zoo.CLASSES:
        if (cls, other) in OK_PAIRS or cls == other or {cls, other} <= {"gaussian", "gm", "ff", "nlg", "nlgm"} and rng.random() < 0.5:
            other = str(rng.choice(["dense", "sparse"])) if cls not in ("dense", "sparse") else str(rng.choice(
                ["gaussian", "gm", "ff", "nlg", "sparse" if cls == "dense" else "dense"]))
        scope = nms if rng.random() < 0.7 else gen.perm(rng, nms)
        g = any_factor(ctx, other, scope)
        if (cls, other) in OK_PAIRS or cls == other:
            return
    else:
        g = {"number": 2.5, "none": None, "string": "ab", "array": np.ones((2, 2)), "dict": {}}[other]
    op = str(rng.choice(["multiply", "multiply", "divide", "cancel", "absorb"]))
    ctx.count("bad_types")
    left, right, lc, rc = f, g, cls, other
    if other in ("dense", "sparse") and rng.random() < 0.3 and (other, cls) not in OK_PAIRS:
        left, right, lc, rc = g, f, other, cls
    if lc == "ff" and rc in zoo.CLASSES and op in ("multiply", "absorb"):
        return  # a factorised factor is a list of "any type of factor": parts are combined (and checked) only where they overlap
    ops = [x for x in (left, right) if hasattr(x, "var_names")]
    rejected(ctx, f"{lc}.{op}({rc})", lambda: getattr(left, op)(right), lambda: f"{lc} {left.var_names} {op} {rc} "
             f"{getattr(right, 'var_names', right)}", ops)
    for x in ops:
        usable(ctx, x)
    ctx.sig("type", lc, rc, op, nms)


def cards(ctx):
    rng = ctx.rng
    cls = str(rng.choice(["dense", "sparse"]))
    nms = gen.names(rng, 4)
    cds = {v: int(rng.integers(1, 4)) for v in nms}
    a, b, _ = gen.overlap_scopes(rng, nms, 3)
    shared = [v for v in a if v in b]
    if not shared:
        return
    v = shared[int(rng.integers(len(shared)))]
    bad = dict(cds)
    bad[v] = cds[v] + 1 if rng.random() < 0.5 or cds[v] == 1 else int(rng.integers(1, cds[v]))
    f, g = any_factor(ctx, cls, a, cds), any_factor(ctx, cls, b, bad)
    if rng.random() < 0.5:
        f, g = g, f
    op = str(rng.choice(["multiply", "divide", "cancel", "absorb"]))
    ctx.count("bad_cards")
    rejected(ctx, f"{cls}:cards:{op}", lambda: getattr(f, op)(g), lambda: f"{f.var_cards} {op} {g.var_cards}", [f, g])
    if set(a) == set(b):
        rejected(ctx, f"{cls}:cards:kl", lambda: f.kl_divergence(g), lambda: f"{f.var_cards} kl {g.var_cards}", [f, g])
    else:
        h = any_factor(ctx, cls, b, cds)
        rejected(ctx, f"{cls}:scope:kl", lambda: f.kl_divergence(h), lambda: f"{f.var_cards} kl {h.var_cards}", [f, h])
    usable(ctx, f)
    usable(ctx, g)
    ctx.sig("cards", cls, op, a, b, sorted(cds.items()), v)


def names_(ctx):
    """Conflicting assignment names (values of one variable named differently)."""
    rng = ctx.rng
    nms = gen.names(rng, 3)
    cds = {v: int(rng.integers(2, 4)) for v in nms}
    an = {v: [f"{v}{i}" for i in range(cds[v])] for v in nms}
    a, b, _ = gen.overlap_scopes(rng, nms, 3)
    shared = [v for v in a if v in b]
    if not shared:
        return
    v = shared[int(rng.integers(len(shared)))]
    bn = {u: list(x) for u, x in an.items()}
    bn[v] = bn[v][1:] + bn[v][:1]
    f = zoo.make_dense(ctx, list(a), cds, 0.0, an)[0]
    g = zoo.make_dense(ctx, list(b), cds, 0.0, bn)[0]
    ctx.count("bad_names")
    for op in ("multiply", "divide", "cancel", "absorb") + (("kl_divergence",) if set(a) == set(b) else ()):
        rejected(ctx, f"names:{op}", lambda: getattr(f, op)(g), lambda: f"{f.vars_assignments_names_dict} {op} "
                 f"{g.vars_assignments_names_dict}", [f, g])
    usable(ctx, f)
    ctx.sig("names", a, b, v)


# ----------------------------------------------------------------------------------------------------- evidence, marginals, orders
def evidence(ctx):
    rng = ctx.rng
    cls = str(rng.choice(zoo.CLASSES))
    pool = gen.names(rng, 5)
    nms, foreign = pool[:3], pool[3:]
    f = any_factor(ctx, cls, nms)
    scope = list(f.var_names)
    obs = gen.subset(rng, scope, 1)
    discrete = cls in ("dense", "sparse")

    def value(v):
        return int(rng.integers(f.var_cards[v])) if discrete else float(rng.normal())
    vals = [value(v) for v in obs]
    how = str(rng.choice(["foreign", "foreign-only", "few-values", "many-values"] + (["high", "high", "negative"] if discrete else [])))
    if how == "many-values" and not discrete and cls not in ("ff", "nlg", "nlgm"):
        how = "foreign"
    if how == "foreign":
        k = int(rng.integers(len(obs) + 1))
        obs = obs[:k] + foreign[:1] + obs[k:]
        vals = vals[:k] + [0] + vals[k:]
    elif how == "foreign-only":
        obs, vals = foreign[:1], [0]
    elif how == "few-values":
        if len(obs) < 2:
            return
        vals = vals[:-1]
    elif how == "many-values":
        vals = vals + [0]
    elif how in ("high", "negative"):
        k = int(rng.integers(len(obs)))
        vals[k] = f.var_cards[obs[k]] + int(rng.integers(3)) if how == "high" else -1 - int(rng.integers(2))
    ctx.count("bad_evidence")
    name = str(rng.choice(["reduce", "reduce", "observe"]))
    given = (list(obs), list(vals))
    rejected(ctx, f"{cls}:evidence-{how}", lambda: getattr(f, name)(obs, vals), lambda: f"{cls} over {scope} {name} {obs} {vals}", [f])
    ctx.check((obs, vals) == given, "argument-changed", str(given))
    usable(ctx, f)
    ctx.sig("evidence", cls, how, scope, obs)


def marginal(ctx):
    rng = ctx.rng
    cls = str(rng.choice(zoo.CLASSES))
    pool = gen.names(rng, 5)
    f = any_factor(ctx, cls, pool[:3])
    keep = gen.subset(rng, pool[:3], 0, 2)
    k = int(rng.integers(len(keep) + 1))
    q = keep[:k] + pool[3:3 + int(rng.integers(1, 3))] + keep[k:]
    ctx.count("bad_marginals")
    rejected(ctx, f"{cls}:marginal", lambda: f.marginalize(q, keep=True), lambda: f"{cls} over {f.var_names} to {q}", [f])
    usable(ctx, f)
    ctx.sig("marginal", cls, q)


def order(ctx):
    rng = ctx.rng
    cls = str(rng.choice(["dense", "sparse"]))
    pool = gen.names(rng, 5)
    nms = pool[:int(rng.integers(2, 4))]
    f = any_factor(ctx, cls, nms)
    how = str(rng.choice(["missing", "foreign", "repeated", "more"]))
    o = gen.perm(rng, nms)
    o = {"missing": o[:-1], "foreign": o[:-1] + pool[4:], "repeated": o + o[:1], "more": o + pool[4:]}[how]
    ctx.count("bad_orders")
    rejected(ctx, f"{cls}:reorder-{how}", lambda: f.reorder(list(o)), lambda: f"{nms} to {o}", [f])
    o2 = [v for v in o if rng.random() < 0.8] if how in ("missing", "foreign") else o[:-2]
    if set(o2) != set(nms):
        rejected(ctx, f"{cls}:potential-scope", lambda: f.potential(o2, [0] * len(o2)), lambda: f"{nms} potential of {o2}", [f])
    usable(ctx, f)
    ctx.sig("order", cls, how, o)


# -------------------------------------------------------------------------------------------------------------------- graphs
def graph(ctx):
    from veroku.cluster_graph import ClusterGraph

    rng = ctx.rng
    kind = str(rng.choice(["dense", "sparse", "gaussian"]))
    if kind == "gaussian":
        model = models.gaussian(ctx, linear=False, size=5)
        scopes = [g.names for g in model.grefs]
    else:
        model = models.discrete(ctx, kind, zero=0.1, size=6)
        if model is None:
            return
        scopes = [t.names for t in model.tabs]
    every = sorted({v for s in scopes for v in s})
    if rng.random() < 0.4 and kind != "gaussian":
        bad_graph(ctx, model, every, kind)
        return
    cg = model.graph()
    clusters = graphs.clusters(cg)
    when = str(rng.choice(["before", "during", "after"]))
    if when == "during":
        graphs.random_schedule(ctx, cg, int(rng.integers(1, 6)))
    elif when == "after":
        cg.process_graph(max_iter=5)
    before = {c.cluster_id: zoo.snapshot(c.factor) for c in clusters}
    counter = cg.num_messages_passed
    free = [v for v in every if v not in model.evidence]
    queries = [["no such variable"], [free[0], "no such variable"] if free else ["x!"]]
    if model.evidence:
        o = list(model.evidence)[0]
        queries += [[o]] + ([[free[0], o]] if free else [])
    for _ in range(6):
        if len(free) >= 2:
            q = gen.subset(rng, free, 2, 4)
            if not any(set(q) <= set(c.var_names) for c in clusters):
                queries.append(q)
    for q in queries:
        ctx.count("bad_queries")
        given = list(q)
        rejected(ctx, "query", lambda: cg.get_marginal(q), lambda: f"{when} query {given} evidence {model.evidence}\n{graphs.describe(cg)}",
                 [c.factor for c in clusters])
        ctx.check(q == given, "argument-changed", str(given))
    now = {c.cluster_id: zoo.snapshot(c.factor) for c in graphs.clusters(cg)}
    ctx.check(zoo.same(before, now, 0.0, 1e-12) and cg.num_messages_passed == counter, "graph-changed", lambda: graphs.describe(cg))
    # still usable
    for c in clusters:
        v = list(c.var_names)[:1]
        if v:
            ctx.count("used_afterwards")
            got = graphs.read(cg.get_marginal(v))
            ctx.check(list(got.names) == v, "unusable", str(v))
    if graphs.paths(cg):
        cg.process_graph(max_iter=3)
    ctx.sig("graph", kind, when, scopes)


def bad_graph(ctx, model, every, kind):
    """Graph constructions that cannot be: evidence outside the cardinalities, contradictory cardinalities."""
    from veroku.cluster_graph import ClusterGraph

    rng = ctx.rng
    ctx.count("bad_graphs")
    before = [zoo.snapshot(f) for f in model.factors]
    if rng.random() < 0.5:
        v = every[int(rng.integers(len(every)))]
        ev = {u: int(rng.integers(model.cards[u])) for u in gen.subset(rng, every, 0, 2) if u != v}
        ev[v] = model.cards[v] + int(rng.integers(2))
        ev = {u: ev[u] for u in gen.perm(rng, list(ev))}
        given = dict(ev)
        rejected(ctx, "graph-evidence", lambda: ClusterGraph(model.factors, evidence=ev, disable_tqdm=True),
                 lambda: f"evidence {ev} cards {model.cards}", model.factors)
        ctx.check(ev == given, "argument-changed", str(given))
    else:
        v = every[int(rng.integers(len(every)))]
        other = dict(model.cards)
        other[v] += 1
        rest = gen.subset(rng, [u for u in every if u != v], 0, 1)
        bad = any_factor(ctx, kind, gen.perm(rng, rest + [v]), other)
        facs = list(model.factors)
        facs.insert(int(rng.integers(len(facs) + 1)), bad)

        def call():
            cg = ClusterGraph(facs, disable_tqdm=True)
            cg.process_graph(tol=0.0, max_iter=len(facs) + 4)
        rejected(ctx, "graph-cards", call, lambda: f"{v} with {other[v]} and {model.cards[v]}", facs)
    after = [zoo.snapshot(f) for f in model.factors]
    ctx.check(zoo.same(before, after, 0.0, 1e-12), "graph-factors-changed", lambda: model.describe())
    model.graph()
    ctx.count("used_afterwards")
