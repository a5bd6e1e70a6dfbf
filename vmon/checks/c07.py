"""C07: equality of factors is semantic."""
import numpy as np

from vmon import gen, refs, zoo

NUM = 7
RULE = ("factors of all seven classes and messages, compared with semantically equal presentations (variable order, stored form, "
        "explicit/implicit entries, component order, regrouped products, arrival order) and with single-point perturbations "
        "(one value, zero pattern, name, cardinality, weight, mean, covariance, component, sender); both directions, == and !=, "
        "operands snapshotted around every comparison; non-trivial: the presentation differs from the original; distinct by "
        "class, kind of change and shape")
COUNTS = {"quick": 6000, "thorough": 120000}
REQUIRED = {"equal_dense": 300, "equal_sparse": 300, "equal_gaussian": 300, "equal_gm": 200, "equal_ff": 200, "equal_nlg": 100,
            "equal_nlgm_joint": 20, "equal_message": 100, "unequal_dense": 300, "unequal_sparse": 300, "unequal_gaussian": 300,
            "unequal_gm": 200, "unequal_ff": 200, "unequal_nlg": 100, "unequal_message": 100, "tolerance": 300, "tolerance_gaussian": 300}


def compare(ctx, a, b, want, what, detail, **tol):
    """equals, == and != in both directions; the operands stay as they were."""
    before = zoo.snapshot(a), zoo.snapshot(b)
    orders = list(a.var_names), list(b.var_names)
    got = {"equals": bool(a.equals(b, **tol)), "equals (swapped)": bool(b.equals(a, **tol))}
    if not tol and not type(a).__name__ == "Message":
        got["=="] = bool(a == b)
        got["!="] = not bool(a != b)
    ctx.count(("equal_" if want else "unequal_") + what.split(":")[0])
    ok = all(v == want for v in got.values())
    ctx.check(ok, f"{what}:{'equal' if want else 'different'}",
              lambda: f"{detail() if callable(detail) else detail}\nexpected {'equal' if want else 'different'}, got {got}\n"
                      f"a = {before[0]}\nb = {before[1]}")
    after = zoo.snapshot(a), zoo.snapshot(b)
    ctx.check(zoo.same(before, after, 1e-12, 1e-12) and orders == (list(a.var_names), list(b.var_names)),
              f"{what}:operand-changed", lambda: f"{before} -> {after}")
    for x in (a, b):
        ctx.check(bool(x.equals(x, **tol)) and bool(x.equals(x.copy(), **tol)), f"{what}:reflexive", lambda: str(before))


def case(ctx):
    k = ctx.idx % 9
    [dense, dense, sparse, sparse, gaussian, gaussian, mixture, factorised, nonlinear][k](ctx)


def perturb_tab(ctx, t):
    """A table differing clearly in one respect; returns (table, kind)."""
    rng = ctx.rng
    kind = str(rng.choice(["value", "value", "zero", "rename", "extra", "card", "swap", "swapnames"]))
    logs = t.logs.copy()
    if kind == "value":
        fin = np.argwhere(np.isfinite(logs))
        i = tuple(fin[int(rng.integers(len(fin)))])
        logs[i] += float(rng.choice([-1, 1])) * float(rng.choice([0.05, 0.3, 1.0])) * (1 + abs(logs[i]) * 0.05)
        return refs.Tab(t.names, logs), kind
    if kind == "zero":
        i = tuple(int(rng.integers(s)) for s in logs.shape)
        logs[i] = float(rng.normal()) if logs[i] == refs.NEG else refs.NEG
        if (logs == refs.NEG).all():
            return perturb_tab(ctx, t)
        return refs.Tab(t.names, logs), kind
    if kind == "rename":
        nn = list(t.names)
        nn[int(rng.integers(len(nn)))] = "renamed'"
        return refs.Tab(nn, logs), kind
    if kind == "extra":
        if rng.random() < 0.5 and len(t.names) > 1:
            return t.marg(t.names[:-1]), "dropped"
        c = int(rng.integers(1, 3))
        return refs.Tab(t.names + ["extra'"], np.repeat(logs[..., None], c, axis=-1)), kind
    if kind == "card":
        ax = int(rng.integers(logs.ndim))
        if logs.shape[ax] > 1 and rng.random() < 0.5:
            logs = np.take(logs, range(logs.shape[ax] - 1), axis=ax)
        else:  # a repeated level: every value of the one also occurs in the other
            logs = np.concatenate([logs, np.take(logs, [logs.shape[ax] - 1], axis=ax)], axis=ax)
        if (logs == refs.NEG).all():
            return perturb_tab(ctx, t)
        return refs.Tab(t.names, logs), kind
    if kind == "swap":
        i = tuple(int(rng.integers(s)) for s in logs.shape)
        j = tuple(int(rng.integers(s)) for s in logs.shape)
        a, b = logs[i], logs[j]
        if a == b or abs(a - b) < 0.05 * (1 + max(abs(a), abs(b)) * 0.05):
            return perturb_tab(ctx, t)
        logs[i], logs[j] = b, a
        return refs.Tab(t.names, logs), kind
    # the same values with two names exchanged
    if len(t.names) > 1:
        i, j = (int(x) for x in rng.permutation(len(t.names))[:2])
        nn = list(t.names)
        nn[i], nn[j] = nn[j], nn[i]
        o = refs.Tab(nn, logs)
        x = o.order(t.names).logs
        if x.shape != logs.shape:
            return o, kind
        with np.errstate(all="ignore"):
            differs = (np.isfinite(x) != np.isfinite(logs)).any() or np.nanmax(np.abs(np.where(
                np.isfinite(x) & np.isfinite(logs), x - logs, 0))) > 0.05 * (1 + 0.05 * np.nanmax(np.abs(
                    np.where(np.isfinite(logs), logs, 0))))
        if differs:
            return o, kind
    return perturb_tab(ctx, t)


def dense(ctx):
    rng = ctx.rng
    nms = gen.names(rng, int(rng.integers(1, 5)))
    cds = gen.cards(rng, nms)
    t = refs.Tab(nms, gen.log_table(rng, [cds[v] for v in nms], float(rng.choice([0, 0.3]))))
    f = gen.make_dense(rng, t)
    u = t.order(gen.perm(rng, nms))
    g = gen.make_dense(rng, u)
    if rng.random() < 0.3:
        g = g.reorder(gen.perm(rng, nms))
    if rng.random() < 0.2:
        v = nms[int(rng.integers(len(nms)))]
        g = g.multiply(gen.make_dense(rng, refs.Tab([v], np.zeros(cds[v]))))
    compare(ctx, f, g, True, "dense", "equal")
    p, kind = perturb_tab(ctx, t)
    p = p.order(gen.perm(rng, p.names))
    compare(ctx, f, gen.make_dense(rng, p), False, f"dense:{kind}", kind)
    tolerance(ctx, "dense", t)
    ctx.sig("dense", kind, t.logs.shape, tuple(nms.index(v) for v in u.names))
    ctx.sample(f"{refs.fmt(t)} vs {kind} {refs.fmt(p)}")


def tolerance(ctx, cls, t, default=None):
    """The tolerances are respected: one value off by half and by twice the tolerance."""
    rng = ctx.rng
    fin = np.argwhere(np.isfinite(t.logs))
    i = tuple(fin[int(rng.integers(len(fin)))])
    atol = float(rng.choice([1e-3, 0.1, 1.0]))
    order = gen.perm(rng, t.names)
    for factor, want in ((0.5, True), (2.0, False)):
        logs = t.logs.copy()
        logs[i] += factor * atol * float(rng.choice([-1, 1]))
        u = refs.Tab(t.names, logs).order(order)
        mk = (lambda x: gen.make_dense(rng, x)) if cls == "dense" else (lambda x: gen.make_sparse(rng, x, default))
        ctx.count("tolerance")
        compare(ctx, mk(t), mk(u), want, f"{cls}:tolerance", lambda: f"entry {i} off by {factor} * atol", rtol=0.0, atol=atol)


    # relative: every entry is off by a fraction of itself
    rtol = float(rng.choice([1e-3, 0.05]))
    base = refs.Tab(t.names, np.where(np.isfinite(t.logs) & (np.abs(t.logs) < 0.1), 0.1, t.logs))
    default = None if default is None or not np.isfinite(default) else (0.1 if abs(default) < 0.1 else default)
    mk = (lambda x: gen.make_dense(rng, x)) if cls == "dense" else (lambda x: gen.make_sparse(rng, x, default))
    for factor, want in ((0.5, True), (2.0, False)):
        logs = base.logs.copy()
        j = tuple(fin[int(rng.integers(len(fin)))])
        logs[j] *= 1.0 + factor * rtol * float(rng.choice([-1, 1]))
        ctx.count("tolerance")
        fa, fb = mk(base), mk(refs.Tab(t.names, logs).order(order))
        if rng.random() < 0.3:
            from veroku._cg_helpers._cluster import Message

            fa, fb = Message(fa, "c0#a", "c1#b"), Message(fb, "c0#a", "c1#b")
        compare(ctx, fa, fb, want, f"{cls}:relative-tolerance", lambda: f"entry {j} off by {factor} * rtol", rtol=rtol, atol=1e-12)


def sparse(ctx):
    rng = ctx.rng
    nms = gen.names(rng, int(rng.integers(1, 5)))
    cds = gen.cards(rng, nms)
    t, d = gen.sparse_tab(rng, nms, cds, float(rng.choice([0.2, 0.6])))
    f = gen.make_sparse(rng, t, d)
    u = t.order(gen.perm(rng, nms))
    kind = rng.random()
    if kind < 0.4:
        g = gen.make_sparse(rng, u, d)
    elif kind < 0.6:  # everything explicit
        g = gen.make_sparse(rng, u, d, p_explicit_default=1.1)
    elif kind < 0.8:  # another value as the default
        vals = np.unique(u.logs)
        g = gen.make_sparse(rng, u, float(vals[int(rng.integers(len(vals)))]))
    else:
        g = f.reorder(gen.perm(rng, nms)) if rng.random() < 0.5 else gen.make_sparse(rng, t, d).reorder(gen.perm(rng, nms))
    compare(ctx, f, g, True, "sparse", "equal")
    p, change = perturb_tab(ctx, t)
    p = p.order(gen.perm(rng, p.names))
    dd = d if rng.random() < 0.7 else float(p.logs.ravel()[int(rng.integers(p.logs.size))])
    compare(ctx, f, gen.make_sparse(rng, p, dd), False, f"sparse:{change}", change)
    tolerance(ctx, "sparse", t, d)
    ctx.sig("sparse", change, t.logs.shape, tuple(nms.index(v) for v in u.names), d)


def loose_and_tight(ctx, what, f, g):
    """g differs from f by far more than a tight tolerance and by far less than a huge one."""
    ctx.count("tolerance_gaussian")
    compare(ctx, f, g, True, f"{what}:loose", "huge atol", rtol=0.0, atol=1e5)
    compare(ctx, f, g, False, f"{what}:tight", "tiny tolerances", rtol=1e-9, atol=1e-9)


def small_gaussian(ctx, nms):
    cov, mean, _, _ = gen.gaussian_params(ctx.rng, nms)
    lw = float(ctx.rng.uniform(-1, 1))
    return cov, mean, lw


def build(ctx, nms, cov, mean, lw, order=None, form=None):
    ref = refs.GRef.cov(nms, cov, mean, lw)
    order = order or list(nms)
    i = [nms.index(v) for v in order]
    return gen.make_gaussian(ctx.rng, ref.order(order), cov[np.ix_(i, i)], mean[i], lw, form), ref


def perturb_gaussian(ctx, nms, cov, mean, lw, structural=True):
    rng = ctx.rng
    kind = str(rng.choice(["mean", "cov", "weight", "corr"] + (["rename", "dropped", "swapnames"] if structural else [])))
    nms, cov, mean = list(nms), cov.copy(), mean.copy()
    i = int(rng.integers(len(nms)))
    s = float(rng.choice([-1, 1]))
    if kind == "mean":
        mean[i] += s * float(rng.choice([0.5, 2.0])) * max(1.0, np.sqrt(cov[i, i]))
    elif kind == "cov":
        cov[i, i] *= float(rng.choice([1.3, 2.0]))
    elif kind == "weight":
        lw += s * float(rng.choice([0.3, 1.0]))
    elif kind == "corr":
        if len(nms) < 2:
            return perturb_gaussian(ctx, nms, cov, mean, lw, structural)
        j = (i + 1) % len(nms)
        r = 0.35 * s * np.sqrt(cov[i, i] * cov[j, j])
        cov[i, j] += r
        cov[j, i] += r
        while np.linalg.eigvalsh(cov)[0] < 0.05:
            cov = cov + np.eye(len(nms)) * 0.7
    elif kind == "rename":
        nms[i] = "renamed'"
    elif kind == "dropped":
        if len(nms) < 2:
            return perturb_gaussian(ctx, nms, cov, mean, lw, structural)
        keep = [k for k in range(len(nms)) if k != i]
        nms, cov, mean = [nms[k] for k in keep], cov[np.ix_(keep, keep)], mean[keep]
    else:
        if len(nms) < 2 or np.ptp(mean) < 1.0:
            return perturb_gaussian(ctx, nms, cov, mean, lw, structural)
        lo, hi = int(np.argmin(mean)), int(np.argmax(mean))
        nms[lo], nms[hi] = nms[hi], nms[lo]
    return nms, cov, mean, lw, kind


def gaussian(ctx):
    rng = ctx.rng
    nms = gen.names(rng, int(rng.integers(1, 6)))
    cov, mean, lw = small_gaussian(ctx, nms)
    fa, fb = str(rng.choice(gen.FORMS)), str(rng.choice(gen.FORMS))
    f, ref = build(ctx, nms, cov, mean, lw, gen.perm(rng, nms), fa)
    g, _ = build(ctx, nms, cov, mean, lw, gen.perm(rng, nms), fb)
    compare(ctx, f, g, True, "gaussian", lambda: f"{fa} {fb} {refs.gfmt(ref)}")
    n2, c2, m2, l2, kind = perturb_gaussian(ctx, nms, cov, mean, lw)
    fc = str(rng.choice(gen.FORMS))
    h, hr = build(ctx, n2, c2, m2, l2, gen.perm(rng, n2), fc)
    compare(ctx, f, h, False, f"gaussian:{kind}", lambda: f"{fa} {fc} {kind}\n{refs.gfmt(ref)}\n{refs.gfmt(hr)}")
    message(ctx, f, g, h)
    if rng.random() < 0.3:
        near, _ = build(ctx, nms, cov, mean + 1e-3, lw, gen.perm(rng, nms), fc)
        loose_and_tight(ctx, "gaussian", f, near)
        from veroku._cg_helpers._cluster import Message

        loose_and_tight(ctx, "message", Message(f, "c0#a", "c1#b"), Message(near, "c0#a", "c1#b"))
        # relative: parameters that are all proportional to the mean
        rtol = float(rng.choice([1e-3, 1e-2]))
        far = rng.uniform(2e3, 2e4, len(nms)) * rng.choice([-1, 1], len(nms))
        a, _ = build(ctx, nms, cov, far, 0.0, None, fa)
        for factor, want in ((0.3, True), (4.0, False)):
            b, _ = build(ctx, nms, cov, far * (1 + factor * rtol), 0.0, gen.perm(rng, nms), fb)
            m = (Message(a, "c0#a", "c1#b"), Message(b, "c0#a", "c1#b")) if rng.random() < 0.5 else (a, b)
            ctx.count("tolerance_gaussian")
            compare(ctx, *m, want, "gaussian:relative-tolerance", lambda: f"mean off by {factor} * rtol", rtol=rtol, atol=1e-3)
    ctx.sig("gaussian", fa, fb, fc, kind, len(nms))


def message(ctx, f, g, h):
    from veroku._cg_helpers._cluster import Message

    if ctx.rng.random() < 0.4:
        m = Message(f, "c0#a", "c1#b")
        compare(ctx, m, Message(g, "c0#a", "c1#b"), True, "message", "")
        compare(ctx, m, Message(h, "c0#a", "c1#b"), False, "message:factor", "")
        s, r = [("c1#a", "c1#b"), ("c0#a", "c0#b"), ("c1#b", "c0#a")][int(ctx.rng.integers(3))]
        compare(ctx, m, Message(g, s, r), False, "message:route", "")


def mixture(ctx):
    from veroku.factors.experimental.gaussian_mixture import GaussianMixture

    rng = ctx.rng
    nms = gen.names(rng, int(rng.integers(1, 4)))
    n = int(rng.integers(1, 5))
    params = [small_gaussian(ctx, nms) for _ in range(n)]

    def mk(ps, names_list=None, order=None):
        order = order or list(names_list or nms)
        return GaussianMixture([build(ctx, names_list or nms, *p, order)[0] for p in ps])
    f = mk(params)
    g = mk(gen.perm(rng, params), order=gen.perm(rng, nms))
    compare(ctx, f, g, True, "gm", "permuted components")
    if rng.random() < 0.3:
        loose_and_tight(ctx, "gm", f, mk([(c, m + 1e-3, w) for c, m, w in gen.perm(rng, params)]))
    kind = str(rng.choice(["component", "component", "fewer", "multiset", "rename"]))
    other = list(params)
    nn = list(nms)
    i = int(rng.integers(n))
    if kind == "component":
        _, c2, m2, l2, sub = perturb_gaussian(ctx, nms, *params[i], structural=False)
        other[i] = (c2, m2, l2)
        kind = "component-" + sub
    elif kind == "fewer":
        other = other + [params[i]] if n == 1 or rng.random() < 0.5 else other[:i] + other[i + 1:]
    elif kind == "multiset" and n >= 2:
        j = (i + 1) % n
        # {i, i, j, ...} against {i, j, j, ...}: every component of one has an equal one in the other
        f = mk(params + [params[i]])
        other = params + [params[j]]
        if abs(params[i][1] - params[j][1]).max() < 0.5:
            return
    else:
        kind = "rename"
        nn[0] = "renamed'"
    compare(ctx, f, mk(gen.perm(rng, other), nn), False, f"gm:{kind}", kind)
    ctx.sig("gm", kind, n, len(nms))


def factorised(ctx):
    from veroku.factors.experimental.factorised_factor import FactorizedFactor

    rng = ctx.rng
    pool = gen.names(rng, int(rng.integers(2, 5)))
    scopes = [gen.subset(rng, pool, 1, 3) for _ in range(int(rng.integers(1, 4)))]
    left = [v for v in pool if all(v not in s for s in scopes)]
    if left:
        scopes.append(left)
    params = [(s,) + small_gaussian(ctx, s) for s in scopes]

    def parts(ps):
        return [build(ctx, s, c, m, w, gen.perm(rng, s))[0] for s, c, m, w in ps]
    f = FactorizedFactor(parts(params))
    fs = gen.perm(rng, parts(params))
    if len(fs) > 1 and rng.random() < 0.6:  # regroup
        i = int(rng.integers(len(fs) - 1))
        fs[i: i + 2] = [fs[i].multiply(fs[i + 1])]
    g = FactorizedFactor(fs)
    compare(ctx, f, g, True, "ff", "regrouped")
    if rng.random() < 0.3:
        joint = fs[0]
        for x in fs[1:]:
            joint = joint.multiply(x)
        ctx.check(bool(f.equals(joint)), "ff:equal-to-joint-gaussian")
    if rng.random() < 0.3:
        loose_and_tight(ctx, "ff", f, FactorizedFactor(parts([(s, c, m + 1e-3, w) for s, c, m, w in params])))
    i = int(rng.integers(len(params)))
    s, c, m, w = params[i]
    s2, c2, m2, w2, kind = perturb_gaussian(ctx, s, c, m, w)
    other = list(params)
    other[i] = (s2, c2, m2, w2)
    if kind in ("dropped", "swapnames") or (kind == "rename" and set(s2) == set(s)):
        return
    h = FactorizedFactor(gen.perm(rng, parts(other)))
    compare(ctx, f, h, False, f"ff:{kind}", kind)
    ctx.sig("ff", kind, tuple(tuple(sorted(pool.index(v) for v in s)) for s in scopes))


def nonlinear(ctx):
    from veroku.factors.experimental.nonlinear_gaussian import NonLinearGaussian

    rng = ctx.rng
    nms = gen.names(rng, 4)
    kx = int(rng.integers(1, 3))
    x, y = nms[:kx], nms[kx: kx + int(rng.integers(1, 3))]
    kind = str(rng.choice(["linear", "sin", "square", "abs", "tanh"]))
    a, b = rng.normal(0, 1, (len(y), len(x))), rng.normal(0, 1, len(y))
    noise = gen.spd(rng, len(y))
    prior = small_gaussian(ctx, x)
    lik = small_gaussian(ctx, y)

    def mk(a=a, b=b, noise=noise, prior=prior, lik=lik, ordx=None, first=True, xn=x):
        ordx = ordx or list(range(len(x)))
        f = NonLinearGaussian([xn[i] for i in ordx], list(y), zoo.Transform(kind, a[:, ordx], b), noise)
        gs = [build(ctx, xn, *prior)[0], build(ctx, y, *lik, gen.perm(rng, y))[0]]
        for g in (gs if first else gs[::-1]):
            f = f.multiply(g)
        return f
    f = mk()
    g = mk(ordx=gen.perm(rng, range(len(x))), first=bool(rng.random() < 0.5))
    if rng.random() < 0.5:
        g.get_mean()
    compare(ctx, f, g, True, "nlg", "arrival order")
    if rng.random() < 0.3:
        loose_and_tight(ctx, "nlg", f, mk(lik=(lik[0], lik[1] + 1e-3, lik[2])))
    change = str(rng.choice(["noise", "offset", "prior", "lik", "unabsorbed"]))
    if change == "noise":
        h = mk(noise=noise + np.eye(len(y)))
    elif change == "offset":
        h = mk(b=b + 4.0) if kind == "linear" else mk(lik=(lik[0], lik[1] + 4.0, lik[2]))
    elif change == "prior":
        h = mk(prior=(prior[0], prior[1], prior[2] + 0.5))
    elif change == "lik":
        h = mk(lik=(lik[0] * 2.0, lik[1], lik[2]))
    else:
        h = NonLinearGaussian(list(x), list(y), zoo.Transform(kind, a, b), noise)
    compare(ctx, f, h, False, f"nlg:{change}", change)
    # mixtures of them have no equality of their own: compared through their joint distributions
    if rng.random() < 0.3:
        from veroku.factors.experimental.nonlinear_gaussian import NonLinearGaussianMixture

        m1 = NonLinearGaussianMixture([f, mk(prior=(prior[0], prior[1] + 3, prior[2]))])
        m2 = NonLinearGaussianMixture([mk(prior=(prior[0], prior[1] + 3, prior[2])), f])
        ctx.count("equal_nlgm_joint")
        ctx.check(m1.joint_distribution.equals(m2.joint_distribution), "nlgm:joint-equal")
    ctx.sig("nlg", kind, change, len(x), len(y))
