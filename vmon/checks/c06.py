"""C06: information measures are true KL divergences; normalisation is exact."""
import numpy as np

from vmon import gen, models, probes, refs

NUM = 6
RULE = ("pairs of dense/sparse tables (hard zeros in either, scales up to e^+-300, permuted axes), Gaussians (all stored forms, "
        "weights, tight and distant ones), Gaussian factorised factors and messages wrapping them; kl_divergence, "
        "distance_from_vacuous and normalize compared with independent formulas; also every call made during real message "
        "passing; non-trivial: the two distributions differ and the orders differ or a zero occurs; distinct by class, "
        "shape, order pattern and zero pattern")
COUNTS = {"quick": 12000, "thorough": 300000}
REQUIRED = {"kl_dense": 1000, "kl_sparse": 1000, "kl_gaussian": 1000, "kl_ff": 300, "kl_infinite": 300, "kl_zero": 200,
            "normalize": 2000, "dfv": 1000, "messages": 300, "tight": 100, "uniform": 200,
            "negligible_support": 200, "units": 200, "ff_same_grouping": 150}


def close(got, want, rtol=1e-7, atol=1e-9):
    try:
        got = float(np.real(got))
    except (TypeError, ValueError):
        return False
    if np.isinf(want):
        return got == np.inf
    return np.isfinite(got) and abs(got - want) <= atol + rtol * abs(want)


def build(ctx, cls, tab):
    rng = ctx.rng
    if cls == "dense":
        return gen.make_dense(rng, tab)
    # the default is the most frequent value or -inf
    vals, cnt = np.unique(tab.logs, return_counts=True)
    default = float(vals[np.argmax(cnt)]) if rng.random() < 0.5 else -np.inf
    return gen.make_sparse(rng, tab, default)


def case(ctx):
    k = ctx.idx % 12
    if k < 5:
        discrete(ctx)
    elif k < 9:
        gaussian(ctx)
    elif k < 10:
        factorised(ctx)
    elif k < 11:
        mixture(ctx)
    else:
        in_graph(ctx)


def wrap(ctx, p, q):
    """Sometimes go through Message."""
    if ctx.rng.random() < 0.2:
        from veroku._cg_helpers._cluster import Message

        ctx.count("messages")
        return Message(p, "a", "b"), Message(q, "a", "b"), True
    return p, q, False


def discrete(ctx):
    rng = ctx.rng
    cls = "dense" if rng.random() < 0.5 else "sparse"
    nms = gen.names(rng, int(rng.integers(1, 5)))
    cds = gen.cards(rng, nms)
    shape = [cds[v] for v in nms]
    zp, zq = float(rng.choice([0, 0, 0.3, 0.6])), float(rng.choice([0, 0, 0.3, 0.5]))
    p = refs.Tab(nms, gen.log_table(rng, shape, zp))
    kind = rng.random()
    order = gen.perm(rng, nms)
    if kind < 0.12:  # equal up to scale and order
        q = p.order(order).scale(float(rng.normal(0, 5)))
    elif kind < 0.6:
        q = refs.Tab(order, gen.log_table(rng, [cds[v] for v in order], zq))
        if kind < 0.4:  # support of p within the support of q
            logs = q.logs.copy()
            bad = (p.order(order).logs != refs.NEG) & (logs == refs.NEG)
            logs[bad] = rng.normal(0, 1, logs.shape)[bad]
            q = refs.Tab(order, logs)
    else:  # close
        q = refs.Tab(order, p.order(order).logs + rng.normal(0, float(rng.choice([1e-6, 1e-3, 0.3])), [cds[v] for v in order]))
    if rng.random() < 0.08:  # what is impossible in q has little mass in p (which can underflow)
        hit = rng.random(shape) < 0.4
        hit.flat[int(np.argmax(p.logs))] = False
        logs = p.logs.copy()
        low = float(rng.choice([10.0, 30.0, 100.0, 800.0, 5000.0]))
        logs[hit] = logs.max() - rng.uniform(low, 2 * low, shape)[hit]
        p = refs.Tab(nms, logs)
        logs = refs.Tab(nms, np.where(hit, refs.NEG, q.order(nms).logs))
        if logs.logs.max() > refs.NEG:
            q = logs.order(order)
            ctx.count("negligible_support", int(hit.any()))
    p = p.scale(float(rng.choice([0.0, 0.0, -300.0, 200.0, rng.normal()])))
    want = p.kl(q)
    fp, fq = build(ctx, cls, p), build(ctx, cls, q)
    if rng.random() < 0.04:
        q, fq, want = p, fp, 0.0
        ctx.count("same_object")
    if cls == "dense" or rng.random() < 1:
        a, b, is_msg = wrap(ctx, fp, fq)
        got = a.kl_divergence(b)
        ctx.count(f"kl_{cls}")
        ctx.count("kl_infinite" if np.isinf(want) else ("kl_zero" if want < 1e-12 else "kl_finite"))
        tol = dict(rtol=1e-7, atol=1e-9)
        ok = ctx.check(close(got, want, **tol), f"{cls}:kl", lambda: f"p={refs.fmt(p)}\nq={refs.fmt(q)}\ngot {got} expected {want}")
        if ok and not is_msg:
            ctx.check(got >= 0, f"{cls}:kl:negative", lambda: str(got))
            # against an already normalised factor, without normalising it
            qn = q.norm()
            got2 = fp.kl_divergence(build(ctx, cls, qn), normalize_factor=False)
            ctx.check(close(got2, want, **tol), f"{cls}:kl:normalize_factor=False",
                      lambda: f"p={refs.fmt(p)}\nq={refs.fmt(qn)}\ngot {got2} expected {want}")
    # distance from vacuous
    ctx.count("dfv")
    uni = refs.Tab(nms, np.zeros(shape))
    got = wrap(ctx, fp, fp)[0].distance_from_vacuous()
    ctx.check(close(got, p.kl(uni), 1e-7, 1e-9), f"{cls}:dfv", lambda: f"{refs.fmt(p)}: {got} expected {p.kl(uni)}")
    if not 1e-12 < p.kl(uni) < 1e-8:
        ctx.check(bool(fp.is_vacuous) == (p.kl(uni) < 1e-12), f"{cls}:is_vacuous", lambda: f"{refs.fmt(p)}: {fp.is_vacuous}")
    if rng.random() < 0.1:  # tables without information
        ctx.count("uniform")
        flat = build(ctx, cls, refs.Tab(order, np.full([cds[v] for v in order], float(rng.choice([0.0, -3.7, 150.0])))))
        ctx.check(flat.distance_from_vacuous() <= 1e-9 and bool(flat.is_vacuous), f"{cls}:uniform",
                  lambda: f"{flat.distance_from_vacuous()} {flat.is_vacuous}")
        ctx.check(close(fp.kl_divergence(flat), p.kl(uni)), f"{cls}:kl:uniform", lambda: f"{refs.fmt(p)}: {fp.kl_divergence(flat)}")
    normal(ctx, cls, fp, p)
    if p.names != q.names or zp or zq:
        ctx.sig(cls, p.logs.shape, tuple(p.names.index(n) for n in q.names), (p.logs == refs.NEG).tobytes(),
                (q.logs == refs.NEG).tobytes())
    ctx.sample(f"KL {refs.fmt(p)} || {refs.fmt(q)} = {want}")


def normal(ctx, cls, f, p):
    n = f.normalize()
    ctx.count("normalize")
    got = refs.tab_of(n)
    ctx.check(refs.tabs_close(got, p.norm(), rtol=1e-10, atol=1e-9), f"{cls}:normalize",
              lambda: f"{refs.fmt(p)} -> {refs.fmt(got)} expected {refs.fmt(p.norm())}")
    again = refs.tab_of(n.normalize())
    ctx.check(refs.tabs_close(again, p.norm(), rtol=1e-10, atol=1e-9), f"{cls}:normalize:idempotent")


def gaussian_pair(ctx):
    rng = ctx.rng
    nms = gen.names(rng, int(rng.integers(1, 6) if rng.random() < 0.96 else rng.integers(8, 16)))
    cov, mean, lw, p = gen.gaussian_params(rng, nms)
    kind = rng.random()
    scale, want = 1.0, None
    if kind < 0.15:  # tight distributions far away from the origin
        ctx.count("tight")
        s = float(rng.choice([1e-3, 1e-2]))
        cov = cov * s * s
        mean = rng.normal(0, 1, len(nms)) + float(rng.choice([0.0, 100.0, 1000.0]))
        p = refs.GRef.cov(nms, cov, mean, lw)
        m2 = mean + rng.normal(0, 1, len(nms)) * s * float(rng.choice([1.0, 5.0, 30.0]))
        c2 = cov * float(rng.choice([1.0, 1.3, 0.6]))
        cov2, mean2, lw2 = c2, m2, lw
        q = refs.GRef.cov(nms, cov2, mean2, lw2)
        scale = (1 + np.abs(mean).max()) ** 2 / (s * s) * 1e-10
    elif kind < 0.3:  # equal up to weight
        cov2, mean2, lw2 = cov, mean, lw + float(rng.choice([0.0, 2.0, -50.0]))
        q = refs.GRef.cov(nms, cov2, mean2, lw2)
    elif kind < 0.5:  # close
        e = float(rng.choice([1e-2, 3e-2, 0.1]))
        cov2, mean2, lw2 = cov * (1 + e), mean + e * rng.normal(0, 1, len(nms)), lw + 1
        q = refs.GRef.cov(nms, cov2, mean2, lw2)
    else:
        cov2, mean2, lw2, q = gen.gaussian_params(rng, nms)
    if kind >= 0.15 and rng.random() < 0.25:  # variables in different units; the divergence does not depend on them
        ctx.count("units")
        u = 10.0 ** rng.integers(-5, 4, size=len(nms))
        if kind >= 0.3:
            want = p.kl(q)
        cov, mean, cov2, mean2 = cov * np.outer(u, u), mean * u, cov2 * np.outer(u, u), mean2 * u
        p, q = refs.GRef.cov(nms, cov, mean, lw), refs.GRef.cov(nms, cov2, mean2, lw2)
    order = gen.perm(rng, nms)
    i = [nms.index(v) for v in order]
    q = q.order(order)
    cov2, mean2 = cov2[np.ix_(i, i)], mean2[i]
    fa, fb = str(rng.choice(gen.FORMS)), str(rng.choice(gen.FORMS))
    return (gen.make_gaussian(rng, p, cov, mean, lw, fa), gen.make_gaussian(rng, q, cov2, mean2, lw2, fb), p, q, fa, fb, scale, want)


def gaussian(ctx):
    rng = ctx.rng
    fp, fq, p, q, fa, fb, scale, want = gaussian_pair(ctx)
    units = want is not None
    want = p.kl(q) if want is None else want
    a, b, is_msg = wrap(ctx, fp, fq)
    got = a.kl_divergence(b)
    ctx.count("kl_gaussian")
    cond = sum(np.linalg.cond(x.K / np.sqrt(np.outer(np.diag(x.K), np.diag(x.K))) if units else x.K) for x in (p, q))
    tol = dict(rtol=1e-7 + 1e-12 * cond + 1e-6 * scale, atol=1e-7 + 1e-12 * cond + 1e-4 * (scale if scale != 1.0 else 0))
    d = lambda: f"{fa} {refs.gfmt(p)}\n{fb} {refs.gfmt(q)}\ngot {got} expected {want}"  # noqa: E731
    if ctx.check(close(got, want, **tol), "gaussian:kl", d):
        ctx.check(got >= 0, "gaussian:kl:negative", d)
        if not is_msg:
            got_w = fp.kl_divergence(fq.normalize(), normalize_factor=False)
            ctx.check(close(got_w, want, **tol), "gaussian:kl:normalize_factor=False", lambda: f"{d()} {got_w}")
    ctx.count("kl_zero" if want < 1e-12 else "kl_finite")
    # normalisation
    ctx.count("normalize")
    src, sref = (fp, p) if rng.random() < 0.5 else (fq, q)
    n = refs.gref_of(src.normalize())
    wantn = refs.GRef(sref.names, sref.K, sref.h, sref.g - sref.log_mass())
    ctx.check(refs.grefs_close(n, wantn, 1e-8, 1e-8), "gaussian:normalize",
              lambda: f"{refs.gfmt(sref)} -> {refs.gfmt(n)} expected {refs.gfmt(wantn)}")
    lw = src.normalize().get_log_weight()
    ctx.check(abs(lw) <= 1e-7 * max(1.0, abs(sref.g)) + 1e-12 * cond, "gaussian:normalize:mass", lambda: f"{refs.gfmt(sref)}: {lw}")
    # distance from vacuous: 0 or infinite
    ctx.count("dfv")
    from veroku.factors.gaussian import Gaussian

    ctx.check(src.distance_from_vacuous() == np.inf and not src.is_vacuous, "gaussian:dfv", lambda: f"{refs.gfmt(sref)}")
    vac = Gaussian.make_vacuous(list(sref.names), g_val=float(rng.normal())) if rng.random() < 0.5 else src.divide(src)
    ctx.check(vac.distance_from_vacuous() == 0.0 and bool(vac.is_vacuous), "gaussian:dfv:vacuous", lambda: f"{vac.prec}")
    ctx.check(vac.kl_divergence(src) == np.inf and src.kl_divergence(vac) == np.inf, "gaussian:kl:vacuous-infinite")
    ctx.check(vac.kl_divergence(Gaussian.make_vacuous(gen.perm(rng, sref.names))) == 0.0, "gaussian:kl:vacuous-zero")
    if len(sref.names) > 1 and rng.random() < 0.4:  # vacuous in some directions only
        from veroku.factors.gaussian import make_linear_gaussian

        kk = int(rng.integers(1, len(sref.names)))
        x, y = sref.names[:kk], sref.names[kk:]
        a = rng.uniform(0.3, 2.0, (len(y), kk)) * rng.choice([-1.0, 1.0], (len(y), kk))
        f = make_linear_gaussian(a, gen.spd(rng, len(y)), x, y)
        ctx.count("partially_vacuous")
        ctx.check(f.distance_from_vacuous() == np.inf, "gaussian:dfv:partially-vacuous")
        ctx.check(f.kl_divergence(src) == np.inf and src.kl_divergence(f) == np.inf and f.kl_divergence(f.copy()) == 0.0,
                  "gaussian:kl:partially-vacuous", lambda: f"{f.prec} {src!r}")
    ctx.sig("gaussian", fa, fb, tuple(p.names.index(v) for v in q.names), round(min(want, 1e6), 3))


def factorised(ctx):
    from veroku.factors.experimental.factorised_factor import FactorizedFactor

    rng = ctx.rng
    pool = gen.names(rng, 4)

    def one(cover, like=None):
        comps, ref = [], refs.GRef([], np.zeros((0, 0)), np.zeros(0), 0.0)
        scopes = [gen.perm(rng, s) for s in like] if like else [gen.subset(rng, cover, 1, 3) for _ in range(int(rng.integers(1, 4)))]
        left = [v for v in cover if all(v not in s for s in scopes)]
        if left:
            scopes.append(left)
        for s in (scopes if like else gen.perm(rng, scopes)):
            cov, mean, lw, r = gen.gaussian_params(rng, s)
            comps.append(gen.make_gaussian(rng, r, cov, mean, lw))
            ref = ref.mul(r)
        return FactorizedFactor(comps), ref
    fp, p = one(pool)
    if rng.random() < 0.4:
        # the same grouping, in the same order, and at times the same part
        fq, q = one(pool, [list(f.var_names) for f in fp.factors])
        ctx.count("ff_same_grouping")
    else:
        fq, q = one(gen.perm(rng, pool))
    want = p.kl(q)
    got = wrap(ctx, fp, fq)
    got = got[0].kl_divergence(got[1])
    ctx.count("kl_ff")
    ctx.check(close(got, want, 1e-6, 1e-6), "ff:kl", lambda: f"{refs.gfmt(p)}\n{refs.gfmt(q)}\ngot {got} expected {want}")
    self_kl = fp.kl_divergence(fp.copy())
    ctx.check(abs(self_kl) < 1e-7, "ff:kl:self", lambda: str(self_kl))
    ctx.check(fp.distance_from_vacuous() == np.inf, "ff:dfv")
    ctx.count("normalize")
    n = fp.normalize()
    got = refs.gref_of(n.joint_distribution)
    wantn = refs.GRef(p.names, p.K, p.h, p.g - p.log_mass())
    ctx.check(refs.grefs_close(got, wantn, 1e-7, 1e-7), "ff:normalize", lambda: f"{refs.gfmt(got)} expected {refs.gfmt(wantn)}")
    ctx.sig("ff", tuple(tuple(pool.index(v) for v in f.var_names) for f in fp.factors))


def mixture(ctx):
    from veroku.factors.experimental.gaussian_mixture import GaussianMixture

    rng = ctx.rng
    nms = gen.names(rng, int(rng.integers(1, 4)))
    comps, rs = [], []
    for _ in range(int(rng.integers(1, 5))):
        cov, mean, lw, r = gen.gaussian_params(rng, nms)
        comps.append(gen.make_gaussian(rng, r, cov, mean, lw))
        rs.append(r)
    gm = GaussianMixture(comps)
    mass = refs.lse([r.log_mass() for r in rs])
    n = gm.normalize()
    ctx.count("normalize")
    ctx.check(abs(n.get_log_weight()) < 1e-8, "gm:normalize:mass", lambda: str(n.get_log_weight()))
    for r, c in zip(rs, n.components):
        got = refs.gref_of(c)
        want = refs.GRef(r.names, r.K, r.h, r.g - mass)
        ctx.check(refs.grefs_close(got, want, 1e-8, 1e-8), "gm:normalize", lambda: f"{refs.gfmt(got)} expected {refs.gfmt(want)}")
    ctx.sig("gm", len(nms), len(comps), round(mass, 3))


def in_graph(ctx):
    """Every divergence evaluated by real message passing is right."""
    rng = ctx.rng
    if rng.random() < 0.6:
        cls = "dense" if rng.random() < 0.5 else "sparse"
        model = models.discrete(ctx, cls, loopy=rng.random() < 0.4, zero=float(rng.choice([0, 0.3])))
        if model is None:
            return
        from veroku.factors.categorical import Categorical
        from veroku.factors.sparse_categorical import SparseCategorical

        klass = Categorical if cls == "dense" else SparseCategorical
        read = refs.tab_of

        def kl(p, q):
            if p.log_mass() == refs.NEG or q.log_mass() == refs.NEG or (p.logs == np.inf).any() or (q.logs == np.inf).any():
                return None
            return p.kl(q)

        def dfv(p):
            return p.kl(refs.Tab(p.names, np.zeros(p.logs.shape))) if p.log_mass() != refs.NEG else None
    else:
        from veroku.factors.gaussian import Gaussian as klass

        cls = "gaussian"
        model = models.gaussian(ctx)
        read = refs.gref_of

        def kl(p, q):
            for x in (p, q):
                e = np.linalg.eigvalsh(x.K)
                if e[0] <= 1e-4 * max(e[-1], 1e-3):
                    return None
            return p.kl(q)

        def dfv(p):
            m = np.abs(p.K).max(initial=0)
            # between the two it is up to rounding noise
            return 0.0 if m == 0.0 else (np.inf if m > 1e-6 else None)

    def wrap_kl(orig):
        def f(self, factor, *a, **k):
            p, q = read(self), read(factor)
            got = orig(self, factor, *a, **k)
            if a or k:
                return got
            want = kl(p, q)
            if want is not None:
                ctx.count("probe_kl")
                ctx.seen("probe_kl_values", round(min(want, 1e9), 6))
                ctx.check(close(got, want, 1e-6, 1e-6), f"probe:{cls}:kl", lambda: f"got {got} expected {want}")
            return got
        return f

    def wrap_dfv(orig):
        def f(self):
            p = read(self)
            got = orig(self)
            want = dfv(p)
            if want is not None:
                ctx.count("probe_dfv")
                ctx.check(close(got, want, 1e-6, 1e-8), f"probe:{cls}:dfv", lambda: f"got {got} expected {want}")
            return got
        return f
    with probes.hooked(klass, {"kl_divergence": wrap_kl, "distance_from_vacuous": wrap_dfv}):
        cg = model.graph()
        cg.process_graph(tol=1e-6, max_iter=3)
    ctx.count("graphs")
