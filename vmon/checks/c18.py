"""C18: templates and linear-Gaussian constructors produce the documented factors."""
import numpy as np

from vmon import gen, models, refs, zoo

NUM = 18
RULE = ("linear-Gaussian conditionals of random shapes and noise scales (direct and from templates) against the conditional density, the exact "
        "joint and the unit integral; every template class with random format strings, format dictionaries and explicit names against direct "
        "construction, with mutations of made factors and of the caller's arguments in between; formattable() against what formatting does; "
        "non-trivial: any made factor; distinct by class, shape, template strings and dictionary")
COUNTS = {"quick": 4000, "thorough": 200000}
REQUIRED = {"linear": 700, "linear_templates": 250, "non_square": 350, "small_noise": 100, "joints": 700, "unit_integrals": 700,
            "densities": 2000, "dense_templates": 300, "sparse_templates": 300, "gaussian_templates": 300, "nlg_templates": 300,
            "formattable_true": 500, "formattable_false": 500, "explicit_names": 400, "mutated": 800, "simple_constructors": 100, "plain_templates": 20, "units": 200}


def case(ctx):
    if ctx.idx % 25 == 0:
        return simple(ctx)
    if ctx.idx % 12 == 5:
        return units(ctx)
    if ctx.rng.random() < 0.35:
        return linear(ctx)
    return template(ctx)


# ---------------------------------------------------------------------------------------------------------------- other constructors
def simple(ctx):
    """make_std_gaussian and make_random_gaussian: independent unit-mass Gaussians over the given variables in their order."""
    from veroku.factors.gaussian import make_random_gaussian, make_std_gaussian

    rng = ctx.rng
    nms = gen.names(rng, int(rng.integers(1, 6)))
    given = list(nms)
    f = make_std_gaussian(given)
    given.append("extra")
    got = refs.gref_of(f)
    want = refs.GRef.cov(nms, np.eye(len(nms)), np.zeros(len(nms)), 0.0)
    ctx.check(list(f.var_names) == nms and refs.grefs_close(got, want, 1e-12, 1e-12), "standard", lambda: f"{nms}: {refs.gfmt(got)}")
    kw = {}
    if rng.random() < 0.6:
        m = sorted(float(v) for v in rng.normal(0, 50, 2))
        kw["mean_range"] = m
    if rng.random() < 0.6:
        kw["cov_range"] = sorted(float(10.0 ** v) for v in rng.uniform(-3, 3, 2))
    np.random.seed(int(rng.integers(2**31)))
    f = make_random_gaussian(list(nms), **kw)
    (m0, m1), (c0, c1) = kw.get("mean_range", [-10, 10]), kw.get("cov_range", [1, 10])
    cov, mean = f.get_cov(), np.ravel(f.get_mean())
    v = np.diag(cov)
    ok = (list(f.var_names) == nms and cov.shape == (len(nms), len(nms)) and np.all(cov == np.diag(v)) and np.all((v >= c0) & (v <= c1)) and
          mean.shape == (len(nms),) and np.all((mean >= m0) & (mean <= m1)) and f.get_log_weight() == 0.0)
    if len(nms) > 1:
        ok = ok and len(set(v)) == len(nms) and len(set(mean)) == len(nms)
    ctx.count("simple_constructors")
    ctx.check(bool(ok), "random", lambda: f"{nms} {kw}: mean {mean} cov {cov} log weight {f.get_log_weight()}")
    ctx.sig("simple", tuple(nms), sorted(kw))


# ---------------------------------------------------------------------------------------------------------------- linear Gaussian
def linear(ctx):
    from veroku.factors.gaussian import make_linear_gaussian, make_linear_gaussian_cpd_template

    rng = ctx.rng
    nx, ny = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    if rng.random() < 0.05:
        nx, ny = int(rng.integers(1, 9)), int(rng.integers(4, 9))
    nms = gen.names(rng, nx + ny)
    x, y = nms[:nx], nms[nx:]
    a = rng.normal(0, 1, (ny, nx))
    style = str(rng.choice(["dense", "zero", "sparse", "scaled"]))
    if style == "zero":
        a = a * 0.0
    elif style == "sparse":
        a = a * (rng.random(a.shape) < 0.5)
    elif style == "scaled":
        a = a * float(10.0 ** rng.uniform(-3, 3))
    scale = 1.0 if rng.random() < 0.6 else float(10.0 ** rng.uniform(-8, 4))
    noise = gen.spd(rng, ny) * scale
    ctx.count("small_noise", scale < 1e-4)
    ctx.count("linear")
    ctx.count("non_square", nx != ny)
    a_arg, n_arg = a.copy(), noise.copy()
    if rng.random() < 0.4:
        tmpl_x, tmpl_y, fd = templates_for(ctx, x, y)
        t = make_linear_gaussian_cpd_template(a_arg, n_arg, list(tmpl_x), list(tmpl_y))
        ctx.count("linear_templates")
        first = t.make_factor(format_dict=dict(fd)) if rng.random() < 0.7 else t.make_factor(var_names=x + y)
        if list(first.var_names) != x + y:
            ctx.violate("template-names", f"{tmpl_x} {tmpl_y} {fd}: {first.var_names} expected {x + y}")
            return
        spoil(ctx, first)
        a_arg *= 3.0
        n_arg += 1.0
        f = t.make_factor(format_dict=dict(fd))
    else:
        lx, ly = list(x), list(y)
        f = make_linear_gaussian(a_arg, n_arg, lx, ly)
        a_arg *= 3.0
        n_arg += 1.0
        lx.append("extra")
        ly.clear()
    want = models.linear_gaussian_ref(a, noise, x, y)

    def info():
        return f"A={a.tolist()} N={noise.tolist()} {x} -> {y} ({style}, noise scale {scale})"
    got = refs.gref_of(f)
    kscale = max(1.0, float(np.abs(want.K).max()))
    ok = (list(got.names) == x + y and np.all(np.abs(got.K - want.K) <= 1e-9 * kscale) and np.all(np.abs(got.h) <= 1e-9 * kscale) and
          abs(got.g - want.g) <= 1e-8 * max(1.0, abs(want.g)))
    if not ctx.check(bool(ok), "conditional", lambda: info() + f"\nis {refs.gfmt(got)}\nexpected {refs.gfmt(want)}"):
        return
    # density at points near the conditional's ridge
    low = np.linalg.cholesky(noise)
    for _ in range(3):
        xv = rng.normal(0, 2, nx)
        e = rng.normal(0, 1.5, ny)
        yv = a @ xv + low @ e
        dens = -0.5 * e @ e - 0.5 * ny * np.log(2 * np.pi) - np.log(np.diag(low)).sum()
        at = dict(zip(x + y, np.concatenate([xv, yv])))
        order = list(f.var_names)
        have = float(np.ravel(f.log_potential(np.array([at[v] for v in order]).reshape(-1, 1)))[0])
        slack = 1e-13 * kscale * (1 + np.abs(yv).max() + np.abs(xv).max()) ** 2 * 10
        ctx.count("densities")
        if not ctx.check(abs(have - dens) <= 1e-7 + slack, "density", lambda: info() + f"\nat {at}: {have} expected {dens}"):
            return
    # joint with a density of x
    cov, mean, lw, px = gen.gaussian_params(rng, gen.perm(rng, x))
    g = gen.make_gaussian(rng, px, cov, mean, lw)
    joint = g.multiply(f) if rng.random() < 0.5 else f.multiply(g)
    cx, mx = px.order(x).covariance(), px.order(x).mean()
    jc = np.block([[cx, cx @ a.T], [a @ cx, a @ cx @ a.T + noise]])
    jm = np.concatenate([mx, a @ mx])
    cond = np.linalg.cond(jc)
    ctx.count("joints")
    if cond < 1e9:
        names = list(joint.var_names)
        idx = [names.index(v) for v in x + y]
        t = max(1e-7, 1e-13 * cond * 50)
        ok = (np.all(np.abs(joint.get_cov()[np.ix_(idx, idx)] - jc) <= t * max(1.0, np.abs(jc).max())) and
              np.all(np.abs(np.ravel(joint.get_mean())[idx] - jm) <= t * max(1.0, np.abs(jm).max(), np.abs(jc).max())) and
              abs(joint.get_log_weight() - lw) <= t * max(1.0, abs(lw), np.abs(jm).max() ** 2))
        if not ctx.check(bool(ok), "joint", lambda: info() + f"\nmean {np.ravel(joint.get_mean())[idx]} expected {jm}\ncov {joint.get_cov()} "
                         f"expected {jc}\nweight {joint.get_log_weight()} expected {lw}"):
            return
    # integrating out y gives the constant one
    m = refs.gref_of(f.marginalize(list(x), keep=True))
    ctx.count("unit_integrals")
    t = 1e-9 * kscale * max(1.0, np.linalg.cond(noise))
    ok = np.all(np.abs(m.K) <= t) and np.all(np.abs(m.h) <= t) and abs(m.g) <= 1e-7
    ctx.check(bool(ok), "unit-integral", lambda: info() + f"\nmarginal over {x} is {refs.gfmt(m)}")
    ctx.sig("linear", nx, ny, style, round(np.log10(scale)), tuple(nms))
    ctx.sample(info())


def units(ctx):
    """Variables in very different units: the conditional is that of the unit problem, rescaled."""
    from veroku.factors.gaussian import make_linear_gaussian, make_linear_gaussian_cpd_template

    rng = ctx.rng
    nx, ny = int(rng.integers(1, 4)), int(rng.integers(2, 5))
    nms = gen.names(rng, nx + ny)
    x, y = nms[:nx], nms[nx:]
    a = rng.normal(0, 1, (ny, nx))
    noise = gen.spd(rng, ny) if rng.random() < 0.6 else np.diag(rng.uniform(0.3, 3, ny))
    d = 10.0 ** rng.uniform(-4, 3, nx + ny)
    dx, dy = d[:nx], d[nx:]
    a_arg, n_arg = a * dy[:, None] / dx[None, :], noise * np.outer(dy, dy)
    if rng.random() < 0.5:
        f = make_linear_gaussian(a_arg, n_arg, list(x), list(y))
    else:
        f = make_linear_gaussian_cpd_template(a_arg, n_arg, list(x), list(y)).make_factor(var_names=x + y)
    want = models.linear_gaussian_ref(a, noise, x, y)
    got = refs.gref_of(f).order(x + y)
    k = got.K * np.outer(d, d)
    g = want.g - np.log(dy).sum()
    top = max(1.0, float(np.abs(want.K).max()))
    ok = np.all(np.abs(k - want.K) <= 1e-6 * top) and np.all(np.abs(got.h * d) <= 1e-6 * top) and abs(got.g - g) <= 1e-7 * max(1.0, abs(g))
    ctx.count("units")
    ctx.check(bool(ok), "units", lambda: f"A={a_arg.tolist()} N={n_arg.tolist()} {x} -> {y}\nis {refs.gfmt(got)}\nin units {d}: {k.tolist()} expected "
              f"{want.K.tolist()}; g expected {g}")
    ctx.sig("units", nx, ny, tuple(np.round(np.log10(d))))


# --------------------------------------------------------------------------------------------------------------------- templates
def esc(s):
    return s.replace("{", "{{").replace("}", "}}")


KEYS = ["i", "t", "k", "var", "idx_1"]
VALUES = [0, 1, 7, 10, -3, 123, "x", "a b", "{y}", "é", "", 2.5]


def one_template(rng, fd):
    """A format string and the name it formats to."""
    text, name = "", ""
    for _ in range(int(rng.integers(1, 4))):
        u = rng.random()
        if u < 0.45 or not fd:
            lit = str(rng.choice(["a", "b_", "x", "{", "}", "_", "1", "é", "var "]))
            text += esc(lit)
            name += lit
        else:
            k = str(rng.choice(sorted(fd)))
            v = fd[k]
            spec = ""
            if isinstance(v, int) and rng.random() < 0.3:
                spec = str(rng.choice([":03d", ":d", ":>4"]))
            elif rng.random() < 0.15:
                spec = "!r"
            text += "{" + k + spec + "}"
            name += ("{0" + spec + "}").format(v)
    return text, name


def templates_list(ctx, n):
    """n format strings with distinct formatted names, and the dictionary."""
    rng = ctx.rng
    if rng.random() < 0.1:  # names without any fields
        ctx.count("plain_templates")
        pairs = [one_template(rng, {}) for _ in range(n)]
        if len({b for _, b in pairs}) == n:
            return [a for a, _ in pairs], [b for _, b in pairs], {}
    fd = {str(k): VALUES[int(rng.integers(len(VALUES)))] for k in gen.subset(rng, KEYS, 1, 3)}
    for _ in range(200):
        pairs = [one_template(rng, fd) for _ in range(n)]
        if len({b for _, b in pairs}) == n:
            return [a for a, _ in pairs], [b for _, b in pairs], fd
        fd = {str(k): VALUES[int(rng.integers(len(VALUES)))] for k in gen.subset(rng, KEYS, 1, 3)}
    return ["v" + str(i) + "_{i}" for i in range(n)], ["v" + str(i) + "_5" for i in range(n)], {"i": 5}


def templates_for(ctx, x, y):
    """Format strings for given names (fields cut out of the names)."""
    rng = ctx.rng
    fd, out = {}, []
    for j, v in enumerate(x + y):
        a, b = sorted(int(i) for i in rng.integers(0, len(v) + 1, 2))
        key = f"f{j}"
        fd[key] = v[a:b]
        out.append(esc(v[:a]) + "{" + key + "}" + esc(v[b:]))
    return out[: len(x)], out[len(x):], fd


def spoil(ctx, factor):
    """Mutate everything mutable that a made factor exposes."""
    ctx.count("mutated")
    for attr in ("prec", "h_vec", "log_probs_tensor", "noise_cov"):
        v = getattr(factor, attr, None)
        if isinstance(v, np.ndarray):
            try:
                v += 5.0
            except ValueError:
                pass
    for attr in ("cardinalities", "conditioning_vars", "conditional_vars"):
        v = getattr(factor, attr, None)
        if isinstance(v, list):
            v.append(v[0])
    t = getattr(factor, "log_probs_table", None)
    if isinstance(t, dict):
        for k in list(t):
            t[k] = 9.0
    if isinstance(factor.var_names, list):
        factor.var_names.append("spoilt")


def template(ctx):
    from veroku.factors.categorical import Categorical, CategoricalTemplate
    from veroku.factors.experimental.nonlinear_gaussian import NonLinearGaussian, NonLinearGaussianTemplate
    from veroku.factors.gaussian import Gaussian, GaussianTemplate
    from veroku.factors.sparse_categorical import SparseCategorical, SparseCategoricalTemplate

    rng = ctx.rng
    n = int(rng.integers(1, 4))
    kind = str(rng.choice(["dense", "sparse", "gaussian", "nlg"]))
    if kind == "nlg":
        n = max(n, 2)
    tmpl, nms, fd = templates_list(ctx, n)
    ctx.count(kind + "_templates")
    explicit = gen.names(rng, n)
    targ = list(tmpl)
    made = []
    if kind in ("dense", "sparse"):
        cards = [int(rng.integers(1, 4)) for _ in range(n)]
        logs = gen.log_table(rng, cards, 0.3, "normal")
        table = {tuple(int(i) for i in a): float(np.exp(logs[a])) for a in np.ndindex(*cards) if logs[a] > -np.inf}
        if kind == "dense" and rng.random() < 0.5:
            arg = logs.copy()
            t = CategoricalTemplate(var_templates=targ, log_probs_tensor=arg)

            def direct(names):
                return Categorical(var_names=names, log_probs_tensor=logs.copy())

            def change():
                arg[...] = 3.0
        else:
            arg, carg = dict(table), list(cards)
            if kind == "dense":
                t = CategoricalTemplate(var_templates=targ, cardinalities=carg, probs_table=arg)
            else:
                t = SparseCategoricalTemplate(probs_table=arg, cardinalities=carg, var_templates=targ)
            cls = Categorical if kind == "dense" else SparseCategorical

            def direct(names):
                return cls(var_names=names, cardinalities=list(cards), probs_table=dict(table))

            def change():
                for k in list(arg):
                    arg[k] = 0.123
                carg.append(2)

        def make(**kw):
            return t.make_factor(**kw)

        def by_names(names):
            return t.make_factor(var_names=names)
    elif kind == "gaussian":
        ref = gen.gaussian_params(rng, nms)[3]
        if rng.random() < 0.2:
            ref = refs.GRef(nms, ref.K * 0.0, ref.h, ref.g)
        pars = {"prec": ref.K.copy(), "h": ref.h.reshape(-1, 1).copy(), "g": float(ref.g)}
        t = GaussianTemplate(pars, targ)

        def direct(names):
            return Gaussian(prec=ref.K.copy(), h_vec=ref.h.reshape(-1, 1).copy(), g_val=float(ref.g), var_names=names)

        def change():
            pars["prec"] += 1.0
            pars["h"] += 1.0
            pars["g"] = 77.0

        def make(**kw):
            return t.make_factor(**kw)

        def by_names(names):
            return t.make_factor(var_names=names)
    else:
        k = int(rng.integers(1, n))
        tr = zoo.Transform(str(rng.choice(["linear", "sin"])), rng.normal(0, 1, (n - k, k)), rng.normal(0, 1, n - k))
        noise = gen.spd(rng, n - k)
        narg = noise.copy()
        cond_t, out_t = targ[:k], targ[k:]
        t = NonLinearGaussianTemplate(cond_t, out_t, tr, narg)
        cov, mean, lw, _ = gen.gaussian_params(rng, ["p"] * k)

        def absorb(f):
            # give the joint something to transform
            return f.multiply(Gaussian(cov=cov, mean=mean, log_weight=lw, var_names=list(f.conditioning_vars)))

        def direct(names):
            return absorb(NonLinearGaussian(list(names[:k]), list(names[k:]), tr, noise.copy()))

        def change():
            narg[...] += 1.0
            cond_t.append("zzz")
            out_t.append("yyy")

        def make(**kw):
            f = t.make_factor(**kw)
            made.append(f)
            return absorb(f)

        def by_names(names):
            return make(conditioning_vars=list(names[:k]), conditional_vars=list(names[k:]))

    def info():
        return f"{kind} {tmpl} {fd} -> {nms}"

    def same(f, names, what):
        a, b = zoo.snapshot(f), zoo.snapshot(direct(list(names)))
        return ctx.check(type(f) is type(direct(list(names))) and list(f.var_names) == list(names) and zoo.same(a, b, 1e-12, 1e-12), what,
                         lambda: info() + f"\nis {a}\nexpected {b}")
    extra = dict(fd, unused=3) if rng.random() < 0.3 else dict(fd)
    if not ctx.check(t.formattable(extra) is True, "formattable", info):
        return
    ctx.count("formattable_true")
    f = make(format_dict=extra)
    if not same(f, nms, "made"):
        return
    spoil(ctx, made[-1] if made else f)
    change()
    targ.append("{oops}")
    f = make(format_dict=dict(fd))
    if not same(f, nms, "made-after-mutation"):
        return
    arg = list(explicit)
    f = by_names(arg)
    arg.append("later")
    ctx.count("explicit_names")
    if not same(f, explicit, "explicit-names"):
        return
    # other dictionaries
    for d in broken(ctx, fd):
        can = True
        try:
            for s in tmpl:
                s.format(**d)
        except (KeyError, IndexError, ValueError, TypeError, AttributeError):
            can = False
        ctx.count("formattable_true" if can else "formattable_false")
        if not ctx.check(t.formattable(d) is can, "formattable", lambda: info() + f"\nwith {d}: {t.formattable(d)} expected {can}"):
            return
        if not can:
            try:
                made_factor = t.make_factor(format_dict=d)
            except (KeyError, IndexError, ValueError, TypeError, AttributeError):
                continue
            ctx.violate("made-from-unformattable", info() + f"\nwith {d}: {made_factor.var_names}")
            return
        names = [s.format(**d) for s in tmpl]
        if len(set(names)) == len(names) and not same(make(format_dict=d), names, "made-again"):
            return
    if rng.random() < 0.3:
        bad = str(rng.choice(["a{}", "{0}_b", "{i.nope}", "{i[0]}", "{", "{i:z}"]))
        t2 = CategoricalTemplate(var_templates=["ok", bad], cardinalities=[2, 2], probs_table={(0, 0): 1.0})
        ctx.count("malformed_templates")
        ctx.check(t2.formattable({"i": 3}) is False, "formattable-malformed", bad)
    ctx.sig(kind, tuple(tmpl), repr(sorted(fd.items())))


def broken(ctx, fd):
    rng = ctx.rng
    yield {}
    for _ in range(2):
        d = dict(fd) or {"i": 4}
        k = sorted(d)[int(rng.integers(len(d)))]
        u = rng.random()
        if u < 0.4:
            del d[k]
        elif u < 0.7:
            d[k + "x"] = d.pop(k)
        else:
            d[k] = VALUES[int(rng.integers(len(VALUES)))]
        yield d
