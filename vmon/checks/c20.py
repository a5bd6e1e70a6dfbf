"""C20: sampling draws from the represented distribution."""
import numpy as np
from scipy import stats

from vmon import gen, refs, units, zoo

NUM = 20
RULE = ("statistical oracle (fixed seeds, at least 6.5 sigma / p < 1e-9): shape and row order of samples, whitened moments, "
        "Kolmogorov-Smirnov distances of coordinates and random projections, lag correlations and component frequencies of samples "
        "drawn from real Gaussians, mixtures and non-linear Gaussians in every stored form and weight; reproducibility from the "
        "global seed; factor unchanged; non-trivial: at least 1000 samples; distinct by class, dimension, form and parameters")
COUNTS = {"quick": 640, "thorough": 12000}
REQUIRED = {"gaussian_cases": 120, "mixture_cases": 80, "nlg_cases": 60, "nlgm_cases": 16, "samples": 500000, "ks_tests": 1200, "frequency_tests": 25,
            "reproducibility": 300, "shapes": 900, "extreme_weights": 60, "derived": 60, "derived_after_reading": 20,
            "units": 20, "small_calls": 40000, "calls_frequency_tests": 25}
Z = 6.5
KS = 3.45  # sqrt(n) D: p about 1e-10


def case(ctx):
    rng = ctx.rng
    kind = str(rng.choice(["gaussian", "gaussian", "gm", "nlg", "nlgm"], p=[.25, .24, .25, .2, .06]))
    if kind == "gaussian":
        gaussian(ctx)
    elif kind == "gm":
        mixture(ctx)
    elif kind == "nlg":
        nlg(ctx)
    else:
        nlgm(ctx)


def shapes(ctx, f, dim, info):
    for n in (1, 2, int(ctx.rng.integers(3, 40))):
        s = np.asarray(f.sample(n))
        ctx.count("shapes")
        ctx.check(s.shape == (dim, n) and np.all(np.isfinite(s)), "shape", lambda: info() + f"\nsample({n}) has shape {s.shape}")


def reproducible(ctx, f, info):
    seed = int(ctx.rng.integers(1 << 30))
    before = zoo.snapshot(f)
    n = int(ctx.rng.integers(4, 30))
    np.random.seed(seed)
    a = np.array(f.sample(n))
    np.random.seed(seed)
    b = np.array(f.sample(n))
    c = np.array(f.sample(n))
    ctx.count("reproducibility")
    ctx.check(np.array_equal(a, b) or np.allclose(a, b, rtol=1e-9, atol=1e-9), "not-reproducible", lambda: info() + f"\n{a[:, :3]}\n{b[:, :3]}")
    ctx.check(not np.array_equal(b, c), "same-samples-twice", lambda: info() + f"\n{b[:, :3]}\n{c[:, :3]}")
    ctx.check(zoo.same(before, zoo.snapshot(f)), "factor-changed", info)
    np.random.seed(seed % 1000 + ctx.idx)


def moments(ctx, x, mean, cov, info, gaussian_like=True):
    """x: dim x n samples with known mean and covariance."""
    dim, n = x.shape
    ell = np.linalg.cholesky(cov)
    z = np.linalg.solve(ell, x - mean.reshape(-1, 1))
    err = np.abs(z.mean(axis=1)).max() * np.sqrt(n)
    ctx.check(err < Z, "mean", lambda: info() + f"\nmean error {err:.2f} sigma: {x.mean(axis=1)} wanted {mean}")
    if gaussian_like:
        c = z @ z.T / n - np.eye(dim)
        sd = np.where(np.eye(dim) > 0, np.sqrt(2.0 / n), np.sqrt(1.0 / n))
        dev = np.abs(c / sd).max()
        ctx.check(dev < Z + 0.5, "covariance", lambda: info() + f"\n{dev:.2f} sigma: {np.cov(x)}\nwanted {cov}")
        for _ in range(3):
            w = ctx.rng.normal(size=dim)
            w /= np.linalg.norm(w)
            d = stats.kstest(w @ z, "norm").statistic * np.sqrt(n)
            ctx.count("ks_tests")
            ctx.check(d < KS, "distribution", lambda: info() + f"\nKS distance {d:.2f} along {w}")
    lag = np.abs((z[:, 1:] * z[:, :-1]).sum(axis=1)).max() / np.sqrt(n)
    ctx.check(lag < Z + 1.5, "columns-dependent", lambda: info() + f"\nlag correlation {lag:.2f} sigma")


def many_calls(ctx, f, mean, cov, info, grefs=None, w=None):
    """Many small samples: together they are samples of the distribution, and those of one call are independent of each other."""
    m = int(ctx.rng.choice([1, 2, 3, 8]))
    calls = (240 if m < 8 else 120) * (4 if ctx.thorough else 1)
    x = np.stack([np.asarray(f.sample(m)) for _ in range(calls)])
    ctx.count("small_calls", calls)
    dim = len(mean)
    if not ctx.check(x.shape == (calls, dim, m), "shape", info):
        return
    z = np.linalg.solve(np.linalg.cholesky(cov), x - mean.reshape(1, -1, 1))
    n = calls * m
    err = np.abs(z.mean(axis=(0, 2))).max() * np.sqrt(n)
    ctx.check(err < Z + 0.5, "calls-mean", lambda: info() + f"\n{calls} calls of sample({m}): mean error {err:.2f} sigma")
    kurt = np.maximum((z ** 4).mean(axis=(0, 2)), 1.0)
    per_call = m * z.mean(axis=2) ** 2  # mean 1
    dev = np.abs(per_call.mean(axis=0) - 1.0) / np.sqrt((2.0 * (1 - 1.0 / m) + np.maximum(kurt, 3.0) / m) / calls)
    ctx.check(np.all(dev < Z + 1.0), "samples-of-a-call-dependent",
              lambda: info() + f"\n{calls} calls of sample({m}): variances of their means {per_call.mean(axis=0) / m} wanted {1.0 / m} ({dev} sigma)")
    flat = z.mean(axis=2)
    lag = np.abs((flat[1:] * flat[:-1]).sum(axis=0)) / np.sqrt(calls) * m
    ctx.check(np.all(lag < Z + 2.5), "calls-dependent", lambda: info() + f"\n{calls} calls of sample({m}): lag correlation {lag}")
    if grefs is not None:
        dist = np.stack([np.sum((x - g.mean().reshape(1, -1, 1)) ** 2, axis=1) for g in grefs])
        member = np.argmin(dist, axis=0)
        for i, wi in enumerate(w):
            got = float(np.mean(member == i))
            dev = abs(got - wi) / np.sqrt(wi * (1 - wi) / n + 1e-12)
            ctx.count("calls_frequency_tests")
            ctx.check(dev < Z or abs(got - wi) < 8.0 / n, "component-frequency-of-calls",
                      lambda: info() + f"\n{calls} calls of sample({m}): component {i} {got} wanted {wi} ({dev:.1f} sigma)")


def gaussian(ctx):
    rng = ctx.rng
    dim = int(rng.integers(1, 6) if rng.random() < 0.92 else rng.integers(8, 13))
    nms = gen.names(rng, dim)
    scale = float(rng.choice([3.0, 3.0, 1000.0]))
    if rng.random() < 0.2:
        cov, mean, lw, ref = gen.gaussian_params(rng, nms, scale, 1e-6, 1e-3)
    else:
        cov, mean, lw, ref = gen.gaussian_params(rng, nms, scale)
    extreme = rng.random() < 0.35
    if extreme:
        lw2 = float(rng.choice([-900.0, 800.0, -50.0, 300.0]))
        ref = refs.GRef(nms, ref.K, ref.h, ref.g + lw2 - lw)
        lw = lw2
        ctx.count("extreme_weights")
    form = str(rng.choice(gen.FORMS))
    if rng.random() < 0.25:  # one or several small or large units, for all of the variables
        in_units(ctx, ref, form)
        return
    g = gen.make_gaussian(rng, ref, cov, mean, lw, form)
    if dim > 1 and rng.random() < 0.4:
        ctx.count("derived")
        op = str(rng.choice(["mul", "marg", "red", "norm", "copy"]))
        if op == "mul":
            o = gen.gaussian_params(rng, gen.subset(rng, nms, 1))
            g, ref = g.multiply(gen.make_gaussian(rng, o[3], *o[:3])), ref.mul(o[3])
        elif op == "marg":
            keep = gen.subset(rng, nms, 1, dim - 1)
            g, ref = g.marginalize(keep, keep=True), ref.marg(keep)
        elif op == "red":
            obs = gen.subset(rng, nms, 1, dim - 1)
            ev = {v: float(rng.normal()) for v in obs}
            g, ref = g.reduce(list(ev), list(ev.values())), ref.reduce(ev)
        elif op == "norm":
            g = g.normalize()
        else:
            g = g.copy()
        form += " " + op
    names = list(g.var_names)
    ref = ref.order(names)

    def info():
        return f"gaussian {form} {refs.gfmt(ref)}"
    ctx.count("gaussian_cases")
    shapes(ctx, g, len(names), info)
    reproducible(ctx, g, info)
    n = 4000 if not ctx.thorough else 20000
    x = np.asarray(g.sample(n))
    ctx.count("samples", n)
    if ctx.check(x.shape == (len(names), n), "shape", info):
        moments(ctx, x, ref.mean(), ref.covariance(), info)
        many_calls(ctx, g, ref.mean(), ref.covariance(), info)
    ctx.sig("gaussian", len(names), form, np.round(ref.K, 6).tobytes())
    ctx.sample(info())


def in_units(ctx, ref, form):
    """Variables that are measured in very small, large or different units."""
    units_ = units.choose(ctx.rng, ref.names, 6)
    g, _ = units.scaled(ctx.rng, ref, units_, form)
    u = np.array([units_[v] for v in ref.names])

    def info():
        return f"gaussian {form} in the units {units_} {refs.gfmt(ref)}"
    ctx.count("gaussian_cases")
    ctx.count("units")
    reproducible(ctx, g, info)
    x = np.asarray(g.sample(4000 if not ctx.thorough else 20000))
    ctx.count("samples", x.shape[-1])
    if ctx.check(x.shape[0] == len(u), "shape", info):
        moments(ctx, x / u.reshape(-1, 1), ref.mean(), ref.covariance(), info)
    ctx.sig("units", len(u), form, np.round(ref.K, 6).tobytes())
    ctx.sample(info())


def mixture(ctx):
    from veroku.factors.experimental.gaussian_mixture import GaussianMixture

    rng = ctx.rng
    dim = int(rng.integers(1, 4))
    nms = gen.names(rng, dim)
    k = int(rng.integers(1, 4) if rng.random() < 0.9 else rng.integers(5, 9))
    apart = rng.random() < 0.6
    base = float(rng.choice([0.0, 0.0, -1000.0, 900.0]))
    ctx.count("extreme_weights", int(base != 0.0))
    light = int(rng.integers(k)) if rng.random() < 0.4 else None  # a component without any relevant weight
    ctx.count("negligible_components", int(light is not None and k > 1))
    grefs, comps = [], []
    for i in range(k):
        cov, mean, _, _ = gen.gaussian_params(rng, nms)
        if apart:
            mean = mean + 60.0 * i
        lw = base + float(rng.normal(0, 0.9))
        if k > 1 and i == light:
            lw -= float(rng.choice([40.0, 800.0, 2000.0]))
        ref = refs.GRef.cov(nms, cov, mean, lw)
        grefs.append(ref)
        comps.append(gen.make_gaussian(rng, ref, cov, mean, lw))
    gm = GaussianMixture(comps)
    if rng.random() < 0.3:
        ctx.count("derived")
        o = gen.gaussian_params(rng, gen.subset(rng, nms, 1))
        gm = gm.multiply(gen.make_gaussian(rng, o[3], *o[:3]))
        grefs = [g.mul(o[3]) for g in grefs]
        apart = False
    ctx.count("mixture_cases")
    judge_mixture(ctx, gm, grefs, apart, f"mixture base {base}")


def judge_mixture(ctx, gm, grefs, apart, what):
    rng = ctx.rng
    names = list(gm.var_names)
    dim, k = len(names), len(grefs)
    grefs = [g.order(names) for g in grefs]
    lws = np.array([g.log_mass() for g in grefs])
    w = np.exp(lws - refs.lse(lws))

    def info():
        return f"{what} weights {w}\n" + "\n".join(refs.gfmt(g) for g in grefs)
    shapes(ctx, gm, dim, info)
    reproducible(ctx, gm, info)
    n = 2000 if not ctx.thorough else 8000
    x = np.asarray(gm.sample(n))
    ctx.count("samples", n)
    if not ctx.check(x.shape == (dim, n), "shape", info):
        return
    for _ in range(3):
        d = rng.normal(size=dim)
        p = d @ x

        def cdf(t):
            return sum(wi * stats.norm.cdf(t, d @ g.mean(), np.sqrt(d @ g.covariance() @ d)) for wi, g in zip(w, grefs))
        ks = stats.kstest(p, cdf).statistic * np.sqrt(n)
        ctx.count("ks_tests")
        ctx.check(ks < KS, "mixture-distribution", lambda: info() + f"\nKS distance {ks:.2f} along {d}")
    mean = sum(wi * g.mean() for wi, g in zip(w, grefs))
    cov = sum(wi * (g.covariance() + np.outer(g.mean(), g.mean())) for wi, g in zip(w, grefs)) - np.outer(mean, mean)
    if np.linalg.eigvalsh(cov)[0] > 1e-6 and w.min() > 0.02:
        moments(ctx, x, mean, cov, info, gaussian_like=False)
        many_calls(ctx, gm, mean, cov, info, *((grefs, w) if apart and k > 1 else ()))
    if apart and k > 1:
        ctx.count("frequency_tests")
        dist = np.array([np.sum((x - g.mean().reshape(-1, 1)) ** 2, axis=0) for g in grefs])
        member = np.argmin(dist, axis=0)
        for i in range(k):
            got = float(np.mean(member == i))
            dev = abs(got - w[i]) / np.sqrt(w[i] * (1 - w[i]) / n + 1e-12)
            ctx.check(dev < Z or abs(got - w[i]) < 8.0 / n, "component-frequency", lambda: info() + f"\ncomponent {i}: {got} wanted {w[i]} ({dev:.1f} sigma)")
            part = x[:, member == i]
            if part.shape[1] > 300:
                moments(ctx, part, grefs[i].mean(), grefs[i].covariance(), lambda: info() + f"\ncomponent {i}")
    ctx.sig(type(gm).__name__, dim, k, np.round(lws, 6).tobytes())
    ctx.sample(info())


def nlgm(ctx):
    """A mixture of non-linear Gaussians is sampled like the mixture of its joints."""
    rng = ctx.rng
    nms = gen.names(rng, 4)
    cond, out = nms[: int(rng.integers(1, 3))], nms[2: 2 + int(rng.integers(1, 3))]
    f, _ = zoo.make_nlgm(ctx, cond, out, n=int(rng.integers(1, 4)))
    if rng.random() < 0.4:
        f = f.multiply(zoo.make_gaussian(ctx, gen.subset(rng, out, 1))[0])
        ctx.count("derived")
    grefs = [refs.gref_of(n.copy().joint_distribution) for n in f.nlgs]
    ctx.count("nlgm_cases")
    judge_mixture(ctx, f, grefs, False, "mixture of non-linear Gaussians")


def read_moments(rng, f):
    """Read something of the represented distribution, which the implementation may remember."""
    kind = ["mean", "cov", "joint", "sample", "log_weight", "marginal"][int(rng.integers(6))]
    if kind == "mean":
        f.get_mean()
    elif kind == "cov":
        f.get_cov()
    elif kind == "joint":
        f.joint_distribution  # pylint: disable=pointless-statement
    elif kind == "sample":
        f.sample(2)
    elif kind == "log_weight":
        f.get_log_weight()
    else:
        f.marginalize([f.var_names[0]], keep=True)
    return "read " + kind


def nlg(ctx):
    rng = ctx.rng
    nms = gen.names(rng, 4)
    cond, out = nms[: int(rng.integers(1, 3))], nms[2: 2 + int(rng.integers(1, 3))]
    f, (tr, noise, prior) = zoo.make_nlg(ctx, cond, out)
    # the same steps are taken with the factor and with an equal one whose moments are never read, which supplies the
    # represented joint: sampling has to bring f up to date itself
    fresh = f.copy()
    steps = []
    for _ in range(int(rng.integers(0, 3))):
        if rng.random() < 0.6:
            steps.append(read_moments(rng, f))
        u = rng.random()
        if u < 0.6:
            update, _ = zoo.make_gaussian(ctx, gen.subset(rng, out, 1))
            f, fresh = f.multiply(update), fresh.multiply(update)
            steps.append(f"multiply {update.var_names}")
        elif u < 0.8:
            update, _ = zoo.make_gaussian(ctx, gen.subset(rng, cond, 1))
            f, fresh = f.multiply(update), fresh.multiply(update)
            steps.append(f"multiply {update.var_names}")
        elif "reduce" not in steps:
            value = float(np.round(rng.normal(), 2))
            f, fresh = f.reduce([out[0]], [value]), fresh.reduce([out[0]], [value])
            steps.append("reduce")
        ctx.count("derived")
    if any(st.startswith("read") for st in steps):
        ctx.count("derived_after_reading")
    # an observed factor keeps its var_names; its joint (and the rows of its samples) has those which are left
    rows = list(f.joint_distribution.var_names) if "reduce" in steps else list(f.var_names)
    joint = refs.gref_of(fresh.joint_distribution).order(rows)

    def info():
        return f"non-linear Gaussian {tr.kind} {cond} -> {out} var_names {f.var_names} {steps}\n{refs.gfmt(joint)}"
    ctx.count("nlg_cases")
    n = 4000 if not ctx.thorough else 20000
    x = np.asarray(f.sample(n))
    ctx.count("samples", n)
    if ctx.check(x.shape == (len(rows), n), "shape", info):
        moments(ctx, x, joint.mean(), joint.covariance(), info)
        if ctx.rng.random() < 0.5:
            many_calls(ctx, f, joint.mean(), joint.covariance(), info)
    shapes(ctx, f, len(rows), info)
    reproducible(ctx, f, info)
    ctx.sig("nlg", tr.kind, np.round(joint.K, 6).tobytes())
    ctx.sample(info())
