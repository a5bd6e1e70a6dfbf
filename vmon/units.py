"""Gaussians whose variables are measured in very different units, judged in the units in which they are well scaled."""
import numpy as np

from vmon import gen, refs


def choose(rng, nms, largest=3):
    """A unit for every variable."""
    if rng.random() < 0.3:
        return dict.fromkeys(nms, float(10.0 ** rng.integers(-5, largest + 1)))
    return {v: float(10.0 ** rng.uniform(-5, largest)) for v in nms}


def scaled(rng, ref, units, form=None):
    """The real factor of the potential ref(x / units) and its form."""
    form = form or str(rng.choice(gen.FORMS))
    u = np.array([units[v] for v in ref.names])
    other = refs.GRef(ref.names, ref.K / np.outer(u, u), ref.h / u, ref.g)
    if form in ("cov", "both_cov"):
        return gen.make_gaussian(rng, other, ref.covariance() * np.outer(u, u), ref.mean() * u,
                                 ref.log_mass() + float(np.log(u).sum()), form), form
    return gen.make_gaussian(rng, other, form=form), form


def read(f, units):
    """A real factor in the well scaled units, as a potential."""
    got = refs.gref_of(f)
    u = np.array([units[v] for v in got.names])
    return refs.GRef(got.names, got.K * np.outer(u, u), got.h * u, got.g)


def judge(ctx, f, want, units, what, info, rtol=1e-7):
    """The potential, and where it is a density the moments and the mass, of a real factor."""
    try:
        got = read(f, units)
    except np.linalg.LinAlgError as exc:
        ctx.violate(f"{what}:unreadable", f"{exc} {info()}")
        return False
    ok = ctx.check(refs.grefs_close(got, want, rtol, rtol), what, lambda: f"{info()}\ngot {refs.gfmt(got)}\nexpected {refs.gfmt(want)}")
    if ok and want.names and want.proper() and np.linalg.cond(want.K) < 1e4:
        c = f.copy()
        names = list(c.var_names)
        u = np.array([units[v] for v in names])
        w = want.order(names)
        mass = w.log_mass() + float(np.log(u).sum())
        ok = refs.arr_close(c.get_cov() / np.outer(u, u), w.covariance(), rtol * 10, rtol * 10)
        ok &= refs.arr_close(np.ravel(c.get_mean()) / u, w.mean(), rtol * 10, rtol * 10)
        ok &= abs(c.get_log_weight() - mass) <= 10 * rtol * max(1.0, abs(mass), abs(w.g))
        ctx.check(ok, f"{what}:moments", lambda: f"{info()}\ngot {c.get_mean()} {c.get_cov()} {c.get_log_weight()}\nexpected {refs.gfmt(want)}")
    return ok


def integrated(want, keep, units):
    """Marginalise a reference: integrals are over the variables in their units."""
    out = [v for v in want.names if v not in keep]
    m = want.marg(keep)
    return refs.GRef(m.names, m.K, m.h, m.g + float(sum(np.log(units[v]) for v in out)))


def algebra(ctx):
    """Products and quotients."""
    rng = ctx.rng
    pool = gen.names(rng, 5)
    units = choose(rng, pool, 6)
    a, b = [gen.gaussian_params(rng, gen.subset(rng, pool, 1, 4))[3] for _ in range(2)]
    (fa, form_a), (fb, form_b) = scaled(rng, a, units), scaled(rng, b, units)

    def info():
        return f"units {units}\n{form_a} {refs.gfmt(a)}\n{form_b} {refs.gfmt(b)}"
    ctx.count("units")
    judge(ctx, fa, a, units, "units:given", info)
    f, want = fa.multiply(fb), a.mul(b)
    judge(ctx, f, want, units, "units:multiply", info)
    for _ in range(2):
        x = {v: float(rng.normal(0, 2)) for v in want.names}
        got = f.log_potential([x[v] * units[v] for v in f.var_names])
        scale = 1.0 + np.abs(want.K).max() * (1 + sum(abs(t) for t in x.values())) ** 2 + abs(want.g)
        ctx.check(abs(got - want.at(x)) <= 1e-8 * scale, "units:log_potential", lambda: f"{info()}\nat {x}: {got} expected {want.at(x)}")
    back = f.divide(fb)
    rest = want.div(b)
    if not judge(ctx, back, rest, units, "units:divide", info):
        return
    ctx.sig("units", form_a, form_b, len(a.names), len(b.names), round(float(np.ptp(np.log10(list(units.values()))))))
    ctx.sample(info())


def elimination(ctx):
    """Marginals and slices."""
    rng = ctx.rng
    pool = gen.names(rng, int(rng.integers(2, 6)))
    units = choose(rng, pool, 6)
    a = gen.gaussian_params(rng, pool)[3]
    f, form = scaled(rng, a, units)
    keep = gen.subset(rng, pool, 1)

    def info():
        return f"units {units} {form} {refs.gfmt(a)} keep {keep}"
    ctx.count("units")
    judge(ctx, f.marginalize(list(keep), keep=True), integrated(a, keep, units), units, "units:marginalize", info)
    ev = {v: float(rng.normal(0, 2)) for v in gen.subset(rng, pool, 1)[: len(pool) - 1]}
    got = f.reduce(list(ev), [e * units[v] for v, e in ev.items()])
    want = a.reduce(ev)
    judge(ctx, got, want, units, "units:reduce", lambda: f"{info()} {ev}")
    rest = gen.subset(rng, want.names, 1)
    judge(ctx, got.marginalize(list(rest), keep=True), integrated(want, rest, units), units, "units:reduce-marginalize", lambda: f"{info()} {ev} {rest}")
    ctx.sig("units", form, len(pool), len(keep), len(ev), round(float(np.ptp(np.log10(list(units.values()))))))
    ctx.sample(info())
