"""C05: Gaussian marginalisation and conditioning are exact, in both stored forms."""
import numpy as np

from vmon import gen, models, probes, refs, units

NUM = 5
RULE = ("random Gaussian potentials (1-6 variables, correlated, weighted, hostile names and orders, covariance / canonical / "
        "both forms, also conditional densities with singular precision where the integral exists); random subsets and orders "
        "of kept, removed and observed variables up to the full scope, staged and in both orders; compared with block "
        "elimination by name, and the calls made inside real inference; non-trivial: at least two variables; distinct by "
        "form, operation, dimension and index pattern")
COUNTS = {"quick": 9000, "thorough": 240000}
REQUIRED = {"many_variables": 100, "op_marginalize": 2000, "op_reduce": 2000, "full_reduce": 200, "improper": 200, "commute": 500, "by_name": 100, "units": 150}
TOL = dict(rtol=1e-8, atol=1e-8)


def make(ctx):
    rng = ctx.rng
    nms = gen.names(rng, int(rng.integers(1, 7)))
    if rng.random() < 0.03:
        ctx.count("many_variables")
        nms = gen.names(rng, int(rng.integers(8, 16)))
    if rng.random() < 0.15 and len(nms) >= 2:  # a conditional density: singular precision
        k = int(rng.integers(1, len(nms)))
        x, y = nms[:k], nms[k:]
        ref = models.linear_gaussian_ref(rng.normal(0, 1, (len(y), len(x))), gen.spd(rng, len(y), 0.4, 2.0), x, y)
        extra = refs.GRef(x, np.zeros((k, k)), rng.normal(0, 1, k), float(rng.normal()))
        ref = ref.mul(extra).order(gen.perm(rng, nms))
        ctx.count("improper")
        return gen.make_gaussian(rng, ref, form="can"), ref, "can*"
    cov, mean, lw, ref = gen.gaussian_params(rng, nms)
    form = str(rng.choice(gen.FORMS))
    return gen.make_gaussian(rng, ref, cov, mean, lw, form), ref, form


def judge(ctx, f, want, what, detail=""):
    try:
        got = refs.gref_of(f)
    except np.linalg.LinAlgError as exc:
        ctx.violate(f"{what}:unreadable", f"{exc} {detail}")
        return False
    return ctx.check(refs.grefs_close(got, want, **TOL), what,
                     lambda: f"{detail}\ngot {refs.gfmt(got)}\nexpected {refs.gfmt(want)}")


def integrable(ref, keep):
    out = [n for n in ref.names if n not in keep]
    y = ref.idx(out)
    return not flat(ref) and (not out or np.linalg.eigvalsh(ref.K[np.ix_(y, y)])[0] > 0.02)


def flat(ref):
    """A (numerically) zero precision: not a Gaussian any more (the result of integrating out all conditional variables)."""
    return np.abs(ref.K).max(initial=0) < 1e-6


def marg(ctx, f, ref, keep):
    rng = ctx.rng
    ctx.count("op_marginalize")
    keep = gen.perm(rng, keep)
    out = gen.perm(rng, [n for n in ref.names if n not in keep])
    how = int(rng.integers(4))
    if rng.random() < 0.2 and 1 in (len(keep), len(out)):  # a single variable can be given by its name
        ctx.count("by_name")
        return f.marginalize(keep[0]) if len(keep) == 1 else f.marginalize(out[0], keep=False)
    if how == 0:
        return f.marginalize(list(keep), keep=True)
    if how == 1:
        return f.marginalize(list(keep))
    if how == 2:
        return f.marginalize(vrs=out, keep=False)
    return f.marginalize(out, False)


def red(ctx, f, ev):
    rng = ctx.rng
    ctx.count("op_reduce")
    vrs = gen.perm(rng, list(ev))
    vals = [ev[v] for v in vrs]
    how = int(rng.integers(4))
    if how == 1:
        vals = np.array(vals)
    elif how == 2:
        vals = np.array(vals).reshape(-1, 1)
    elif how == 3 and len(vals) == 1:
        vals = vals[0]
    return f.reduce(vrs=vrs, values=vals) if rng.random() < 0.5 else f.reduce(vrs, vals)


def values(ctx, nms):
    rng = ctx.rng
    return {v: float(rng.choice([rng.normal(0, 3), 0.0, rng.integers(-4, 5)])) for v in nms}


def const(f):
    return float(f.get_g())


def case(ctx):
    rng = ctx.rng
    k = ctx.idx % 10
    if k == 9:
        return in_graph(ctx)
    if ctx.idx % 40 == 11:
        return units.elimination(ctx)
    f, ref, form = make(ctx)
    n = len(ref.names)
    d = lambda: f"{form} {refs.gfmt(ref)}"  # noqa: E731
    before = refs.gref_of(f)
    if k < 3:  # marginalise
        keep = gen.subset(rng, ref.names, 1)
        if not integrable(ref, keep):
            return
        got = marg(ctx, f, ref, keep)
        want = ref.marg(keep)
        if judge(ctx, got, want, "marginalize", f"{d()}\nkeep {keep}") and form != "can*":
            ctx.check(abs(got.copy().get_log_weight() - ref.log_mass()) <= 1e-7 * max(1, abs(ref.log_mass())) ,
                      "marginalize:mass", lambda: f"{d()} keep {keep}: {got.copy().get_log_weight()} vs {ref.log_mass()}")
            c = got.copy()
            i = [ref.names.index(v) for v in c.var_names]
            ctx.check(refs.arr_close(c.get_cov(), ref.covariance()[np.ix_(i, i)], 1e-7, 1e-7)
                      and refs.arr_close(np.ravel(c.get_mean()), ref.mean()[i], 1e-7, 1e-7), "marginalize:moments",
                      lambda: f"{d()} keep {keep}: {c!r}")
        if len(keep) > 1:  # staged
            keep2 = gen.subset(rng, keep, 1)
            if integrable(ref, keep2) and not flat(want):
                judge(ctx, marg(ctx, got, want, keep2), ref.marg(keep2), "marginalize:staged", f"{d()} {keep} {keep2}")
        ctx.sig("marg", form, tuple(ref.names.index(v) for v in keep), n)
    elif k < 6:  # reduce
        ev = values(ctx, gen.subset(rng, ref.names, 1))
        got = red(ctx, f, ev)
        want = ref.reduce(ev)
        if len(ev) == n:
            ctx.count("full_reduce")
            ctx.check(list(got.var_names) == [], "reduce:scope", str(got.var_names))
            ctx.check(abs(const(got) - ref.at(ev)) <= 1e-8 * max(1, abs(ref.at(ev)), np.abs(ref.K).max() * 10),
                      "reduce:full", lambda: f"{d()} at {ev}: {const(got)} expected {ref.at(ev)}")
        else:
            judge(ctx, got, want, "reduce", f"{d()}\nat {ev}")
            x = values(ctx, want.names)
            val = got.log_potential([x[v] for v in got.var_names])
            full = ref.at({**x, **ev})
            ctx.check(abs(val - full) <= 1e-8 * (1 + np.abs(ref.K).max() * (1 + sum(abs(t) for t in {**x, **ev}.values())) ** 2
                                                 + abs(ref.g)), "reduce:value", lambda: f"{d()} {x} {ev}: {val} vs {full}")
            # staged, in another order
            ev2 = values(ctx, gen.subset(rng, want.names, 0))
            if ev2 and len(ev2) < len(want.names):
                order = gen.perm(rng, list(ev) + list(ev2))
                g = f
                for v in order:
                    g = red(ctx, g, {v: {**ev, **ev2}[v]})
                judge(ctx, g, ref.reduce({**ev, **ev2}), "reduce:staged", f"{d()} {order}")
        ctx.sig("reduce", form, tuple(ref.names.index(v) for v in ev), n)
    else:  # commutation of marginalisation and conditioning; through products
        ev = values(ctx, gen.subset(rng, ref.names, 1))
        rest = [v for v in ref.names if v not in ev]
        keep = gen.subset(rng, rest, 1)
        if not keep or not integrable(ref, keep + list(ev)) or not integrable(ref.reduce(ev), keep):
            return
        ctx.count("commute")
        a = marg(ctx, red(ctx, f, ev), ref.reduce(ev), keep)
        b = red(ctx, marg(ctx, f, ref, keep + list(ev)), ev)
        want = ref.reduce(ev).marg(keep)
        judge(ctx, a, want, "commute:reduce-marginalize", f"{d()} {ev} {keep}")
        judge(ctx, b, want, "commute:marginalize-reduce", f"{d()} {ev} {keep}")
        ctx.sig("commute", form, tuple(ref.names.index(v) for v in ev), tuple(ref.names.index(v) for v in keep), n)
        if rng.random() < 0.5:  # product with a factor over some of the variables, then both
            nm2 = gen.subset(rng, ref.names, 1)
            cov, mean, lw, r2 = gen.gaussian_params(rng, nm2)
            p, pr = f.multiply(gen.make_gaussian(rng, r2, cov, mean, lw)), ref.mul(r2)
            if integrable(pr.reduce(ev), keep):
                judge(ctx, marg(ctx, red(ctx, p, ev), pr.reduce(ev), keep), pr.reduce(ev).marg(keep), "product-chain", d())
    judge(ctx, f, before, "operand", d())
    ctx.sample(d())


def in_graph(ctx):
    from veroku.factors.gaussian import Gaussian

    loopy = ctx.rng.random() < 0.4
    model = models.gaussian(ctx, loopy=loopy, strength=0.25 if loopy else 1.0, evidence=0.4)
    with probes.hooked(Gaussian, probes.gaussian_probe(ctx, {"marginalize", "reduce"})):
        cg = model.graph()
        cg.process_graph(tol=1e-6, max_iter=3)
        allv = sorted({v for g in model.reduced() for v in g.names})
        for v in gen.subset(ctx.rng, allv, 0, 3):
            cg.get_marginal([v])
    ctx.count("graphs")
