"""C04: Gaussian products and quotients are pointwise; covariance and canonical form are one function."""
import operator

import numpy as np

from vmon import gen, models, probes, refs, units

NUM = 4
RULE = ("random Gaussian potentials (1-5 variables, non-diagonal covariances, weights, hostile names and orders) in "
        "covariance, canonical or both forms; products, quotients and mixed chains judged in (precision, h, g) and at random "
        "points; form conversions driven by random sequences of read accesses; and the multiply/divide calls inside real "
        "inference; non-trivial: the operands differ in variable order or form; distinct by operation, forms, scope pattern")
COUNTS = {"quick": 9000, "thorough": 200000}
REQUIRED = {"op_multiply": 1000, "op_divide": 800, "conversions": 1000, "chains": 500, "points": 5000, "improper_operands": 300, "units": 150}
TOL = dict(rtol=1e-8, atol=1e-8)


def close(a, b, tol=1e-7):
    a, b = float(a), float(b)
    return np.isfinite(a) and abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def points(ctx, f, ref, what, n=2):
    """Evaluate the real potential at random points, with the variables given in random orders."""
    rng = ctx.rng
    for _ in range(n):
        x = {v: float(rng.normal(0, 3)) for v in ref.names}
        want = ref.at(x)
        order = gen.perm(rng, ref.names)
        vals = [x[v] for v in order]
        shape = int(rng.integers(3))
        arg = vals if shape == 0 else (np.array(vals) if shape == 1 else np.array(vals).reshape(-1, 1))
        got = f.log_potential(arg, vrs=list(order))
        own = [x[v] for v in f.var_names]
        got2 = f.log_potential(np.array(own).reshape(-1, 1))
        ctx.count("points")
        scale = 1.0 + np.abs(ref.K).max(initial=0) * (1 + sum(abs(v) for v in vals)) ** 2 + abs(ref.g)
        ok = abs(got - want) <= 1e-9 * scale and abs(got2 - want) <= 1e-9 * scale
        if want < 500:
            p = f.potential(np.array(own).reshape(-1, 1))
            ok = ok and abs(p - np.exp(want)) <= 1e-7 * scale * max(np.exp(want), 1e-300) + 1e-300
        ctx.check(ok, f"{what}:point", lambda: f"{refs.gfmt(ref)}\nat {x}: got {got} / {got2} expected {want}")


def make(ctx, nms, **kw):
    cov, mean, lw, ref = gen.gaussian_params(ctx.rng, nms, **kw)
    form = str(ctx.rng.choice(gen.FORMS))
    return gen.make_gaussian(ctx.rng, ref, cov, mean, lw, form), ref, form


def judge(ctx, got_factor, want, what, detail=""):
    got = refs.gref_of(got_factor)
    return ctx.check(refs.grefs_close(got, want, **TOL), what,
                     lambda: f"{detail}\ngot {refs.gfmt(got)}\nexpected {refs.gfmt(want)}")


def case(ctx):
    k = ctx.idx % 10
    if ctx.idx % 40 == 11:
        units.algebra(ctx)
    elif k < 4:
        pair(ctx)
    elif k < 7:
        conversion(ctx)
    elif k < 9:
        chain(ctx)
    else:
        in_graph(ctx)


def pair(ctx):
    rng = ctx.rng
    pool = gen.names(rng, 6)
    a_names, b_names, overlap = gen.overlap_scopes(rng, pool)
    fa, a, form_a = make(ctx, a_names)
    fb, b, form_b = make(ctx, b_names)
    if rng.random() < 0.15:  # an operand that is not a density
        fb, b, form_b = improper(ctx, b_names)
        if rng.random() < 0.3:
            fa, a, form_a, fb, b, form_b = fb, b, form_b, fa, a, form_a
        ctx.count("improper_operands")
    elif rng.random() < 0.05:  # a fully observed (constant) operand
        vals = {v: float(rng.normal()) for v in b_names}
        fb, b = fb.reduce(list(vals), list(vals.values())), b.reduce(vals)
        overlap = "constant"
    elif rng.random() < 0.05:
        fb, b, form_b, b_names, overlap = fa, a, form_a, a_names, "same object"
    if rng.random() < 0.5:
        got = [lambda: fa.multiply(fb), lambda: fa.absorb(fb), lambda: fa * fb][int(rng.integers(3))]()
        want, op = a.mul(b), "multiply"
    else:
        if rng.random() < 0.5 and fb is not fa:  # quotient of a product: what message passing does
            fa, a = fa.multiply(fb), a.mul(b)
        got = [lambda: fa.divide(fb), lambda: fa.cancel(fb), lambda: operator.truediv(fa, fb)][int(rng.integers(3))]()
        want, op = a.div(b), "divide"
    ctx.count(f"op_{op}")
    ctx.count(f"overlap_{overlap}")
    if judge(ctx, got, want, f"{op}", f"{form_a} {refs.gfmt(a)}\n{op} {form_b} {refs.gfmt(b)}"):
        points(ctx, got, want, op)
        if want.names and want.proper() and np.linalg.cond(want.K) < 1e6:
            accessors(ctx, got, want, op)
    judge(ctx, fa, a, f"{op}:operand")
    judge(ctx, fb, b, f"{op}:operand")
    if a_names != b_names or form_a != form_b:
        ctx.sig(op, form_a, form_b, len(a_names), tuple(a_names.index(v) if v in a_names else -1 for v in b_names))
    ctx.sample(f"{op} {form_a}/{form_b}: {refs.gfmt(a)} with {refs.gfmt(b)}")


def improper(ctx, nms):
    """A potential that is no density: vacuous with a constant, log-linear, rank deficient or with negative curvature."""
    from veroku.factors.gaussian import Gaussian

    rng = ctx.rng
    n = len(nms)
    kind = str(rng.choice(["vacuous", "vacuous", "quotient", "linear", "rank", "indefinite"]))
    K, h, g = np.zeros((n, n)), np.zeros(n), float(rng.normal(0, 2))
    if kind == "vacuous":
        return Gaussian.make_vacuous(list(nms), g_val=g), refs.GRef(nms, K, h, g), kind
    if kind == "quotient":
        f, r, _ = make(ctx, nms)
        f2, r2 = Gaussian(prec=r.K.copy(), h_vec=r.h.reshape(-1, 1).copy(), g_val=r.g + g, var_names=list(nms)), \
            refs.GRef(nms, r.K, r.h, r.g + g)
        return f2.divide(f), r2.div(r), kind
    h = rng.normal(0, 2, n)
    if kind == "rank":
        u = rng.normal(0, 1, (n, max(1, n - 1)))
        K = u @ u.T
    elif kind == "indefinite":
        K = gen.spd(rng, n) - gen.spd(rng, n)
    return Gaussian(prec=K.copy(), h_vec=h.reshape(-1, 1).copy(), g_val=g, var_names=list(nms)), refs.GRef(nms, K, h, g), kind


def accessors(ctx, f, ref, what):
    """All accessors on a copy describe the reference function."""
    c = f.copy()
    i = ref.idx(list(c.var_names))
    cond = np.linalg.cond(ref.K)
    tol = dict(rtol=1e-9 * max(10.0, cond), atol=1e-9 * max(10.0, cond))
    checks = [
        ("get_cov", lambda: refs.arr_close(c.get_cov(), ref.covariance()[np.ix_(i, i)], **tol)),
        ("get_mean", lambda: refs.arr_close(np.ravel(c.get_mean()), ref.mean()[i], **tol)),
        ("get_log_weight", lambda: close(c.get_log_weight(), ref.log_mass(), 1e-8 * max(10, cond))),
        ("get_weight", lambda: abs(ref.log_mass()) > 300 or close(c.get_weight() / np.exp(ref.log_mass()), 1.0,
                                                                  1e-7 * max(10, cond) * max(1, abs(ref.log_mass())))),
        ("get_prec", lambda: refs.arr_close(c.get_prec(), ref.K[np.ix_(i, i)], **tol)),
        ("get_h", lambda: refs.arr_close(np.ravel(c.get_h()), ref.h[i], **tol)),
        ("get_g", lambda: close(c.get_g(), ref.g, 1e-8 * max(10, cond))),
    ]
    for j in ctx.rng.permutation(len(checks)):
        name, fn = checks[int(j)]
        ctx.check(fn(), f"{what}:{name}", lambda: f"{name} after conversion\nreference {refs.gfmt(ref)} "
                  f"cov {ref.covariance()} mean {ref.mean()} mass {ref.log_mass()}\nreal {c!r}")


def conversion(ctx):
    """Random read accesses never change the function; all accessors stay consistent."""
    rng = ctx.rng
    nms = gen.names(rng, int(rng.integers(1, 6)))
    f, ref, form = make(ctx, nms)
    other, oref, _ = make(ctx, gen.perm(rng, nms))
    trace = []
    for _ in range(int(rng.integers(1, 7))):
        acc = str(rng.choice(["get_cov", "get_mean", "get_prec", "get_h", "get_g", "get_log_weight", "get_weight", "repr",
                              "point", "equals", "kl", "marg", "mul", "copy", "normalize", "sample", "equals2"]))
        trace.append(acc)
        if acc.startswith("get_"):
            getattr(f, acc)()
        elif acc == "repr":
            repr(f)
        elif acc == "point":
            points(ctx, f, ref, "conversion", 1)
        elif acc == "equals":
            f.equals(other)
        elif acc == "equals2":
            other.equals(f)
        elif acc == "kl":
            f.kl_divergence(other)
        elif acc == "marg":
            f.marginalize(gen.subset(rng, nms, 1))
        elif acc == "mul":
            f.multiply(other)
        elif acc == "copy":
            f = f.copy()
        elif acc == "normalize":
            f.normalize()
        elif acc == "sample":
            f.sample(2)
    ctx.count("conversions")
    if judge(ctx, f, ref, "conversion:function", f"{form} {trace}"):
        points(ctx, f, ref, "conversion")
        accessors(ctx, f, ref, "conversion")
    ctx.sig("conv", form, tuple(trace), len(nms))


def chain(ctx):
    rng = ctx.rng
    pool = gen.names(rng, 5)
    f, ref, form = make(ctx, gen.subset(rng, pool, 1, 3))
    inside = []
    trace = [form]
    for _ in range(int(rng.integers(2, 8))):
        if inside and rng.random() < 0.4:
            g, r = inside.pop(int(rng.integers(len(inside))))
            f, ref = (f.divide(g) if rng.random() < 0.5 else f.cancel(g)), ref.div(r)
            trace.append("div")
        elif rng.random() < 0.15:
            f = f.copy()
            trace.append("copy")
        elif rng.random() < 0.2 and ref.proper() and np.linalg.cond(ref.K) < 1e5:
            getattr(f, str(rng.choice(["get_cov", "get_mean", "get_log_weight"])))()
            trace.append("read")
        else:
            g, r, fm = make(ctx, gen.subset(rng, pool, 1, 3))
            inside.append((g, r))
            left = rng.random() < 0.5
            f, ref = (f.multiply(g), ref.mul(r)) if left else (g.multiply(f), r.mul(ref))
            trace.append(f"mul-{fm}-{left}")
    ctx.count("chains")
    if judge(ctx, f, ref, "chain", str(trace)):
        points(ctx, f, ref, "chain")
        if ref.proper() and np.linalg.cond(ref.K) < 1e5:
            accessors(ctx, f, ref, "chain")
    ctx.sig("chain", tuple(trace))


def in_graph(ctx):
    from veroku.factors.gaussian import Gaussian

    loopy = ctx.rng.random() < 0.4
    model = models.gaussian(ctx, loopy=loopy, strength=0.25 if loopy else 1.0)
    with probes.hooked(Gaussian, probes.gaussian_probe(ctx, {"multiply", "divide"})):
        cg = model.graph()
        cg.process_graph(tol=1e-6, max_iter=3)
    ctx.count("graphs")
