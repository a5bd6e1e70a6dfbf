"""C30: division of Gaussian mixtures by Gaussian mixtures."""
import contextlib
import io

import numpy as np
from scipy import optimize

from vmon import core, gen, refs, zoo
from vmon.checks.c15 import lse_at, mass, moments

NUM = 30
RULE = ("random mixtures with a chosen division method go through zero to three operations and are divided by a wider mixture (also over "
        "part of the variables, in another order, in another form, or one Gaussian written as several coinciding components); the quotient "
        "is compared with the definition of the method; non-trivial: the numerator or the denominator has distinct components; distinct by "
        "program, method, scopes, orders and component counts")
COUNTS = {"quick": 900, "thorough": 30000}
REQUIRED = {"divisions": 800, "method_0": 100, "method_1": 200, "method_2": 200, "coinciding": 150, "separated": 40, "modes": 300, "clear_modes": 100, "shared_covariance": 80,
            "partial_scope": 80, "other_order": 100, "operations": 500, "inverses": 300, "negative_g": 60, "repeated": 60}


def gaussian(rng, names, prec_lo, prec_hi, mean, lw):
    """A Gaussian whose precision has eigenvalues between the two bounds."""
    q, _ = np.linalg.qr(rng.normal(size=(len(names), len(names))))
    prec = (q * rng.uniform(prec_lo, prec_hi, len(names))) @ q.T
    prec = 0.5 * (prec + prec.T)
    return refs.GRef.cov(names, np.linalg.inv(prec), np.asarray(mean, float), float(lw))


def build(ctx, parts, method=0):
    from veroku.factors.experimental.gaussian_mixture import GaussianMixture

    facs = [gen.make_gaussian(ctx.rng, p) for p in parts]
    if method or ctx.rng.random() < 0.5:
        return GaussianMixture(facs, cancel_method=method)
    return GaussianMixture(facs)


def numerator(ctx, names, method, separated):
    rng = ctx.rng
    n = int(rng.integers(1, 4 if method == 1 else 5))
    if separated:
        n = max(n, 2)
        axis = rng.normal(size=len(names))
        axis /= np.linalg.norm(axis)
        means = [axis * (14.0 * k + rng.uniform(-1, 1)) for k in range(n)]
        means = [means[int(i)] for i in rng.permutation(n)]
    else:
        means = [rng.normal(0, float(rng.choice([0.3, 1.5, 4.0])), len(names)) for _ in range(n)]
    scale = float(rng.choice([0.0, 3.0, 40.0]))
    shift = float(rng.normal(0, scale))
    parts = [gaussian(rng, names, 0.4, 2.5, m, shift + rng.normal()) for m in means]
    if rng.random() < 0.3:
        # the components of a bank of filters: one covariance, and often one weight
        ctx.count("shared_covariance", int(n > 1))
        cov = np.linalg.inv(parts[0].K)
        same_weight = rng.random() < 0.5
        parts = [refs.GRef.cov(names, cov, m, shift + (0.0 if same_weight else rng.normal())) for m in means]
    f = build(ctx, parts, 0)
    if rng.random() < 0.5:
        f.cancel_method = method
    else:
        f = build(ctx, parts, method)
    return f, parts


def operate(ctx, f, parts, separated):
    """Operations on the numerator, which should not forget the chosen method."""
    rng = ctx.rng
    program = []
    for _ in range(int(rng.integers(0, 4))):
        names = list(f.var_names)
        op = str(rng.choice(["mul-g", "mul-gm", "div-g", "norm", "copy", "marg", "reduce", "copy"]))
        if separated and op in ("mul-g", "mul-gm", "div-g", "marg", "reduce"):
            continue
        if op in ("mul-g", "mul-gm"):
            scope = gen.subset(rng, names, 1)
            m = 1 if op == "mul-g" else 2
            if m * len(parts) > 4:
                continue
            others = [gaussian(rng, scope, 0.1, 1.0, rng.normal(0, 1, len(scope)), rng.normal()) for _ in range(m)]
            g = gen.make_gaussian(rng, others[0]) if m == 1 else build(ctx, others)
            f = f.multiply(g) if rng.random() < 0.7 else f.absorb(g)
            parts = [p.mul(o) for p in parts for o in others]
        elif op == "div-g":
            scope = gen.subset(rng, names, 1)
            other = gaussian(rng, scope, 0.01, 0.05, rng.normal(0, 1, len(scope)), rng.normal())
            f = f.divide(gen.make_gaussian(rng, other) if rng.random() < 0.5 else build(ctx, [other]))
            parts = [p.div(other) for p in parts]
        elif op == "norm":
            z = mass(parts)
            f, parts = f.normalize(), [refs.GRef(p.names, p.K, p.h, p.g - z) for p in parts]
        elif op == "copy":
            f = f.copy()
        else:
            if len(names) < 2:
                continue
            some = gen.subset(rng, names, 1, len(names) - 1)
            if op == "marg":
                f, parts = f.marginalize(list(some), keep=True), [p.marg(some) for p in parts]
            else:
                vals = [float(v) for v in rng.normal(0, 1, len(some))]
                f, parts = f.reduce(list(some), vals), [p.reduce(dict(zip(some, vals))) for p in parts]
        program.append(op)
        ctx.count("operations")
    return f, parts, program


def denominator(ctx, names, parts, method, coinciding, separated):
    rng = ctx.rng
    scope = gen.subset(rng, names, 1) if rng.random() < 0.4 else gen.perm(rng, list(names))
    low = min(np.linalg.eigvalsh(p.K)[0] for p in parts)
    mid = np.mean([p.order(list(names)).mean() for p in parts], axis=0)
    mid = np.array([mid[list(names).index(v)] for v in scope])
    high = low / float(rng.uniform(3, 12)) if not separated else low / 60.0
    sd = 1.0 / np.sqrt(high)
    n = int(rng.integers(2, 4))
    shift = float(rng.normal(0, float(rng.choice([0.0, 3.0, 40.0]))))
    spread = float(rng.choice([0.1, 0.5, 1.0])) * (0.6 if method == 2 else 1.0)
    if coinciding:
        one = gaussian(rng, scope, high / 3, high, mid + rng.normal(0, 0.5 * sd, len(scope)), 0.0)
        out = []
        repeated = rng.random() < 0.4
        for _ in range(n):
            out.append(refs.GRef(one.names, one.K, one.h, one.g + shift + (0.0 if repeated else float(rng.normal()))))
    else:
        out = [gaussian(rng, scope, high / 3, high, mid + rng.normal(0, spread * sd, len(scope)), shift + rng.normal()) for _ in range(n)]
        if rng.random() < 0.3:
            out = [refs.GRef.cov(p.names, np.linalg.inv(out[0].K), np.linalg.solve(p.K, p.h), shift) for p in out]
    return build(ctx, out, int(rng.integers(0, 3))), out, scope


def log_sum_derivatives(parts, names, x):
    """Value, gradient and Hessian of the log of a sum of Gaussians."""
    at = dict(zip(names, x))
    logs, slopes, hess = [], [], []
    for p in parts:
        full = np.zeros((len(names), len(names)))
        slope = np.zeros(len(names))
        idx = [names.index(v) for v in p.names]
        full[np.ix_(idx, idx)] = -p.K
        slope[idx] = p.h - p.K @ np.asarray(x)[idx]
        logs.append(p.at({v: at[v] for v in p.names}))
        slopes.append(slope)
        hess.append(full)
    val = refs.lse(logs)
    w = np.exp(np.array(logs) - val)
    grad = sum(a * s for a, s in zip(w, slopes))
    hes = sum(a * (h + np.outer(s, s)) for a, s, h in zip(w, slopes, hess)) - np.outer(grad, grad)
    return val, grad, hes


def inverse_match(den, part, names):
    """The Gaussian whose inverse has the moments of the mixture den / part (all of whose components are negative definite)."""
    sets = [d.div(part).order(names) for d in den]
    if any(np.linalg.eigvalsh(s.K)[-1] > -1e-3 for s in sets):
        return None
    ms = [np.linalg.solve(s.K, s.h) for s in sets]
    lw = np.array([s.g + 0.5 * s.h @ m + 0.5 * (np.linalg.slogdet(2 * np.pi * np.linalg.inv(-s.K))[1]) for s, m in zip(sets, ms)])
    z = refs.lse(lw)
    if np.abs(lw).max() > 500:
        return None
    w = np.exp(lw - z)
    mean = sum(a * m for a, m in zip(w, ms))
    cov = sum(a * (np.linalg.inv(s.K) + np.outer(m - mean, m - mean)) for a, s, m in zip(w, sets, ms))
    top = np.linalg.eigvalsh(cov)
    if top[-1] > 0.1 * top[0]:
        return None
    prec = np.linalg.inv(cov)
    h = prec @ mean
    g = z - 0.5 * mean @ h - 0.5 * np.linalg.slogdet(2 * np.pi * -cov)[1]
    return refs.GRef(names, -prec, -h, -g)


def close(a, b, tol=1e-6):
    """Whether two reference Gaussians agree (as functions around their means)."""
    b = b.order(a.names)
    k = np.abs(b.K).max()
    m = np.linalg.solve(b.K, b.h)
    size = 1.0 + np.abs(m).max()
    return (np.abs(a.K - b.K).max() <= tol * k and np.abs(a.h - b.h).max() <= tol * k * size and
            abs(a.g - b.g) <= tol * (1 + abs(b.g) + k * size ** 2))


def case(ctx):
    from veroku.factors.experimental.gaussian_mixture import GaussianMixture

    rng = ctx.rng
    method = int(rng.choice([0, 1, 1, 2, 2]))
    nms = gen.subset(rng, gen.names(rng, 4), 1, 3)
    coinciding = bool(rng.random() < 0.3)
    separated = bool(rng.random() < 0.2)
    f, parts = numerator(ctx, nms, method, separated)
    f, parts, program = operate(ctx, f, parts, separated)
    names = list(f.var_names)
    if min(np.linalg.eigvalsh(p.K)[0] for p in parts) < 0.1:
        raise core.Reject()
    other, den, scope = denominator(ctx, names, parts, method, coinciding, separated)
    program = f"method {method}: {nms} x{len(parts)} {program} / {scope} x{len(den)}{' coinciding' if coinciding else ''}"

    def info():
        return program + "\nnumerator\n" + "\n".join(refs.gfmt(p) for p in parts) + "\ndenominator\n" + "\n".join(refs.gfmt(p) for p in den)
    before = [zoo_state(c) for c in f.components], [zoo_state(c) for c in other.components]
    with contextlib.redirect_stdout(io.StringIO()):
        quotient = f.divide(other) if rng.random() < 0.5 else f.cancel(other)
        if rng.random() < 0.12:
            ctx.count("repeated")
            again = f.divide(other)
            ctx.check(len(again.components) == len(quotient.components) and all(
                close(refs.gref_of(a), refs.gref_of(b), 1e-9) for a, b in zip(again.components, quotient.components)), "not-repeatable", info)
    ctx.count("divisions")
    ctx.count(f"method_{method}")
    ctx.count("partial_scope", int(set(scope) != set(names)))
    ctx.count("other_order", int([v for v in names if v in scope] != list(other.var_names)))
    after = [zoo_state(c) for c in f.components], [zoo_state(c) for c in other.components]
    ctx.check(all(same(x, y) for x, y in zip(before[0] + before[1], after[0] + after[1])), "operand-changed", info)
    if not ctx.check(isinstance(quotient, GaussianMixture) and set(quotient.var_names) == set(names), "type-or-scope", info):
        return
    got = [refs.gref_of(c).order(names) for c in quotient.components]
    ctx.count("negative_g", int(min(c.g for c in got) < 0))
    if len(parts) > 1 or not coinciding:
        ctx.sig(program, tuple(other.var_names), tuple(names), tuple(round(p.g, 6) for p in parts))
    ctx.sample(program)
    if coinciding:
        ctx.count("coinciding")
    if method == 0:
        _, mean, cov = moments(den)
        whole = refs.GRef.cov(den[0].names, cov, mean, mass(den))
        matched(ctx, got, [p.div(whole).order(names) for p in parts], "moment-matched-quotient", info)
    elif method == 2:
        want = [inverse_match(den, p, names) for p in parts]
        if any(w is None for w in want):
            ctx.count("not_judged")
            return
        ctx.count("inverses", len(want))
        matched(ctx, got, want, "inverse-matched-quotient", info)
    else:
        modes(ctx, got, parts, den, names, separated, info)
    if coinciding and (method != 1 or len(parts) == 1):
        total = refs.lse([d.g for d in den])
        whole = refs.GRef(den[0].names, den[0].K, den[0].h, total)
        exact(ctx, quotient, got, [p.div(whole) for p in parts], names, method, info)


def zoo_state(g):
    return [None if v is None else np.array(v, dtype=float) for v in (g.get_cov(), g.get_mean(), g.get_log_weight())]


def same(x, y):
    return all((a is None) == (b is None) and (a is None or np.allclose(a, b, rtol=1e-12, atol=1e-12)) for a, b in zip(x, y))


def matched(ctx, got, want, what, info):
    left = list(want)
    ok = len(got) == len(want)
    for g in got:
        hit = next((w for w in left if close(g, w)), None)
        if hit is None:
            ok = False
            break
        left = [w for w in left if w is not hit]
    return ctx.check(ok, what, lambda: info() + "\nquotient\n" + "\n".join(refs.gfmt(g) for g in got) +
                     "\nexpected\n" + "\n".join(refs.gfmt(w) for w in want))


def modes(ctx, got, parts, den, names, separated, info):
    """Method 1: every component has the height, position and curvature of the quotient at one of its modes."""
    found = []
    for g in got:
        ctx.count("modes")
        vals = np.linalg.eigvalsh(g.K)
        if not ctx.check(vals[0] > 0, "mode-not-a-maximum", lambda: info() + "\n" + refs.gfmt(g)):
            return
        m = np.linalg.solve(g.K, g.h)
        va, ga, ha = log_sum_derivatives(parts, names, m)
        vb, gb, hb = log_sum_derivatives(den, names, m)
        val, grad, prec = va - vb, ga - gb, hb - ha
        peak = g.g + 0.5 * g.h @ m
        scale = 1 + abs(va) + abs(vb) + vals[-1] * (1 + np.abs(m).max()) ** 2
        ctx.check(abs(peak - val) <= 1e-6 + 1e-9 * scale, "mode-height", lambda: info() + f"\nat {m}: {peak}, quotient {val}\n" + refs.gfmt(g))
        ctx.check(grad @ np.linalg.solve(g.K, grad) <= 1e-3, "mode-position", lambda: info() + f"\nat {m}: gradient {grad}\n" + refs.gfmt(g))
        ctx.check(np.abs(g.K - prec).max() <= 2e-3 * np.abs(prec).max(), "mode-curvature", lambda: info() +
                  f"\nat {m}: {g.K.tolist()} quotient {prec.tolist()}")
        for other in found:
            ctx.check((m - other) @ g.K @ (m - other) > 1e-4, "mode-twice", lambda: info() + f"\nat {m} and {other}")
        found.append(m)
    ctx.check(0 < len(found) <= len(parts), "mode-count", lambda: info() + f"\n{len(found)} modes")
    for p in parts if not separated else []:
        m = clear_mode(parts, p, den, names)
        if m is not None:
            ctx.count("clear_modes")
            q = p.order(names)
            ctx.check(any((m - x) @ q.K @ (m - x) < 0.05 for x in found), "mode-missed", lambda: info() + f"\nno mode at {m}: {found}")
    if separated:
        ctx.count("separated")
        for p in parts:
            q = p.order(names)
            mu = q.mean()
            ctx.check(sum((m - mu) @ q.K @ (m - mu) < 9.0 for m in found) == 1, "mode-missed", lambda: info() +
                      f"\nno (single) mode at {mu}: {found}")


def clear_mode(parts, part, den, names):
    """The mode of the quotient that one component makes practically alone, if there is just one such."""
    ends = []

    def fun(x):
        va, ga, _ = log_sum_derivatives([part], names, x)
        vb, gb, _ = log_sum_derivatives(den, names, x)
        return vb - va, gb - ga
    for d in den:
        s = d.div(part).order(names)
        res = optimize.minimize(fun, np.linalg.solve(s.K, s.h), jac=True, method="BFGS")
        ends.append(res.x)
    m = ends[0]
    k = part.order(names).K
    if any((e - m) @ k @ (e - m) > 1e-3 for e in ends):
        return None
    at = dict(zip(names, m))
    share = part.at(at) - lse_at(parts, at)
    if share < np.log(0.9999) or sum(p is part for p in parts) > 1:
        return None

    def full(x):
        va, ga, _ = log_sum_derivatives(parts, names, x)
        vb, gb, _ = log_sum_derivatives(den, names, x)
        return vb - va, gb - ga
    end = optimize.minimize(full, m, jac=True, method="BFGS").x
    return end if (m - end) @ k @ (m - end) < 1e-2 else None


def exact(ctx, quotient, got, want, names, method, info):
    rng = ctx.rng
    tol = 1e-6 if method != 1 else 2e-2
    for _ in range(6):
        p = want[int(rng.integers(len(want)))].order(names)
        x = p.mean() + np.linalg.cholesky(np.linalg.inv(p.K)) @ rng.normal(0, 1, len(names))
        at = dict(zip(names, x))
        expect = lse_at(want, at)
        scale = 1e-9 * (1 + abs(expect) + max(abs(w.g) for w in want))
        order = list(quotient.var_names)
        have = float(np.ravel(quotient.log_potential(np.array([at[v] for v in order])))[0])
        if not ctx.check(abs(have - expect) <= tol + 10 * scale and abs(lse_at(got, at) - expect) <= tol + 10 * scale, "exact-quotient",
                         lambda: info() + f"\nat {at}: {have} expected {expect}"):
            return
