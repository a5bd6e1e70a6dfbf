"""C15: Gaussian mixtures behave as sums of their components."""
import itertools

import numpy as np

from vmon import gen, refs, zoo

NUM = 15
RULE = ("random programs of operations on real mixtures next to a list-of-Gaussians reference; after every operation both are evaluated "
        "at points around and between the modes, component masses are totalled, and moments and maximisers are checked; non-trivial: "
        "at least two components; distinct by program, component counts and scopes")
COUNTS = {"quick": 1600, "thorough": 90000}
REQUIRED = {"many_components": 15, "ops": 3000, "points": 20000, "moment_matches": 2500, "argmax": 300, "extreme_weights": 150, "divisions": 800,
            "gm_products": 300, "marginals": 150, "reductions": 200, "multi_divisions": 150, "sklearn": 40, "squares": 30, "spikes": 50}


def lse_at(parts, x):
    return refs.lse([p.at(x) for p in parts])


def mass(parts):
    return refs.lse([p.log_mass() for p in parts])


def moments(parts):
    names = parts[0].names
    lw = np.array([p.log_mass() for p in parts])
    w = np.exp(lw - refs.lse(lw))
    ms = [p.order(names).mean() for p in parts]
    mean = sum(a * m for a, m in zip(w, ms))
    cov = sum(a * (p.order(names).covariance() + np.outer(m - mean, m - mean)) for a, m, p in zip(w, ms, parts))
    return names, mean, cov


def proper(parts):
    return all(not p.names or np.linalg.eigvalsh(p.K)[0] > 5e-2 for p in parts)


def make(ctx, nms, n, weights=None):
    from veroku.factors.experimental.gaussian_mixture import GaussianMixture

    rng = ctx.rng
    parts, facs = [], []
    shift = 0.0
    if weights == "extreme":
        shift = float(rng.choice([-900.0, 900.0, -5000.0]))
        ctx.count("extreme_weights")
    for _ in range(n):
        cov, mean, lw, _ = gen.gaussian_params(rng, nms, mean_scale=float(rng.choice([0.5, 3.0, 8.0])))
        ref = refs.GRef.cov(nms, cov, mean, lw + shift)
        facs.append(gen.make_gaussian(rng, ref, cov, mean, lw + shift))
        parts.append(ref)
    if rng.random() < 0.1:
        parts.append(parts[0])  # the same component twice
        facs.append(facs[0].copy())
    return GaussianMixture(facs), parts


def case(ctx):
    from veroku.factors.experimental.gaussian_mixture import GaussianMixture

    rng = ctx.rng
    pool = gen.names(rng, 4)
    nms = gen.subset(rng, pool, 1, 3)
    extreme = rng.random() < 0.2
    n = int(rng.integers(1, 5) if rng.random() < 0.96 else rng.integers(7, 13))
    ctx.count("many_components", int(n > 6))
    if rng.random() < 0.04:
        return spike(ctx, nms[:2])
    if rng.random() < 0.06:
        f, parts = from_sklearn(ctx, nms, n)
    else:
        f, parts = make(ctx, nms, n, "extreme" if extreme else None)
    program = [f"start {nms} x{len(parts)}"]
    sizes = [len(parts)]
    if not compare(ctx, f, parts, program):
        return
    for _ in range(int(rng.integers(1, 6))):
        op = str(rng.choice(["mul-g", "mul-gm", "div-g", "div-gm1", "div-gm", "reduce", "marg", "norm", "copy"]))
        names = list(f.var_names)
        g = None
        if op == "mul-g":
            g, gr = zoo.make_gaussian(ctx, gen.subset(rng, pool, 1, 2))
            f, parts = _call(rng, f, ["multiply", "absorb", "__mul__"], g), [p.mul(gr) for p in parts]
        elif op == "mul-gm":
            if len(parts) > 4:
                continue
            m = int(rng.integers(1, 4))
            if len(parts) < 4 and rng.random() < 0.15:
                other, oparts = f, list(parts)
                ctx.count("squares")
            else:
                other, oparts = make(ctx, gen.subset(rng, pool, 1, 2), m)
            ctx.count("gm_products")
            f, parts = _call(rng, f, ["multiply", "absorb", "__mul__"], other), [a.mul(b) for a in parts for b in oparts]
        elif op in ("div-g", "div-gm1", "div-gm"):
            if not names:
                continue
            scope = gen.subset(rng, names, 1)
            # a wide divisor, so that quotients stay proper
            if op == "div-gm":
                other, oparts = _wide(ctx, scope, 2)
                _, mean, cov = moments(oparts)
                gr = refs.GRef.cov(oparts[0].names, cov, mean, mass(oparts))
                ctx.count("multi_divisions")
            else:
                other, oparts = _wide(ctx, scope, 1)
                gr = oparts[0]
                if op == "div-g":
                    other = other.get_component(0)
            ctx.count("divisions")
            f, parts = _call(rng, f, ["divide", "cancel", "cancel"], other), [p.div(gr) for p in parts]
        elif op == "reduce":
            if len(names) < 2:
                continue
            vrs = gen.subset(rng, names, 1, len(names) - 1)
            vals = list(rng.normal(0, 2, len(vrs)))
            ctx.count("reductions")
            f = _call(rng, f, ["reduce", "observe"], vrs, np.array(vals) if rng.random() < 0.3 else vals)
            parts = [p.reduce(dict(zip(vrs, vals))) for p in parts]
        elif op == "marg":
            if len(names) < 2 or not proper(parts):
                continue
            keep = gen.subset(rng, names, 1, len(names) - 1)
            ctx.count("marginals")
            if len(keep) == 1 and rng.random() < 0.2:
                f = f.marginalize(keep[0])
            elif rng.random() < 0.5:
                f = f.marginalize(list(keep), keep=True) if rng.random() < 0.5 else f.marginalize(list(keep))
            else:
                drop = [v for v in names if v not in keep]
                f = f.marginalize(gen.perm(rng, drop), keep=False)
            parts = [p.marg(keep) for p in parts]
        elif op == "norm":
            if not proper(parts):
                continue
            z = mass(parts)
            f, parts = f.normalize(), [refs.GRef(p.names, p.K, p.h, p.g - z) for p in parts]
            ctx.check(abs(refs.lse([refs.gref_of(c).log_mass() for c in f.components])) < 1e-7, "normalised-mass")
        else:
            f = f.copy()
        program.append(op)
        sizes.append(len(parts))
        ctx.count("ops")
        if not isinstance(f, GaussianMixture):
            ctx.violate("result-type", f"{program}: {type(f)}")
            return
        if not compare(ctx, f, parts, program):
            return
        if max(np.abs(p.K).max(initial=0) for p in parts) > 1e4 or len(parts) > 12:
            break
    if max(sizes) > 1:
        ctx.sig(tuple(program), tuple(sizes))
    ctx.sample(str(program))


def _call(rng, f, methods, *args):
    return getattr(f, str(rng.choice(methods)))(*args)


def _wide(ctx, scope, n):
    from veroku.factors.experimental.gaussian_mixture import GaussianMixture

    parts, facs = [], []
    for _ in range(n):
        cov, mean, lw, _ = gen.gaussian_params(ctx.rng, scope)
        cov = cov * 40.0
        ref = refs.GRef.cov(scope, cov, mean, lw)
        parts.append(ref)
        facs.append(gen.make_gaussian(ctx.rng, ref, cov, mean, lw))
    return GaussianMixture(facs), parts


def spike(ctx, nms):
    """Components of very different widths: the highest peak is often that of a narrow one with little weight."""
    from veroku.factors.experimental.gaussian_mixture import GaussianMixture

    rng = ctx.rng
    parts = []
    for _ in range(int(rng.integers(2, 5))):
        sd = 10.0 ** rng.uniform(-2.5, 1)
        cov = gen.spd(rng, len(nms)) * sd ** 2
        # weights in proportion to the widths give peaks of similar heights
        lw = rng.uniform(-9, 0) if rng.random() < 0.3 else len(nms) * np.log(sd) + rng.uniform(-1.5, 1.5)
        parts.append(refs.GRef.cov(nms, cov, rng.normal(0, 8, len(nms)), float(lw)))
    f = GaussianMixture([gen.make_gaussian(rng, p) for p in parts])
    ctx.count("spikes")

    def info():
        return "components of different widths\n" + "\n".join(refs.gfmt(p) for p in parts)
    check_argmax(ctx, f, parts, list(f.var_names), info, nearby=False)
    ctx.sig("spike", nms, tuple(round(p.g, 6) for p in parts))


def from_sklearn(ctx, nms, n):
    """An object with the attributes of a fitted sklearn mixture."""
    from veroku.factors.experimental.gaussian_mixture import GaussianMixture

    class Fitted:
        pass
    m = Fitted()
    rng = ctx.rng
    m.means_ = rng.normal(0, 3, (n, len(nms)))
    m.covariances_ = np.array([gen.spd(rng, len(nms)) for _ in range(n)])
    w = rng.uniform(0.1, 1, n)
    m.weights_ = w / w.sum()
    ctx.count("sklearn")
    parts = [refs.GRef.cov(nms, c, mu, np.log(x)) for c, mu, x in zip(m.covariances_, m.means_, m.weights_)]
    return GaussianMixture.from_sklearn_gmm(m, list(nms)), parts


def compare(ctx, f, parts, program):
    rng = ctx.rng

    def info():
        return f"{program}\n" + "\n".join(refs.gfmt(p) for p in parts)
    if not ctx.check(set(f.var_names) == set(parts[0].names) and len(f.var_names) == len(set(f.var_names)), "scope", lambda: info() +
                     f"\n{f.var_names}"):
        return False
    got = [refs.gref_of(c) for c in f.components]
    names = list(f.var_names)
    if not ctx.check(all(list(c.names) == names for c in got) and f.num_components == len(f.components), "component-scopes", info):
        return False
    if min(np.abs(p.K).max(initial=0) for p in parts) > 1e-3:
        ctx.check(not f.is_vacuous, "is_vacuous", info)
    elif rng.random() < 0.5:
        ctx.check(not max(np.abs(p.K).max(initial=0) for p in parts) > 1e-3 or not f.is_vacuous, "is_vacuous", info)
    if rng.random() < 0.05:
        from veroku.factors.experimental.gaussian_mixture import GaussianMixture
        from veroku.factors.gaussian import Gaussian

        none = GaussianMixture([Gaussian.make_vacuous(list(names)) for _ in range(int(rng.integers(1, 4)))])
        some = GaussianMixture([c.copy() for c in none.components] + [f.components[0].copy()])
        ctx.count("vacuous_mixtures")
        ctx.check(bool(none.is_vacuous), "vacuous-mixture", info)
        if np.abs(parts[0].K).max(initial=0) > 1e-3:
            ctx.check(not some.is_vacuous, "partly-vacuous-mixture", info)
    # values around and between the modes
    centres = []
    for p in parts:
        try:
            centres.append(p.order(names).mean())
        except np.linalg.LinAlgError:
            centres.append(np.zeros(len(names)))
    for _ in range(6):
        a, b = [centres[int(i)] for i in rng.integers(len(centres), size=2)]
        u = rng.random()
        x = np.clip(u * a + (1 - u) * b, -60, 60) + rng.normal(0, 1.5, len(names))
        at = dict(zip(names, x))
        want = lse_at(parts, at)
        scale = 1e-9 * max(1.0, max(abs(p.at(at)) for p in parts), max(np.abs(p.K).max(initial=0) for p in parts) * (1 + np.abs(x).max()) ** 2,
                           max(abs(p.g) for p in parts), max(np.abs(p.h).max(initial=0) for p in parts) * (1 + np.abs(x).max()))
        ctx.count("points")
        have = lse_at(got, at)
        if not ctx.check(abs(have - want) <= 1e-8 + 10 * scale, "function", lambda: info() + f"\nat {at}: {have} expected {want}"):
            return False
        have = float(np.ravel(f.log_potential(_vec(rng, x)))[0])
        if not ctx.check(abs(have - want) <= 1e-8 + 10 * scale, "log_potential", lambda: info() + f"\nat {at}: {have} expected {want}"):
            return False
        order = gen.perm(rng, names)
        have = float(np.ravel(f.log_potential(np.array([at[v] for v in order]), vrs=order))[0])
        if not ctx.check(abs(have - want) <= 1e-8 + 10 * scale, "log_potential-vrs", lambda: info() + f"\nat {at} in order {order}: "
                         f"{have} expected {want}"):
            return False
        if abs(want) < 600:
            have = float(np.ravel(f.potential(_vec(rng, x)))[0])
            if not ctx.check(abs(np.log(have) - want) <= 1e-7 + 10 * scale if have > 0 else False, "potential", lambda: info() +
                             f"\nat {at}: {have} expected exp({want})"):
                return False
    if not proper(parts):
        ctx.count("improper")
        return True
    z = mass(parts)
    big = 1e-7 * max(1.0, max(abs(p.g) for p in parts), max(float(np.abs(p.h).max(initial=0)) ** 2 for p in parts))
    if not ctx.check(abs(f.get_log_weight() - z) <= big, "log_weight", lambda: info() + f"\n{f.get_log_weight()} expected {z}"):
        return False
    # moment matching
    nm, mean, cov = moments(parts)
    g = f.moment_match_to_single_gaussian()
    ctx.count("moment_matches")
    idx = [nm.index(v) for v in g.var_names]
    cond = max(np.linalg.cond(p.K) for p in parts)
    tol = 1e-9 * cond * max(1.0, float(np.abs(mean).max())) ** 2 + 1e-8 * max(1.0, float(np.abs(cov).max()))
    ok = (set(g.var_names) == set(names) and np.all(np.abs(np.ravel(g.get_mean()) - mean[idx]) <= tol) and
          np.all(np.abs(g.get_cov() - cov[np.ix_(idx, idx)]) <= tol) and abs(g.get_log_weight() - z) <= big)
    if not ctx.check(bool(ok), "moment-match", lambda: info() + f"\nmean {np.ravel(g.get_mean())} expected {mean[idx]}\ncov {g.get_cov()} "
                     f"expected {cov[np.ix_(idx, idx)]}\nweight {g.get_log_weight()} expected {z}"):
        return False
    if len(names) <= 3 and len(parts) <= 6 and rng.random() < 0.15 and cond < 1e3 and np.abs(mean).max() < 50:
        return check_argmax(ctx, f, parts, names, info)
    return True


def _vec(rng, x):
    k = int(rng.integers(3))
    return x.copy() if k == 0 else (x.reshape(-1, 1) if k == 1 else list(x))


def check_argmax(ctx, f, parts, names, info, nearby=True):
    from veroku.factors.experimental.gaussian_mixture import OptimizationFailedError

    ctx.count("argmax")
    try:
        x = np.ravel(f.argmax())
    except OptimizationFailedError:
        return ctx.check(False, "argmax-failed", info)
    if not ctx.check(x.shape == (len(names),), "argmax-shape", info):
        return False

    def val(v):
        return lse_at(parts, dict(zip(names, v)))
    best = val(x)
    others = [p.order(names).mean() for p in parts]
    sd = min(np.sqrt(np.diag(p.order(names).covariance())).min() for p in parts)
    steps = [x + 0.1 * sd * np.array(d) for d in itertools.product([-1, 0, 1], repeat=len(names))]
    worst = max(val(v) for v in others + (steps if nearby else []))
    return ctx.check(best >= worst - 1e-3, "argmax", lambda: info() + f"\nargmax {x} value {best}, but {worst} is attained nearby or at a "
                     f"component mean")
