"""C17: a factorised factor is the product of its parts."""
import numpy as np

from vmon import gen, refs

NUM = 17
RULE = ("random programs of operations on real factorised factors next to the joint reference Gaussian (products of parts with equal, nested, "
        "partial, chained and disjoint scopes; interleaved products and quotients, marginals, evidence, normalisation); after every operation "
        "the scope, joint function, moments and total weight are compared; non-trivial: at least two parts; distinct by program and scopes")
COUNTS = {"quick": 3000, "thorough": 80000}
REQUIRED = {"many_parts": 40, "ops": 4000, "joints": 4000, "marginals": 250, "marginals_merging_parts": 100, "reductions": 350, "fully_observed_parts": 150,
            "divisions": 500, "exact_cancels": 100, "near_cancels": 60, "ff_products": 200, "normalised": 200, "equalities": 250, "kls": 150,
            "chained_overlaps": 120, "full_reductions": 30}


def potential(ctx, scope, width=1.0):
    rng = ctx.rng
    cov, mean, lw, _ = gen.gaussian_params(rng, scope, mean_scale=2.0)
    if rng.random() < 0.1:
        lw = lw + float(rng.choice([-300.0, 400.0, -900.0]))
    cov = cov * width
    ref = refs.GRef.cov(scope, cov, mean, lw)
    return gen.make_gaussian(rng, ref, cov, mean, lw), ref


def pad(ref, names):
    """The same function as a function of more variables."""
    return refs.GRef(names, np.zeros((len(names),) * 2), np.zeros(len(names)), 0.0).mul(ref).order(names)


def joint_ref(f):
    out = refs.GRef([], np.zeros((0, 0)), np.zeros(0), 0.0)
    for p in f.factors:
        if not p.var_names:
            out = refs.GRef(out.names, out.K, out.h, out.g + float(p.get_log_weight()))
        else:
            out = out.mul(refs.gref_of(p))
    return out


def close(a, b, slack=1.0):
    names = sorted(set(a.names) | set(b.names))
    a, b = pad(a, names), pad(b, names)
    scale = max(1.0, float(np.abs(b.K).max(initial=0)), float(np.abs(b.h).max(initial=0)), abs(b.g))
    t = 1e-8 * slack
    return (np.all(np.abs(a.K - b.K) <= t * scale) and np.all(np.abs(a.h - b.h) <= t * scale) and abs(a.g - b.g) <= t * scale * 10)


def proper(ref):
    return not ref.names or (np.linalg.eigvalsh(ref.K)[0] > 0.02 and np.linalg.cond(ref.K) < 1e5)


def make(ctx, pool, n=None):
    from veroku.factors.experimental.factorised_factor import FactorizedFactor

    rng = ctx.rng
    n = n or int(rng.integers(1, 5) if len(pool) < 8 else rng.integers(6, 11))
    style = str(rng.choice(["random", "chain", "disjoint", "star", "equal"]))
    p = gen.perm(rng, pool)
    if style == "chain":
        scopes = [p[i:i + 2] for i in range(min(n, len(p) - 1))]
        ctx.count("chained_overlaps", len(scopes) > 2)
    elif style == "disjoint":
        scopes = [[v] for v in p[:n]]
    elif style == "star":
        scopes = [[p[0], v] for v in p[1:n + 1]]
    elif style == "equal":
        scopes = [gen.perm(rng, p[:2]) for _ in range(n)]
    else:
        scopes = [gen.subset(rng, p, 1, 3) for _ in range(n)]
    scopes = [gen.perm(rng, s) for s in gen.perm(rng, scopes)]
    parts = [potential(ctx, s) for s in scopes]
    ref = parts[0][1]
    for _, r in parts[1:]:
        ref = ref.mul(r)
    return FactorizedFactor([g for g, _ in parts]), ref, parts


def case(ctx):
    from veroku.factors.experimental.factorised_factor import FactorizedFactor

    rng = ctx.rng
    pool = gen.names(rng, 5 if rng.random() < 0.96 else 9)
    ctx.count("many_parts", int(len(pool) > 5))
    f, ref, hist = make(ctx, pool)
    program = [f"start {[p.var_names for p in f.factors]}"]
    sizes = [f.num_factors]
    if not compare(ctx, f, ref, program):
        return
    for _ in range(int(rng.integers(2, 8))):
        op = str(rng.choice(["mul", "mul", "mul-ff", "div", "div", "cancel", "near-cancel", "reduce", "marg", "norm", "copy", "equal", "kl", "marg"]))
        if not f.var_names:
            break
        res = step(ctx, op, f, ref, hist, pool, program)
        if res is None:
            continue
        f, ref = res
        program.append(op)
        ctx.count("ops")
        if not isinstance(f, FactorizedFactor):
            f = FactorizedFactor([f])
        sizes.append(f.num_factors)
        if not compare(ctx, f, ref, program):
            return
    if max(sizes) > 1:
        ctx.sig(tuple(program))
    ctx.sample(str(program))


def step(ctx, op, f, ref, hist, pool, program):
    rng = ctx.rng
    names = list(f.var_names)
    if op == "mul":
        g, r = potential(ctx, gen.subset(rng, pool, 1, 3))
        hist.append((g, r))
        return call(rng, f, ["multiply", "absorb", "__mul__"], g), ref.mul(r)
    if op == "mul-ff":
        if f.num_factors < 4 and rng.random() < 0.15:
            ctx.count("squares")
            return call(rng, f, ["multiply", "absorb", "__mul__"], f), ref.mul(ref)
        g, r, parts = make(ctx, pool, 2)
        ctx.count("ff_products")
        hist.extend(parts)
        return call(rng, f, ["multiply", "absorb", "__mul__"], g), ref.mul(r)
    if op == "div":
        part = f.factors[int(rng.integers(f.num_factors))]
        if not part.var_names:
            return None
        g, r = potential(ctx, gen.subset(rng, part.var_names, 1), width=50.0)
        ctx.count("divisions")
        return call(rng, f, ["divide", "cancel", "__truediv__"], g), ref.div(r)
    if op == "cancel":
        if not hist:
            return None
        g, r = hist.pop(int(rng.integers(len(hist))))
        if not any(set(g.var_names) <= set(p.var_names) for p in f.factors):
            return None
        ctx.count("exact_cancels")
        return call(rng, f, ["divide", "cancel", "__truediv__"], g), ref.div(r)
    if op == "near-cancel":
        # a divisor that is equal to one of the parts up to a small but relevant change
        part = f.factors[int(rng.integers(f.num_factors))]
        p = joint_ref_one(part)
        if p is None or not proper(p):
            return None
        kind = int(rng.integers(3))
        if kind == 0:   # a weight that is small in absolute terms
            r = refs.GRef(p.names, p.K, p.h, p.g - float(rng.choice([3.0, 30.0])))
        elif kind == 1:
            r = refs.GRef(p.names, p.K * 1.00004, p.h, p.g)
        else:
            r = refs.GRef(p.names, p.K, p.h + 4e-5, p.g)
        g = gen.make_gaussian(rng, r)
        ctx.count("near_cancels")
        return call(rng, f, ["divide", "cancel"], g), ref.div(r)
    if op == "reduce":
        full = rng.random() < 0.12
        vrs = gen.perm(rng, names) if full else gen.subset(rng, names, 1, max(1, len(names) - 1))
        vals = [float(x) for x in rng.normal(0, 2, len(vrs))]
        ctx.count("reductions")
        ctx.count("full_reductions", len(vrs) == len(names))
        ctx.count("fully_observed_parts", any(p.var_names and set(p.var_names) <= set(vrs) for p in f.factors))
        ev = dict(zip(vrs, vals))
        for v in ref.names:
            if v not in names:
                ev.setdefault(v, 0.0)
        return getattr(f, str(rng.choice(["reduce", "observe"])))(list(vrs), list(vals)), ref.reduce({v: ev[v] for v in vrs})
    if op in ("marg", "norm", "kl") and not (proper(ref) and set(ref.names) == set(names)):
        ctx.count("improper")
        return None
    if op == "marg":
        if len(names) < 2:
            return None
        keep = gen.subset(rng, names, 1, len(names) - 1)
        out = [v for v in names if v not in keep]
        ctx.count("marginals")
        ctx.count("marginals_merging_parts", any(sum(v in p.var_names for p in f.factors) > 1 for v in out))
        m = f.marginalize(keep[0]) if len(keep) == 1 and rng.random() < 0.2 else f.marginalize(list(keep)) if rng.random() < 0.25 else f.marginalize(list(keep), keep=True) if rng.random() < 0.4 else f.marginalize(gen.perm(rng, out), keep=False)
        return m, ref.marg(keep)
    if op == "norm":
        ctx.count("normalised")
        return f.normalize(), refs.GRef(ref.names, ref.K, ref.h, ref.g - ref.log_mass())
    if op == "copy":
        return f.copy(), ref
    if op == "kl":
        if len(names) < 2:
            return None
        g, r, _ = make(ctx, names, 3)
        if set(r.names) != set(ref.names) or not proper(r):
            return None
        ctx.count("kls")
        want = ref.kl(r)
        got = float(f.kl_divergence(g))
        ctx.check(abs(got - want) <= 1e-6 * max(1.0, abs(want)), "kl_divergence", lambda: f"{program}\n{got} expected {want}")
        return None
    return equality(ctx, f, ref, program)


def equality(ctx, f, ref, program):
    """Regrouped parts are equal, a changed part is not."""
    from veroku.factors.experimental.factorised_factor import FactorizedFactor

    rng = ctx.rng
    if not proper(ref) or set(ref.names) != set(f.var_names) or abs(ref.g) > 1e3 or np.abs(ref.h).max(initial=0) > 1e3:
        return None
    ctx.count("equalities")
    parts = gen.perm(rng, [p.copy() for p in f.factors])
    if len(parts) > 1 and rng.random() < 0.5:
        a = parts.pop()
        parts[0] = parts[0].multiply(a)
    other = FactorizedFactor(parts)
    ctx.check(bool(f.equals(other)) and bool(other.equals(f)), "equals-regrouped", lambda: f"{program}\n{refs.gfmt(ref)}")
    i = int(rng.integers(len(parts)))
    if parts[i].var_names:
        delta = refs.GRef(parts[i].var_names, 0.5 * np.eye(len(parts[i].var_names)), np.zeros(len(parts[i].var_names)), 0.0)
        g = gen.make_gaussian(rng, delta, form="can")
        changed = FactorizedFactor(parts[:i] + [parts[i].multiply(g)] + parts[i + 1:])
        ctx.check(not f.equals(changed) and not changed.equals(f), "equals-changed", lambda: f"{program}\n{refs.gfmt(ref)}")
    return None


def joint_ref_one(part):
    return refs.gref_of(part) if part.var_names else None


def call(rng, f, methods, *args):
    return getattr(f, str(rng.choice(methods)))(*args)


def compare(ctx, f, ref, program):
    def info():
        return f"{program}\nparts {[refs.gfmt(refs.gref_of(p)) for p in f.factors if p.var_names]}\nexpected {refs.gfmt(ref)}"
    names = list(f.var_names)
    union = {v for p in f.factors for v in p.var_names}
    if not ctx.check(len(names) == len(set(names)) and set(names) == union, "scope-of-parts", info):
        return False
    missing = [v for v in ref.names if v not in names]
    i = ref.idx(missing)
    ok = set(names) <= set(ref.names) and (not i or (np.abs(ref.K[i]).max() < 1e-8 and np.abs(ref.h[i]).max() < 1e-8))
    if not ctx.check(bool(ok), "scope", lambda: info() + f"\nscope {names}"):
        return False
    slack = max(1.0, max((abs(float(p.get_g())) for p in f.factors if p.var_names), default=0.0) * 1e-2)
    ctx.count("joints")
    ctx.seen("scope_structures", tuple(sorted(tuple(sorted(ref.names.index(v) for v in p.var_names)) for p in f.factors)))
    if not ctx.check(close(joint_ref(f), ref, slack), "parts", lambda: info() + f"\nproduct {refs.gfmt(joint_ref(f))}"):
        return False
    if not names:
        return True
    j = refs.gref_of(f.joint_distribution)
    if not ctx.check(close(j, ref, slack) and set(j.names) == set(names), "joint_distribution", lambda: info() + f"\n{refs.gfmt(j)}"):
        return False
    ctx.check(f.num_factors == len(f.factors), "num_factors", info)
    if missing or not proper(ref):
        return True
    order = list(f.var_names)
    w = ref.order(order)
    cov, mean = w.covariance(), w.mean()
    t = 1e-6 * max(1.0, np.abs(cov).max(), np.abs(mean).max())
    ok = np.all(np.abs(f.get_cov() - cov) <= t) and np.all(np.abs(np.ravel(f.get_mean()) - mean) <= t)
    return ctx.check(bool(ok), "moments", lambda: info() + f"\nmean {np.ravel(f.get_mean())} expected {mean}\ncov {f.get_cov()} expected {cov}")
