"""C12: Gaussian inference is exact on trees and has exact means on loopy graphs."""
import numpy as np

from vmon import core, gen, graphs, models, refs

NUM = 12
RULE = ("real process_graph / message sweeps on generated Gaussian models (potentials and linear Gaussian CPDs on trees, Kalman filters "
        "with partial observations, walk-summable loopy grids), every queryable marginal compared with batch inference on the joint "
        "information form; non-trivial: at least one message; distinct by structure, evidence and delivered message sequence")
COUNTS = {"quick": 1700, "thorough": 50000}
REQUIRED = {"forests": 700, "marginals": 8000, "kalman": 150, "linear": 150, "loopy_converged": 120, "loopy_means": 600,
            "prefixed_schedules": 150, "sweeps": 150, "evidence_models": 300, "masses": 100, "multi_component": 20, "other_units": 250}


def kalman(ctx):
    """A Kalman filter with known dynamics: constant velocity or a random stable system, partially observed."""
    from veroku.factors.gaussian import Gaussian, make_linear_gaussian, make_linear_gaussian_cpd_template

    rng = ctx.rng
    n = int(rng.integers(2, 14 if ctx.thorough else 8))
    d = int(rng.integers(1, 4))
    if rng.random() < 0.5 and d >= 2:
        a = np.eye(d)
        a[0, 1] = float(rng.uniform(0.1, 1.0))
    else:
        a = rng.normal(0, 0.7, (d, d)) + np.eye(d) * 0.3
    q = gen.spd(rng, d, 0.2, 1.5)
    m = int(rng.integers(1, d + 1))
    h = np.eye(d)[:m] if rng.random() < 0.5 else rng.normal(0, 1, (m, d))
    r = gen.spd(rng, m, 0.2, 1.5)
    base = gen.perm(rng, gen.names(rng, 2 * d, 0))
    x = [[f"{base[i]}{t}" for i in range(d)] for t in range(n)]
    y = [[f"{base[d + i]}{t}" for i in range(m)] for t in range(n)]
    cov, mean, lw, ref = gen.gaussian_params(rng, x[0])
    grefs, facs = [ref], [gen.make_gaussian(rng, ref, cov, mean, lw)]
    use_template = rng.random() < 0.3
    if use_template:
        mot = make_linear_gaussian_cpd_template(a, q, [f"{b}{{p}}" for b in base[:d]], [f"{b}{{t}}" for b in base[:d]])
        obs = make_linear_gaussian_cpd_template(h, r, [f"{b}{{t}}" for b in base[:d]], [f"{b}{{t}}" for b in base[d: d + m]])
        ctx.count("template_models")
    for t in range(n):
        if t:
            facs.append(mot.make_factor({"p": t - 1, "t": t}) if use_template else
                        make_linear_gaussian(a, q, list(x[t - 1]), list(x[t])))
            grefs.append(models.linear_gaussian_ref(a, q, x[t - 1], x[t]))
        if rng.random() < 0.8:
            facs.append(obs.make_factor({"t": t}) if use_template else make_linear_gaussian(h, r, list(x[t]), list(y[t])))
            grefs.append(models.linear_gaussian_ref(h, r, x[t], y[t]))
    p_obs = float(rng.choice([0.5, 1.0]))
    present = {v for g in grefs for v in g.names}
    ev = {v: float(rng.normal(0, 2)) for ys in y for v in ys if v in present and rng.random() < p_obs}
    if rng.random() < 0.5:  # all or none of an observation vector
        ev = {v: e for ys in y for v, e in ev.items() if v in ys and all(w in ev for w in ys)}
    order = gen.perm(rng, range(len(facs)))
    model = models.GaussianModel([grefs[i] for i in order], [facs[i] for i in order], ev)
    ctx.count("kalman")
    return model


def case(ctx):
    rng = ctx.rng
    kind = str(rng.choice(["kalman", "linear", "forest", "loopy"]))
    if kind == "kalman":
        model = kalman(ctx)
        # dimension reducing observations: the reduced pieces must still be integrable over what messages integrate out
        if not _first_messages_exist(model):
            raise core.Reject()
    elif kind == "loopy":
        model = models.gaussian(ctx, loopy=True, size=9, strength=0.22, max_scope=3)
    else:
        scale = float(rng.choice([3.0, 3.0, 100.0]))
        for attempt in range(5):
            try:
                model = models.gaussian(ctx, size=8 if not ctx.thorough else 12, linear=kind == "linear", mean_scale=scale,
                                        p_nested=0.0 if rng.random() < 0.5 else 0.35, long=0.06)
                break
            except core.Reject:
                if attempt == 4:
                    raise
    if kind == "linear":
        ctx.count("linear")
    joint = model.joint()
    units = {}
    if joint.names and rng.random() < 0.35:
        units = rescaled(ctx, model)
    if joint.names:
        eig = np.linalg.eigvalsh(joint.K)
        if eig[0] < 1e-4 or eig[-1] / eig[0] > 1e6:
            raise core.Reject()
    run(ctx, model, joint, kind, units)


def rescaled(ctx, model):
    """Express the model in other units (millimetres, kilometres, or different ones per variable)."""
    rng = ctx.rng
    allv = sorted({v for g in model.grefs for v in g.names})
    if rng.random() < 0.6:
        units = dict.fromkeys(allv, float(rng.choice([1e-3, 0.03, 20.0, 1e3])))
    else:
        units = {v: float(10 ** rng.uniform(-2.5, 2.5)) for v in allv}
    factors = []
    for g in model.grefs:
        u = np.array([units[v] for v in g.names])
        scaled = refs.GRef(g.names, g.K / np.outer(u, u), g.h / u, g.g)
        proper = np.linalg.eigvalsh(g.K)[0] > 1e-3
        factors.append(gen.make_gaussian(rng, scaled, form=None if proper else "can"))
    model.factors = factors
    model.evidence = {v: e * units[v] for v, e in model.evidence.items()}
    model.grefs = [refs.GRef(g.names, g.K / np.outer(*[[units[v] for v in g.names]] * 2),
                             g.h / np.array([units[v] for v in g.names]), g.g) for g in model.grefs]
    ctx.count("other_units")
    return units


def _first_messages_exist(model):
    for g in model.reduced():
        n = len(g.names)
        for drop in [[i] for i in range(n)] + [list(range(n // 2)), list(range(n // 2, n))]:
            if 0 < len(drop) < n:
                k = g.K[np.ix_(drop, drop)]
                if np.linalg.eigvalsh(k)[0] < 1e-3 and np.abs(k).max() > 1e-9:
                    return False
    return True


def run(ctx, model, joint, kind, units):
    rng = ctx.rng
    with graphs.recording() as events:
        cg = model.graph()
        forest = graphs.is_forest(cg)
        n = len(graphs.clusters(cg))
        comps = graphs.components(cg)
        ctx.count("evidence_models", int(bool(model.evidence)))
        mode = int(rng.choice([0, 0, 1, 2, 3])) if forest else 3
        full = False
        graphs.current_marginals(ctx, cg, p=0.4)
        tol = float(rng.choice([0.0, 1e-13])) if forest else 1e-13
        if mode == 0:
            ctx.count("sweeps")
            for _ in range(n):
                for p in gen.perm(rng, graphs.sorted_paths(cg)):
                    p.pass_next_message()
            full = True
        elif mode == 1:
            ctx.count("prefixed_schedules")
            graphs.random_schedule(ctx, cg, int(rng.integers(1, 2 * n + 2)))
            graphs.current_marginals(ctx, cg, p=0.4)
            cg.process_graph(tol=tol, max_iter=n + 8)
        elif mode == 2 and n > 1:
            cg.process_graph(tol=1e-2, max_iter=2)
            cg.process_graph(tol=tol, max_iter=n + 8)
        else:
            cg.process_graph(tol=tol, max_iter=(n + 8) if forest else 60)
        ctx.count("messages", len(events.log))

    def info():
        return (f"{kind} {model.describe()}\nunits {units}\n{graphs.describe(cg)}\nmode {mode} tol {tol}\n"
                f"{[(s, r) for s, r, _ in events.log][-12:]}")
    if not forest:
        gains = [p.next_information_gain for p in graphs.paths(cg)]
        if gains and not max(gains) <= 1e-9:
            ctx.count("loopy_not_converged")
            return
        ctx.count("loopy_converged")
    else:
        ctx.count("forests")
        ctx.count("multi_component", int(len([c for c in comps if len(c) > 1]) > 1))
    cov, mean = joint.covariance(), joint.mean()
    scale = max(1.0, float(np.abs(mean).max(initial=0)))
    cscale = max(1.0, float(np.abs(cov).max(initial=0)))
    for c in graphs.clusters(cg):
        scope = list(c.var_names)
        if not scope:
            continue
        queries = [[v] for v in gen.perm(rng, scope)[:2]] + ([gen.subset(rng, scope, 1)] if len(scope) > 1 else [])
        for q in queries:
            got = cg.get_marginal(list(q))
            ctx.count("marginals")
            if not _compare(ctx, got, q, joint, mean, cov, scale, cscale, forest, "marginal", info, units):
                return
        if not _compare(ctx, c.factor, scope, joint, mean, cov, scale, cscale, forest, "cluster-belief", info, units):
            return
    if full and forest and kind == "forest" and not units:
        reduced = model.reduced()
        total = 0.0
        for comp in comps:
            masses = [graphs.read(c.factor).log_mass() for c in comp]
            total += masses[0]
            ctx.count("masses")
            ctx.check(np.ptp(masses) <= 1e-5 * (1 + scale ** 2), "cluster-masses-differ", lambda: info() + f"\n{masses}")
        want = joint.log_mass()
        ctx.check(abs(total - want) <= 1e-5 * (abs(want) + scale ** 2), "total-mass", lambda: info() + f"\n{total} expected {want}")
        ctx.seen("mass", len(reduced), len(comps))
    if events.log:
        ctx.sig(kind, sorted(map(sorted, graphs.edges(cg))), sorted(model.evidence), [(s, r) for s, r, _ in events.log])
    ctx.seen("schedules", [(s, r) for s, r, _ in events.log])
    ctx.sample(info())


def _compare(ctx, got, q, joint, mean, cov, scale, cscale, forest, mech, info, units):
    idx = joint.idx(q)
    ok = list(got.var_names) == list(q)
    if ok:
        u = np.array([units.get(v, 1.0) for v in q])  # joint, mean and cov are in the original units
        g_mean = np.ravel(got.get_mean()) / u
        err = np.abs(g_mean - mean[idx]).max()
        ok = bool(err <= (1e-6 if forest else 3e-4) * scale)
        if ok and forest:
            ok = bool(np.abs(got.get_cov() / np.outer(u, u) - cov[np.ix_(idx, idx)]).max() <= 1e-6 * cscale)
    if not forest:
        ctx.count("loopy_means")
    return ctx.check(ok, mech if forest else f"loopy-{mech}", lambda: info() + f"\nquery {q}\ngot {got.var_names} "
                     f"{np.ravel(got.get_mean())} {got.get_cov()}\nwanted {mean[idx]} {cov[np.ix_(idx, idx)]}")
