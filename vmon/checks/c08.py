"""C08: factor operations are pure; results, copies, templates and arguments share no state."""
import contextlib
import io
import random

import numpy as np

from vmon import gen, models, refs, zoo

NUM = 8
RULE = ("random programs of operations on shared operands of every class, with a snapshot of every live factor checked after every "
        "call; then taint injection: everything mutable reachable from a result, copy, template, argument or accessor value is "
        "overwritten in place and all other factors, templates and graphs are checked again; non-trivial: a program with a taint; "
        "distinct by class, program and tainted object")
COUNTS = {"quick": 3500, "thorough": 80000}
REQUIRED = {"programs": 1500, "ops": 10000, "taints": 4000, "argument_taints": 1000, "accessor_taints": 1000, "graphs": 100,
            "templates": 150, "snapshots_checked": 50000, "sepset_taints": 200}


def wreck(obj, seen=None):
    """Overwrite everything mutable that is reachable from obj, in place."""
    seen = seen if seen is not None else set()
    if id(obj) in seen or obj is None or isinstance(obj, (str, int, float, complex, bool, type)):
        return
    seen.add(id(obj))
    if isinstance(obj, np.ndarray):
        if obj.flags.writeable:
            obj[...] = 77
    elif isinstance(obj, list):
        for x in obj:
            wreck(x, seen)
        obj.reverse()
        obj.append("tainted")
    elif isinstance(obj, dict):
        for x in list(obj.values()):
            wreck(x, seen)
        for k in list(obj):
            obj[k] = 77.0 if isinstance(obj[k], (int, float, np.floating)) else obj[k]
        obj["tainted"] = 77.0
    elif isinstance(obj, tuple):
        for x in obj:
            wreck(x, seen)
    elif type(obj).__module__.startswith("veroku"):
        for k, x in list(vars(obj).items()):
            wreck(x, seen)
            if isinstance(x, float):
                setattr(obj, k, 77.0)


class Live:
    """All live factors with their snapshots."""

    def __init__(self, ctx):
        self.ctx, self.items, self.program = ctx, [], []

    def add(self, factor, label):
        self.items.append([factor, zoo.snapshot(factor), list(factor.var_names) if type(factor).__name__ != "FactorizedFactor"
                           else sorted(factor.var_names), label])
        return factor

    def pick(self, *kinds):
        cands = [x[0] for x in self.items if not kinds or type(x[0]).__name__ in kinds]
        return cands[int(self.ctx.rng.integers(len(cands)))] if cands else None

    def verify(self, mech, what, skip=None):
        for factor, snap, order, label in self.items:
            if factor is skip:
                continue
            self.ctx.count("snapshots_checked")
            try:
                now = zoo.snapshot(factor)
                names = list(factor.var_names) if snap[0] != "FactorizedFactor" else sorted(factor.var_names)
                ok = zoo.same(snap, now) and names == order
            except Exception as exc:  # unreadable: it was changed
                now, ok = repr(exc), False
            if not self.ctx.check(ok, f"{snap[0]}:{mech}", lambda: f"{label} changed by {what}\nprogram {self.program}\n"
                                  f"before {snap}\nafter {now}"):
                return False
        return True


QUIET = io.StringIO()


def quiet():
    return contextlib.redirect_stdout(QUIET)


def arg_form(rng, seq):
    """A caller-held vector-like argument."""
    k = int(rng.integers(3))
    return list(seq) if k == 0 else (np.array(seq, dtype=float) if k == 1 else np.array(seq, dtype=float).reshape(-1, 1))


def case(ctx):
    k = ctx.idx % 14
    QUIET.truncate(0)
    QUIET.seek(0)
    if k < 11:
        [discrete, discrete, discrete, gaussian, gaussian, mixture, mixture, factorised, factorised, nonlinear, nlgm][k](ctx)
    elif k == 11:
        constructors(ctx)
    elif k == 12:
        templates(ctx)
    else:
        graph(ctx)


def run(ctx, live, ops, n):
    """Run n random operations; after each everything live is as before. Results become live."""
    rng = ctx.rng
    kept_args = []
    for _ in range(n):
        name = str(rng.choice(list(ops)))
        live.program.append(name)
        with quiet():
            res = ops[name]()
        ctx.count("ops")
        if res is None:
            continue
        res, args = res if isinstance(res, tuple) else (res, [])
        if not live.verify(f"{name}:changed-operand", name):
            return
        kept_args += args
        if hasattr(res, "var_names") and hasattr(res, "multiply"):
            if len(live.items) < 9:
                live.add(res, f"result of {name}")
        elif isinstance(res, (np.ndarray, list, dict)):
            wreck(res)
            ctx.count("accessor_taints")
            if not live.verify(f"{name}:shares-returned-value", f"overwriting what {name} returned"):
                return
    ctx.count("programs")
    for a in kept_args:
        wreck(a)
        ctx.count("argument_taints")
    if not live.verify("shares-argument", "overwriting the arguments of earlier calls"):
        return
    for _ in range(3):
        if len(live.items) < 2:
            break
        item = live.items.pop(int(rng.integers(len(live.items))))
        wreck(item[0])
        ctx.count("taints")
        if not live.verify("shares-state", f"overwriting {item[3]}"):
            return
    ctx.sig(tuple(live.program), ctx.idx % 14)
    ctx.sample(str(live.program))


def discrete(ctx):
    rng = ctx.rng
    cls = "dense" if rng.random() < 0.5 else "sparse"
    pool = gen.names(rng, 4)
    cds = gen.cards(rng, pool, hi=3)
    live = Live(ctx)
    anames = {v: [f"{v}_{i}" for i in range(cds[v])] for v in pool} if rng.random() < 0.3 else None

    def new(nms, zero=0.25):
        if cls == "dense":
            return zoo.make_dense(ctx, nms, cds, zero, anames)[0]
        return zoo.make_sparse(ctx, nms, cds)[0]
    for i in range(3):
        live.add(new(gen.subset(rng, pool, 1, 3)), f"operand {i}")
    pick = live.pick

    def f_nonempty():
        for _ in range(10):
            f = pick()
            if len(f.var_names):
                return f
        return live.items[0][0]

    def marg(keep):
        f = f_nonempty()
        vrs = gen.subset(rng, f.var_names, 0 if not keep else 1)
        if not keep and len(vrs) == len(f.var_names):
            vrs = vrs[1:]
        before = list(vrs)
        r = f.marginalize(vrs, keep=keep)
        ctx.check(vrs == before, "marginalize:changed-argument")
        return r, [vrs]

    def red():
        f = f_nonempty()
        vrs = gen.subset(rng, f.var_names, 1)
        vals = [int(rng.integers(f.var_cards[v])) for v in vrs]
        before = (list(vrs), list(vals))
        r = f.reduce(vrs, vals)
        ctx.check((vrs, vals) == before, "reduce:changed-argument")
        return r, [vrs, vals]

    def pair():
        f = f_nonempty()
        for g in [x[0] for x in live.items]:
            if g is not f and set(g.var_names) == set(f.var_names):
                return f, g
        g = new(gen.perm(rng, f.var_names), 0.0)
        return f, live.add(g, "fresh operand") if len(live.items) < 9 else g

    def kl():
        f, g = pair()
        if (refs.tab_of(f).log_mass() == refs.NEG) or refs.tab_of(g).log_mass() == refs.NEG:
            return None
        f.kl_divergence(g)
        return 1.0

    def with_mass(fn):
        def op():
            f = pick()
            t = refs.tab_of(f)
            if not np.isfinite(t.log_mass()) or np.isnan(t.logs).any():
                return None
            return fn(f)
        return op

    def order():
        f = f_nonempty()
        o = gen.perm(rng, f.var_names)
        before = list(o)
        r = f.reorder(o)
        ctx.check(o == before, "reorder:changed-argument")
        return r, [o]
    ops = {
        "multiply": lambda: pick().multiply(pick()),
        "marginalize-keep": lambda: marg(True), "marginalize-drop": lambda: marg(False), "reduce": red,
        "normalize": with_mass(lambda f: f.normalize()), "copy": lambda: pick().copy(), "reorder": order, "kl": kl,
        "dfv": with_mass(lambda f: f.distance_from_vacuous()),
        "equals": lambda: pair()[0].equals(pair()[1]) and None,
        "argmax": with_mass(lambda f: list(f.argmax())),
        "repr": lambda: repr(f_nonempty()) and None, "show": lambda: f_nonempty().show(),
        "array": lambda: f_nonempty().dense_distribution_array,
        "var_names": lambda: pick().var_names,
    }

    def cancel():
        f, g = pick(), pick()
        p = f.multiply(g)
        live.add(p, "product") if len(live.items) < 9 else None
        r = p.cancel(g)
        return r
    ops["cancel"] = cancel
    if cls == "dense":
        def divide():
            f = f_nonempty()
            return f.divide(live.add(new(gen.subset(rng, pool, 1, 2), 0.0), "divisor") if len(live.items) < 9 else
                            new(gen.subset(rng, pool, 1, 2), 0.0))
        ops["divide"] = divide
        ops["df"] = lambda: f_nonempty().get_df(named_assignments=bool(rng.random() < 0.5)) is None or None
        ops["argmax_names"] = with_mass(lambda f: f.argmax_assignment_names())
    else:
        ops["weight"] = lambda: pick().weight
    run(ctx, live, ops, int(rng.integers(4, 12)))


def gaussian_ops(ctx, live, pool):
    rng = ctx.rng
    pick = live.pick

    def fresh(nms):
        g = zoo.make_gaussian(ctx, nms)[0]
        return live.add(g, "fresh operand") if len(live.items) < 9 else g

    def proper(f):
        try:
            with np.errstate(all="ignore"):
                return np.linalg.eigvalsh(f.copy().get_prec())[0] > 1e-3
        except Exception:
            return False

    def some():
        cands = [x[0] for x in live.items if proper(x[0]) and len(x[0].var_names)]
        return cands[int(rng.integers(len(cands)))]

    def marg(keep):
        f = some()
        vrs = gen.subset(rng, f.var_names, 1 if keep else 0)
        if not keep and len(vrs) == len(f.var_names):
            vrs = vrs[1:]
        before = list(vrs)
        r = f.marginalize(vrs, keep=keep)
        ctx.check(vrs == before, "marginalize:changed-argument")
        return r, [vrs]

    def red():
        f = some()
        vrs = gen.subset(rng, f.var_names, 1)
        vals = arg_form(rng, rng.normal(0, 1, len(vrs)))
        before = (list(vrs), np.array(vals, float).tolist())
        r = f.reduce(vrs, vals)
        ctx.check((vrs, np.array(vals, float).tolist()) == before, "reduce:changed-argument")
        return r, [vrs, vals]

    def point():
        f = some()
        x = arg_form(rng, rng.normal(0, 1, len(f.var_names)))
        order = gen.perm(rng, f.var_names)
        before = (np.array(x, float).tolist(), list(order))
        f.log_potential(x, vrs=order)
        f.potential(x)
        ctx.check((np.array(x, float).tolist(), order) == before, "log_potential:changed-argument")
        return 1.0, [order]
    return some, fresh, {
        "multiply": lambda: some().multiply(fresh(gen.subset(rng, pool, 1, 3))),
        "multiply-shared": lambda: some().multiply(some()),
        "divide": lambda: (lambda f: f.multiply(some()).divide(f))(some()),
        "marginalize-keep": lambda: marg(True), "marginalize-drop": lambda: marg(False), "reduce": red,
        "normalize": lambda: some().normalize(), "copy": lambda: pick().copy(),
        "kl": lambda: (lambda f: f.kl_divergence(fresh(gen.perm(rng, f.var_names))))(some()),
        "kl-reverse": lambda: (lambda f: fresh(gen.perm(rng, f.var_names)).kl_divergence(f))(some()),
        "equals": lambda: (lambda f: (f.equals(fresh(gen.perm(rng, f.var_names))), None)[1])(some()),
        "equals-reverse": lambda: (lambda f: (fresh(gen.perm(rng, f.var_names)).equals(f), None)[1])(some()),
        "dfv": lambda: some().distance_from_vacuous(),
        "point": point, "sample": lambda: some().sample(3),
        "get_cov": lambda: some().get_cov(), "get_mean": lambda: some().get_mean(), "get_prec": lambda: some().get_prec(),
        "get_h": lambda: some().get_h(), "get_g": lambda: some().get_g(), "get_log_weight": lambda: some().get_log_weight(),
        "get_weight": lambda: some().get_weight(), "repr": lambda: repr(some()) and None, "show": lambda: some().show(),
        "var_names": lambda: some().var_names, "vacuous": lambda: float(bool(some().is_vacuous)),
    }


def gaussian(ctx):
    rng = ctx.rng
    pool = gen.names(rng, 4)
    live = Live(ctx)
    for i in range(3):
        live.add(zoo.make_gaussian(ctx, gen.subset(rng, pool, 1, 3))[0], f"operand {i}")
    _, _, ops = gaussian_ops(ctx, live, pool)
    run(ctx, live, ops, int(rng.integers(4, 12)))


def _proper(f):
    """A well conditioned proper Gaussian over at least one variable."""
    try:
        k = f.copy().get_prec()
        return len(f.var_names) > 0 and bool(np.all(np.isfinite(k))) and np.linalg.eigvalsh(k)[0] > 1e-3
    except np.linalg.LinAlgError:
        return False


def _some_gaussian(live, default):
    c = [x[0] for x in live.items if type(x[0]).__name__ == "Gaussian" and _proper(x[0])]
    return c[int(live.ctx.rng.integers(len(c)))] if c else default


def mixture(ctx):
    rng = ctx.rng
    pool = gen.names(rng, 3)
    live = Live(ctx)
    live.add(zoo.make_gm(ctx, gen.subset(rng, pool, 1, 2))[0], "mixture")
    live.add(zoo.make_gm(ctx, gen.subset(rng, pool, 1, 2), n=int(rng.integers(1, 3)))[0], "mixture 2")
    live.add(zoo.make_gaussian(ctx, gen.subset(rng, pool, 1, 2))[0], "gaussian")

    def gm():
        c = [x[0] for x in live.items if type(x[0]).__name__ == "GaussianMixture" and x[0].num_components < 8
             and len(x[0].var_names) and all(_proper(k) for k in x[0].components)]
        return c[int(rng.integers(len(c)))]

    def red():
        f = gm()
        vrs = gen.subset(rng, f.var_names, 1, max(1, len(f.var_names) - 1))
        if len(vrs) == len(f.var_names):
            return None
        vals = arg_form(rng, rng.normal(0, 1, len(vrs)))
        return f.reduce(vrs, vals), [vrs, vals]

    def marg(keep):
        f = gm()
        vrs = gen.subset(rng, f.var_names, 1)
        if not keep and len(vrs) == len(f.var_names):
            vrs = vrs[1:]
        return f.marginalize(vrs, keep=keep), [vrs]

    def point():
        f = gm()
        x = arg_form(rng, rng.normal(0, 1, len(f.var_names)))
        f.log_potential(x)
        f.potential(x)
        return None
    g1 = live.items[2][0]
    ops = {
        "multiply-gaussian": lambda: gm().multiply(_some_gaussian(live, g1)),
        "multiply": lambda: (lambda f, g: f.multiply(g) if f.num_components * g.num_components < 8 else None)(gm(), gm()),
        "divide": lambda: (lambda f: f.multiply(g1).divide(g1))(gm()),
        "reduce": red, "marginalize-keep": lambda: marg(True), "marginalize-drop": lambda: marg(False),
        "normalize": lambda: gm().normalize(), "copy": lambda: gm().copy(),
        "equals": lambda: (gm().equals(gm()), None)[1],
        "moment-match": lambda: gm().moment_match_to_single_gaussian(),
        "sample": lambda: gm().sample(3), "log_weight": lambda: gm().get_log_weight(), "point": point,
        "argmax": lambda: gm().argmax(), "show": lambda: gm().show(), "var_names": lambda: gm().var_names,
        "component": lambda: (gm().get_component(0), None)[1],
    }
    run(ctx, live, ops, int(rng.integers(3, 9)))


def factorised(ctx):
    rng = ctx.rng
    pool = gen.names(rng, 4)
    live = Live(ctx)
    live.add(zoo.make_ff(ctx, pool)[0], "ff")
    live.add(zoo.make_ff(ctx, gen.subset(rng, pool, 2, 3), n=2)[0], "ff 2")
    live.add(zoo.make_gaussian(ctx, gen.subset(rng, pool, 1, 2))[0], "gaussian")

    def ff():
        c = [x[0] for x in live.items if type(x[0]).__name__ == "FactorizedFactor" and len(x[0].var_names)
             and _proper(x[0].joint_distribution)]
        return c[int(rng.integers(len(c)))]

    def marg(keep):
        f = ff()
        vrs = gen.subset(rng, f.var_names, 1, max(1, len(f.var_names) - 1))
        if len(vrs) == len(f.var_names) and not keep:
            return None
        before = list(vrs)
        r = f.marginalize(vrs, keep=keep)
        ctx.check(vrs == before, "ff:marginalize:changed-argument")
        return r, [vrs]

    def red():
        f = ff()
        vrs = gen.subset(rng, f.var_names, 1, max(1, len(f.var_names) - 1))
        vals = list(rng.normal(0, 1, len(vrs)))
        return f.reduce(vrs, vals), [vrs, vals]
    g1 = live.items[2][0]

    def divide():
        f = ff()
        p = f.multiply(g1)
        return p.divide(g1)
    ops = {
        "multiply": lambda: ff().multiply(_some_gaussian(live, g1)),
        "multiply-ff": lambda: (lambda f, g: f.multiply(g) if f.num_factors + g.num_factors < 10 else None)(ff(), ff()),
        "divide": divide, "marginalize-keep": lambda: marg(True), "marginalize-drop": lambda: marg(False), "reduce": red,
        "normalize": lambda: ff().normalize(), "copy": lambda: ff().copy(), "joint": lambda: ff().joint_distribution,
        "equals": lambda: (ff().equals(ff()), None)[1], "get_cov": lambda: ff().get_cov(), "get_mean": lambda: ff().get_mean(),
        "kl": lambda: (lambda f: f.kl_divergence(f.copy()))(ff()), "dfv": lambda: ff().distance_from_vacuous(),
        "show": lambda: ff().show(), "var_names": lambda: ff().var_names,
    }
    run(ctx, live, ops, int(rng.integers(3, 9)))


def nl_ops(ctx, live, kind, x, y):
    rng = ctx.rng

    def nl():
        c = [i[0] for i in live.items if type(i[0]).__name__ == kind]
        return c[int(rng.integers(len(c)))]

    def gauss():
        c = [i[0] for i in live.items if type(i[0]).__name__ == "Gaussian" and
             (set(i[0].var_names) <= set(x) or set(i[0].var_names) <= set(y)) and i[3].startswith("g")]
        return c[int(rng.integers(len(c)))]

    def red():
        f = nl()
        vrs = gen.subset(rng, gen.perm(rng, list(y)), 1, 1)
        if vrs[0] in _observed(f):
            return None
        vals = list(rng.normal(0, 1, len(vrs)))
        return f.reduce(vrs, vals), [vrs, vals]

    def marg():
        f = nl()
        if any(v in _observed(f) for v in list(x) + list(y)):
            return None
        vrs = gen.subset(rng, list(x) + list(y), 1)
        before = list(vrs)
        r = f.marginalize(vrs, keep=True)
        ctx.check(vrs == before, "nlg:marginalize:changed-argument")
        return r, [vrs]

    def mul():
        f, g = nl(), gauss()
        if len(getattr(f, "nlgs", [])) > 3:
            return None
        return f.multiply(g)

    def div():
        f, g = nl(), gauss()
        if len(getattr(f, "nlgs", [])) > 3:
            return None
        p = f.multiply(g)
        return p.divide(g)
    return nl, {
        "multiply": mul, "divide": div, "reduce": red, "marginalize": marg, "copy": lambda: nl().copy(),
        "joint": lambda: nl().joint_distribution, "show": lambda: nl().show(), "var_names": lambda: nl().var_names,
    }


def _observed(f):
    parts = getattr(f, "nlgs", [f])
    return {v for p in parts for v in p.observed_evidence}


def nonlinear(ctx):
    rng = ctx.rng
    nms = gen.names(rng, 4)
    x, y = nms[: int(rng.integers(1, 3))], nms[2: 2 + int(rng.integers(1, 3))]
    live = Live(ctx)
    live.add(zoo.make_nlg(ctx, x, y)[0], "nlg")
    live.add(zoo.make_nlg(ctx, x, y)[0], "nlg 2")
    live.add(zoo.make_gaussian(ctx, gen.perm(rng, x))[0], "gaussian x")
    live.add(zoo.make_gaussian(ctx, gen.perm(rng, y))[0], "gaussian y")
    nl, ops = nl_ops(ctx, live, "NonLinearGaussian", x, y)
    ops.update({
        "normalize": lambda: nl().normalize(), "sample": lambda: nl().sample(2), "get_cov": lambda: nl().get_cov(),
        "get_mean": lambda: nl().get_mean(), "get_prec": lambda: nl().get_prec(), "get_h": lambda: nl().get_h(),
        "get_g": lambda: nl().get_g(), "get_log_weight": lambda: nl().get_log_weight(),
        "equals": lambda: (nl().equals(nl()), None)[1],
    })
    run(ctx, live, ops, int(rng.integers(3, 9)))


def nlgm(ctx):
    rng = ctx.rng
    nms = gen.names(rng, 4)
    x, y = nms[: int(rng.integers(1, 3))], nms[2: 2 + int(rng.integers(1, 3))]
    live = Live(ctx)
    live.add(zoo.make_nlgm(ctx, x, y)[0], "nlgm")
    live.add(zoo.make_gaussian(ctx, gen.perm(rng, x))[0], "gaussian x")
    live.add(zoo.make_gaussian(ctx, gen.perm(rng, y))[0], "gaussian y")
    _, ops = nl_ops(ctx, live, "NonLinearGaussianMixture", x, y)
    run(ctx, live, ops, int(rng.integers(3, 7)))


def constructors(ctx):
    """Everything the caller passed to a constructor can be overwritten afterwards."""
    from veroku._cg_helpers._cluster import Cluster, Message
    from veroku.factors.categorical import Categorical
    from veroku.factors.experimental.factorised_factor import FactorizedFactor
    from veroku.factors.experimental.gaussian_mixture import GaussianMixture
    from veroku.factors.experimental.nonlinear_gaussian import NonLinearGaussian, NonLinearGaussianMixture
    from veroku.factors.gaussian import Gaussian, make_linear_gaussian
    from veroku.factors.sparse_categorical import SparseCategorical

    rng = ctx.rng
    nms = gen.names(rng, int(rng.integers(1, 4)))
    cds = gen.cards(rng, nms, hi=3)
    t = refs.Tab(nms, gen.log_table(rng, [cds[v] for v in nms], 0.2))
    cov, mean, lw, ref = gen.gaussian_params(rng, nms)
    table = {tuple(int(i) for i in a): float(np.exp(t.logs[a])) for a in np.ndindex(*t.logs.shape)}
    ltable = {k: float(t.logs[k]) for k in table}
    cards = [cds[v] for v in nms]
    anames = [[f"{v}{i}" for i in range(cds[v])] for v in nms]
    gs = [zoo.make_gaussian(ctx, list(nms))[0] for _ in range(2)]
    tr = zoo.Transform("sin", np.ones((1, len(nms))), np.zeros(1))
    y = ["out'"]
    nlgs = [zoo.make_nlg(ctx, list(nms), y)[0]]
    kinds = {
        "dense-tensor": (Categorical, dict(var_names=list(nms), log_probs_tensor=t.logs.copy(),
                                           variables_assignment_names=anames)),
        "dense-table": (Categorical, dict(var_names=list(nms), cardinalities=list(cards), probs_table=dict(table))),
        "sparse-probs": (SparseCategorical, dict(var_names=list(nms), cardinalities=list(cards), probs_table=dict(table))),
        "sparse-logs": (SparseCategorical, dict(var_names=list(nms), cardinalities=list(cards), log_probs_table=dict(ltable))),
        "gaussian-cov": (Gaussian, dict(cov=cov.copy(), mean=mean.reshape(-1, 1).copy(), log_weight=lw, var_names=list(nms))),
        "gaussian-cov-lists": (Gaussian, dict(cov=cov.tolist(), mean=mean.tolist(), log_weight=lw, var_names=list(nms))),
        "gaussian-can": (Gaussian, dict(prec=ref.K.copy(), h_vec=ref.h.reshape(-1, 1).copy(), g_val=ref.g,
                                        var_names=list(nms))),
        "gm": (GaussianMixture, dict(factors=list(gs))),
        "ff": (FactorizedFactor, dict(factors=[zoo.make_gaussian(ctx, gen.subset(rng, nms, 1))[0] for _ in range(2)])),
        "nlg": (NonLinearGaussian, dict(conditioning_vars=list(nms), conditional_vars=list(y), transform=tr,
                                        noise_cov=np.eye(1) * 2.0, conditioning_factor=gs[0].copy(),
                                        conditional_update_factor=zoo.make_gaussian(ctx, y)[0],
                                        observed_evidence={})),
        "nlgm": (NonLinearGaussianMixture, dict(factors=list(nlgs))),
        "linear": (make_linear_gaussian, dict(a_mat=np.ones((1, len(nms))), n_mat=np.eye(1), conditioning_vars=list(nms),
                                              conditional_vars=list(y))),
        "vacuous": (Gaussian.make_vacuous, dict(var_names=list(nms))),
    }
    for name in gen.perm(rng, list(kinds))[:4]:
        make, kw = kinds[name]
        before = repr({k: v for k, v in kw.items() if k not in ("transform", "factors", "conditioning_factor",
                                                                "conditional_update_factor")})
        f = make(**kw)
        after = repr({k: v for k, v in kw.items() if k not in ("transform", "factors", "conditioning_factor",
                                                               "conditional_update_factor")})
        ctx.check(before == after, f"constructor:{name}:changed-argument", lambda: f"{before} -> {after}")
        snap = zoo.snapshot(f)
        extra = None
        if name.startswith(("dense", "gaussian")):
            extra = Cluster(f, "c0#") if rng.random() < 0.5 else Message(f.copy(), "c0#a", "c1#b")
        for k, v in kw.items():
            if k == "transform":
                continue
            wreck(v)
            ctx.count("argument_taints")
            ctx.check(_same_now(f, snap), f"constructor:{name}:shares-{k}",
                      lambda: f"overwriting the argument {k} changed the factor {snap} -> {f!r}")
        if extra is not None:
            r = extra.factor
            wreck(r)
            ctx.count("accessor_taints")
            ctx.check(_same_now(extra.factor, snap), f"{type(extra).__name__}.factor:shares-state")
        wreck(f.copy())
        ctx.count("taints")
        ctx.check(_same_now(f, snap), f"constructor:{name}:copy-shares-state")
    ctx.sig("constructors", tuple(nms), len(nms))


def _same_now(f, snap):
    try:
        return zoo.same(snap, zoo.snapshot(f))
    except Exception:
        return False


def templates(ctx):
    from veroku.factors.categorical import CategoricalTemplate
    from veroku.factors.experimental.nonlinear_gaussian import NonLinearGaussianTemplate
    from veroku.factors.gaussian import GaussianTemplate, make_linear_gaussian_cpd_template
    from veroku.factors.sparse_categorical import SparseCategoricalTemplate

    rng = ctx.rng
    n = int(rng.integers(1, 4))
    tmpl = [f"v{i}_{{t}}" for i in range(n)]
    cards = [int(rng.integers(1, 4)) for _ in range(n)]
    logs = gen.log_table(rng, cards, 0.2)
    table = {tuple(int(i) for i in a): float(np.exp(logs[a])) for a in np.ndindex(*logs.shape)}
    cov, mean, lw, ref = gen.gaussian_params(rng, tmpl)
    m = int(rng.integers(1, 3))
    out = [f"y{i}_{{t}}" for i in range(m)]
    a, noise = rng.normal(0, 1, (m, n)), gen.spd(rng, m)
    kinds = {
        "dense-tensor": (CategoricalTemplate, dict(var_templates=list(tmpl), log_probs_tensor=logs.copy())),
        "dense-table": (CategoricalTemplate, dict(var_templates=list(tmpl), cardinalities=list(cards), probs_table=dict(table))),
        "sparse": (SparseCategoricalTemplate, dict(var_templates=list(tmpl), cardinalities=list(cards), probs_table=dict(table))),
        "gaussian": (GaussianTemplate, dict(var_templates=list(tmpl), gaussian_parameters={
            "prec": ref.K.copy(), "h": ref.h.reshape(-1, 1).copy(), "g": ref.g})),
        "linear": (make_linear_gaussian_cpd_template, dict(a_mat=a.copy(), n_mat=noise.copy(), conditioning_var_templates=list(tmpl),
                                                           conditional_var_templates=list(out))),
        "nlg": (NonLinearGaussianTemplate, dict(conditioning_var_templates=list(tmpl), conditional_var_templates=list(out),
                                                transition_function=zoo.Transform("sin", a, np.zeros(m)), noise_cov=noise.copy())),
    }
    for name in gen.perm(rng, list(kinds))[:3]:
        make, kw = kinds[name]
        template = make(**kw)
        fd = {"t": int(rng.integers(5))}
        first = template.make_factor(dict(fd))
        snap = zoo.snapshot(first)
        second = template.make_factor(dict(fd))
        ctx.count("templates")
        ctx.check(zoo.same(snap, zoo.snapshot(second)), f"template:{name}:instances-differ")
        wreck(second)
        ctx.count("taints")
        ctx.check(_same_now(first, snap), f"template:{name}:instances-share-state")
        ctx.check(_same_now(_try(template, fd), snap), f"template:{name}:instance-shares-template")
        for k, v in kw.items():
            if k == "transition_function":
                continue
            wreck(v)
            ctx.count("argument_taints")
            ctx.check(_same_now(first, snap) and _same_now(_try(template, fd), snap), f"template:{name}:shares-{k}")
        explicit = [v.format(**fd) for v in (tmpl if name not in ("linear",) else tmpl + out)]
        if name != "nlg":
            given = list(explicit)
            third = template.make_factor(var_names=given)
            ctx.check(given == explicit, f"template:{name}:changed-argument")
            wreck(given)
            ctx.check(_same_now(third, snap), f"template:{name}:shares-var_names")
        wreck(template)
        ctx.count("taints")
        ctx.check(_same_now(first, snap), f"template:{name}:factor-shares-template")
    ctx.sig("templates", n, m, tuple(cards))


def _try(template, fd):
    try:
        return template.make_factor(dict(fd))
    except Exception as exc:
        return exc


def graph(ctx):
    """Graphs share nothing with the factors, evidence, queries and logs that callers hold."""
    rng = ctx.rng
    kind = str(rng.choice(["dense", "sparse", "gaussian"]))
    if kind == "gaussian":
        model = models.gaussian(ctx, size=4)
    else:
        model = models.discrete(ctx, kind, loopy=rng.random() < 0.3, zero=0.1, size=4)
        if model is None:
            return
    live = Live(ctx)
    for i, f in enumerate(model.factors):
        live.add(f, f"model factor {i}")
    factors, evidence = list(model.factors), dict(model.evidence)
    from veroku.cluster_graph import ClusterGraph

    cg = ClusterGraph(factors, evidence=evidence, disable_tqdm=True)
    cg.debug = True
    live.verify("graph-construction:changed-factor", "building a graph")
    ctx.check(evidence == model.evidence and [id(f) for f in factors] == [id(f) for f in model.factors],
              "graph:changed-argument", f"{evidence} {model.evidence}")
    steps = int(rng.integers(0, 3))
    if steps and len(cg.graph_message_paths):
        cg.process_graph(tol=0.0, max_iter=steps)
    live.verify("process_graph:changed-factor", "processing a graph")
    clusters = [c.factor for c in cg._clusters]

    def state():
        return [zoo.snapshot(c.factor) for c in cg._clusters]
    before = state()
    ctx.count("graphs")

    def verify(what):
        ctx.count("taints")
        try:
            now = state()
            ok = zoo.same(before, now)
        except Exception as exc:
            now, ok = repr(exc), False
        return ctx.check(ok, f"graph:shares-{what}", lambda: f"{model.describe()}\n{before}\n{now}")
    for f in clusters:
        wreck(f)
    if not verify("cluster-factor"):
        return
    for c in cg._clusters:
        for other in list(c.neighbour_ids):
            sepset, ids, names = list(c.get_sepset(other)), list(c.neighbour_ids), list(c.var_names)
            wreck(c.get_sepset(other))
            wreck(c.neighbour_ids)
            ctx.count("sepset_taints")
            ctx.check(list(c.get_sepset(other)) == sepset and list(c.neighbour_ids) == ids and list(c.var_names) == names,
                      "graph:shares-sepset", lambda: f"{sepset} {ids} {names}")
    var = [v for c in cg._clusters for v in c.var_names]
    if var and kind != "gaussian" or (kind == "gaussian" and var):
        for v in gen.perm(rng, sorted(set(var)))[:2]:
            try:
                m = cg.get_marginal([v])
            except np.linalg.LinAlgError:
                continue
            wreck(m)
            if not verify("marginal"):
                return
    for m in cg.passed_messages:
        wreck(m)
    if not verify("debug-messages"):
        return
    j = cg.get_posterior_joint()
    wreck(j)
    if not verify("posterior-joint"):
        return
    for f in model.factors:
        wreck(f)
    wreck(factors)
    wreck(evidence)
    if not verify("model-factors"):
        return
    # continuing gives what an untouched run gives
    ctx.sig("graph", kind, steps, len(clusters), random.Random(0).random())
