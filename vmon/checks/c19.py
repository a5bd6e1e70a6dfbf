"""C19: results do not depend on names, orders or hash seeds."""
import types

import numpy as np

from vmon import core, gen, graphs, models, refs, zoo
from vmon.peer import Peer

NUM = 19
RULE = ("metamorphic: one generated scenario (forest model or factor program) is executed on the real code under its canonical names, "
        "under hostile renamings with permuted scopes, factor lists, evidence dictionaries and stored forms, and in a second "
        "interpreter with another hash seed; results are compared by canonical name; non-trivial: the presentations differ; distinct "
        "by scenario and presentation")
COUNTS = {"quick": 900, "thorough": 26000}
REQUIRED = {"graph_scenarios": 250, "gaussian_graphs": 80, "programs": 250, "peer_runs": 800, "renamed_runs": 800,
            "compared_values": 15000, "graph_marginals": 2500, "hostile_names": 500}

PEER = [None]


def setup(worker):
    PEER[0] = Peer("vmon.checks.c19")


# ---------------------------------------------------------------------------------------------------------- presentations
class View:
    """How a scenario is presented: names, orders, stored forms."""

    def __init__(self, seed, idx, variant, nvars):
        self.rng = np.random.default_rng([seed, NUM, idx, 77, variant])
        self.plain = variant == 0
        canon = [f"v{i}" for i in range(nvars)]
        if self.plain:
            nms = canon
        elif self.rng.random() < 0.15:
            nms = gen.perm(self.rng, canon)
        else:
            nms = gen.names(self.rng, nvars)
        self.to = dict(zip(canon, nms))
        self.back = {b: a for a, b in self.to.items()}

    def order(self, items):
        return list(items) if self.plain else gen.perm(self.rng, items)

    def tab(self, t):
        names = self.order(t.names)
        o = t.order(names)
        return refs.Tab([self.to[n] for n in names], o.logs)

    def gref(self, g):
        names = self.order(g.names)
        o = g.order(names)
        return refs.GRef([self.to[n] for n in names], o.K, o.h, o.g)

    def names(self, nms):
        return [self.to[n] for n in nms]

    def factor(self, spec):
        if spec[0] == "gaussian":
            return gen.make_gaussian(self.rng, self.gref(spec[1]), form="cov" if self.plain else None)
        if spec[0] == "dense":
            return gen.make_dense(self.rng, self.tab(spec[1]), how="tensor" if self.plain else None)
        return gen.make_sparse(self.rng, self.tab(spec[1]), spec[2])

    # --- results by canonical name
    def out(self, x, normal=False):
        if isinstance(x, refs.Tab):
            names = sorted(self.back[n] for n in x.names)
            t = refs.Tab([self.back[n] for n in x.names], x.logs).order(names)
            if normal:
                t = t.norm()
            return ["tab", names, list(t.logs.shape), [float(v) for v in t.logs.ravel()]]
        if isinstance(x, refs.GRef):
            names = sorted(self.back[n] for n in x.names)
            g = refs.GRef([self.back[n] for n in x.names], x.K, x.h, x.g).order(names)
            if normal:
                return ["arr", names, [float(v) for v in np.concatenate([g.mean(), g.covariance().ravel()])]]
            return ["arr", names, [float(v) for v in np.concatenate([g.K.ravel(), g.h, [g.g]])]]
        return ["num", float(x)]


# -------------------------------------------------------------------------------------------------------------- scenarios
def scenario(seed, idx):
    """Canonical description: everything is drawn from the scenario's own stream, with canonical names."""
    rng = np.random.default_rng([seed, NUM, idx, 5])
    kind = str(rng.choice(["discrete", "discrete", "gaussian", "program", "gprogram", "mixture", "nlg", "ff"]))
    s = types.SimpleNamespace(kind=kind, rng=rng)
    if kind in ("discrete", "gaussian"):
        scopes = gen.forest_scopes(rng, int(rng.integers(2, 8)), 3, 1 if rng.random() < 0.75 else 2, 0,
                                   0.0 if rng.random() < 0.7 else 0.3)
        order = list(dict.fromkeys(v for sc in scopes for v in sc))
        ren = {v: f"v{i}" for i, v in enumerate(order)}
        scopes = [[ren[v] for v in sc] for sc in scopes]
        s.nvars = len(order)
        s.specs = []
        if kind == "discrete":
            zero = float(rng.choice([0.0, 0.2]))
            cls = str(rng.choice(["dense", "sparse"]))
            cds = gen.cards(rng, [f"v{i}" for i in range(s.nvars)], hi=3)
            for sc in scopes:
                if cls == "sparse":
                    t, d = gen.sparse_tab(rng, sc, cds, zero, kind=str(rng.choice(["normal", "uniform"])))
                    s.specs.append(("sparse", t, d))
                else:
                    s.specs.append(("dense", refs.Tab(sc, gen.log_table(rng, [cds[v] for v in sc], zero,
                                                                        str(rng.choice(["normal", "uniform"]))))))
            s.evidence = {v: int(rng.integers(cds[v])) for v in cds if rng.random() < 0.15}
            reduced = [sp[1].reduce({v: e for v, e in s.evidence.items() if v in sp[1].names}) for sp in s.specs]
            if models.eliminate(reduced, []).logs == refs.NEG:
                raise core.Reject()
        else:
            for sc in scopes:
                s.specs.append(("gaussian", gen.gaussian_params(rng, sc)[3]))
            s.evidence = {f"v{i}": float(rng.normal()) for i in range(s.nvars) if rng.random() < 0.15}
        s.scopes = scopes
    elif kind == "program":
        s.nvars = 4
        nms = [f"v{i}" for i in range(4)]
        cds = gen.cards(rng, nms, hi=3)
        s.cls = str(rng.choice(["dense", "sparse"]))
        s.specs = []
        for _ in range(3):
            sc = gen.subset(rng, nms, 1, 3)
            if s.cls == "sparse":
                t, d = gen.sparse_tab(rng, sc, cds, 0.3)
                d = -np.inf if d == -np.inf else d
                s.specs.append(("sparse", t, d))
            else:
                s.specs.append(("dense", refs.Tab(sc, gen.log_table(rng, [cds[v] for v in sc], 0.2))))
        s.cards = cds
    elif kind == "gprogram":
        s.nvars = 5
        nms = [f"v{i}" for i in range(5)]
        s.specs = [("gaussian", gen.gaussian_params(rng, gen.subset(rng, nms, 1, 4))[3]) for _ in range(3)]
    elif kind == "ff":
        s.nvars = 5
        nms = [f"v{i}" for i in range(5)]
        s.specs = [("gaussian", gen.gaussian_params(rng, gen.subset(rng, nms, 1, 3))[3]) for _ in range(4)]
    elif kind == "mixture":
        s.nvars = 3
        nms = gen.subset(rng, [f"v{i}" for i in range(3)], 1)
        s.specs = [("gaussian", gen.gaussian_params(rng, nms)[3]) for _ in range(int(rng.integers(2, 4)))]
        s.other = ("gaussian", gen.gaussian_params(rng, gen.subset(rng, nms, 1))[3])
        s.points = rng.normal(0, 2, (4, 3))
    else:
        s.nvars = 4
        s.cond = ["v0", "v1"][: int(rng.integers(1, 3))]
        s.outv = ["v2", "v3"][: int(rng.integers(1, 3))]
        s.tr = zoo.Transform(str(rng.choice(["linear", "sin", "square", "tanh"])), rng.normal(0, 1, (len(s.outv), len(s.cond))),
                             rng.normal(0, 1, len(s.outv)))
        s.noise = gen.spd(rng, len(s.outv))
        s.prior = gen.gaussian_params(rng, s.cond)[3]
        s.update = gen.gaussian_params(rng, gen.subset(rng, s.outv, 1))[3]
    s.prog = rng.integers(1 << 30)
    return s


def observe(seed, idx, variant):
    """Run the real code on one presentation of the scenario; results by canonical name."""
    np.random.seed(1)
    s = scenario(seed, idx)
    view = View(seed, idx, variant, s.nvars)
    rng = np.random.default_rng([seed, NUM, idx, int(s.prog)])  # canonical choices
    res = {"view": str(view.to)}
    getattr(RUNNERS, s.kind)(s, view, rng, res)
    return res


def _named(view, g):
    return refs.GRef(view.names(g.names), g.K, g.h, g.g)


class RUNNERS:
    """One runner per kind of scenario."""

    @staticmethod
    def discrete(s, view, rng, res):
        from veroku.cluster_graph import ClusterGraph

        facs = view.order([view.factor(sp) for sp in s.specs])
        ev = {view.to[v]: s.evidence[v] for v in view.order(list(s.evidence))}
        cg = ClusterGraph(facs, evidence=ev or None, disable_tqdm=True)
        if not graphs.is_forest(cg):
            res["loopy"] = True
            return
        cg.process_graph(tol=0.0 if rng.random() < 0.5 else 1e-15, max_iter=len(s.specs) + 8)
        every = {v for sc in s.scopes for v in sc} - set(s.evidence)
        for v in sorted(every):
            res[f"marg {v}"] = view.out(graphs.read(cg.get_marginal([view.to[v]])), normal=True)
        for sc in s.scopes:
            q = [v for v in sc if v in every]
            if len(q) > 1:
                q = view.order(q)
                res["marg " + " ".join(sorted(q))] = view.out(graphs.read(cg.get_marginal(view.names(q))), normal=True)

    gaussian = discrete

    @staticmethod
    def program(s, view, rng, res):
        f = [view.factor(sp) for sp in s.specs]
        a, b, c = f
        both = sorted(set(s.specs[0][1].names) | set(s.specs[1][1].names))
        read = graphs.read
        ab = a.multiply(b)
        res["mul"] = view.out(read(ab))
        res["mul'"] = view.out(read(b.multiply(a)))
        res["mul3"] = view.out(read(ab.multiply(c)))
        res["cancel"] = view.out(read(ab.multiply(c).cancel(c)))
        keep = gen.subset(rng, both, 1)
        kept = view.order(keep)
        res["marg"] = view.out(read(ab.marginalize(view.names(kept), keep=True)))
        drop = view.order([v for v in both if v not in keep])
        if drop:
            res["sumout"] = view.out(read(ab.marginalize(view.names(drop), keep=False)))
        obs = gen.subset(rng, both, 1, len(both) - 1)
        vals = {v: int(rng.integers(s.cards[v])) for v in obs}
        if len(obs) < len(both):
            o = view.order(obs)
            red = ab.reduce(view.names(o), [vals[v] for v in o])
            res["reduce"] = view.out(read(red))
        other = ab.multiply(ab.marginalize(view.names(view.order(keep)), keep=True))
        if s.specs[0][1].mul(s.specs[1][1]).log_mass() > refs.NEG:
            res["norm"] = view.out(read(ab.normalize()))
            res["kl"] = view.out(ab.normalize().kl_divergence(other.normalize()))
            res["dfv"] = view.out(ab.distance_from_vacuous())
        o = view.order(both)
        res["reorder"] = view.out(read(ab.reorder(view.names(o))) if hasattr(ab, "reorder") and callable(ab.reorder) else read(ab))
        res["eq"] = view.out(ab.equals(b.multiply(a)))
        res["neq"] = view.out(ab.equals(other))
        for k in range(2):
            asg = {v: int(rng.integers(s.cards[v])) for v in both}
            o = view.order(both)
            res[f"pot{k}"] = view.out(ab.potential(view.names(o), [asg[v] for v in o]))

    @staticmethod
    def gprogram(s, view, rng, res):
        a, b, c = [view.factor(sp) for sp in s.specs]
        na, nb = s.specs[0][1].names, s.specs[1][1].names
        both = sorted(set(na) | set(nb))
        read = graphs.read
        ab = a.multiply(b)
        res["mul"] = view.out(read(ab))
        res["mul'"] = view.out(read(b.multiply(a)))
        res["mul3"] = view.out(read(ab.multiply(c)))
        res["div"] = view.out(read(ab.multiply(c).divide(c)))
        keep = gen.subset(rng, both, 1)
        res["marg"] = view.out(read(ab.marginalize(view.names(view.order(keep)), keep=True)))
        obs = gen.subset(rng, both, 1, len(both) - 1)
        vals = {v: float(rng.normal()) for v in both}
        if len(obs) < len(both):
            o = view.order(obs)
            res["reduce"] = view.out(read(ab.reduce(view.names(o), [vals[v] for v in o])))
        res["norm"] = view.out(read(ab.normalize()))
        res["kl"] = view.out(ab.kl_divergence(b.multiply(a).multiply(ab)))
        res["weight"] = view.out(ab.get_log_weight())
        res["eq"] = view.out(ab.equals(b.multiply(a)))
        res["neq"] = view.out(ab.equals(ab.multiply(a)))
        order = list(ab.var_names)
        x = np.array([[vals[view.back[v]]] for v in order])
        res["logpot"] = view.out(np.ravel(ab.log_potential(x))[0])
        mean = np.ravel(ab.get_mean())
        for v in both:
            res[f"mean {v}"] = view.out(mean[order.index(view.to[v])])

    @staticmethod
    def ff(s, view, rng, res):
        from veroku.factors.experimental.factorised_factor import FactorizedFactor

        g = [view.factor(sp) for sp in s.specs]
        f = FactorizedFactor(view.order(g[:2]))
        for x in view.order(g[2:]):
            f = f.multiply(x)
        read = graphs.read
        res["joint"] = view.out(read(f.joint_distribution))
        every = sorted({v for sp in s.specs for v in sp[1].names})
        keep = gen.subset(rng, every, 1)
        res["marg"] = view.out(read(f.marginalize(view.names(view.order(keep)), keep=True).joint_distribution))
        obs = gen.subset(rng, every, 1, len(every) - 1)
        if len(obs) < len(every):
            vals = {v: float(rng.normal()) for v in obs}
            o = view.order(obs)
            res["reduce"] = view.out(read(f.reduce(view.names(o), [vals[v] for v in o]).joint_distribution))
        res["norm"] = view.out(read(f.normalize().joint_distribution))
        h = FactorizedFactor(view.order(g))
        res["eq"] = view.out(f.equals(h))

    @staticmethod
    def mixture(s, view, rng, res):
        from veroku.factors.experimental.gaussian_mixture import GaussianMixture

        order = view.order(s.specs[0][1].names)
        gm = GaussianMixture(view.order([gen.make_gaussian(view.rng, _named(view, sp[1].order(order))) for sp in s.specs]))
        other = view.factor(s.other)
        nms = sorted(s.specs[0][1].names)
        prod = gm.multiply(other)

        def at(m, names, row):
            vals = {f"v{i}": row[i] for i in range(3)}
            x = np.array([[vals[view.back[v]]] for v in m.var_names])
            return float(np.ravel(m.log_potential(x))[0]) if hasattr(m, "log_potential") else float(np.log(np.ravel(
                m.potential(x))[0]))
        for k, row in enumerate(s.points):
            res[f"at{k}"] = view.out(at(gm, nms, row))
            res[f"prod{k}"] = view.out(at(prod, nms, row))
        keep = gen.subset(rng, nms, 1)
        m = gm.marginalize(view.names(view.order(keep)), keep=True)
        for k, row in enumerate(s.points):
            res[f"marg{k}"] = view.out(at(m, keep, row))
        res["match"] = view.out(graphs.read(prod.moment_match_to_single_gaussian()))
        res["weight"] = view.out(gm.get_log_weight())

    @staticmethod
    def nlg(s, view, rng, res):
        from veroku.factors.experimental.nonlinear_gaussian import NonLinearGaussian

        f = NonLinearGaussian(view.names(s.cond), view.names(s.outv), s.tr, s.noise)

        def g(ref, permuted):
            o = view.order(ref.names) if permuted else list(ref.names)
            r = ref.order(o)
            return gen.make_gaussian(view.rng, refs.GRef(view.names(o), r.K, r.h, r.g))
        prior, update = g(s.prior, False), g(s.update, True)
        f1 = f.multiply(prior)
        res["joint"] = view.out(graphs.read(f1.joint_distribution))
        f2 = f1.multiply(update)
        res["updated"] = view.out(graphs.read(f2.joint_distribution))
        if rng.random() < 0.5:
            f2 = f.multiply(update).multiply(prior)
            res["updated'"] = view.out(graphs.read(f2.joint_distribution))
        keep = gen.subset(rng, s.cond + s.outv, 1)
        res["marg"] = view.out(graphs.read(f2.marginalize(view.names(view.order(keep)), keep=True)))


# ---------------------------------------------------------------------------------------------------------------- compare
def close(a, b, tol=1e-7):
    if a[0] != b[0]:
        return False
    if a[0] == "num":
        x, y = a[1], b[1]
        return x == y or abs(x - y) <= tol * (1 + abs(x) + abs(y)) or (np.isnan(x) and np.isnan(y))
    if a[1] != b[1]:
        return False
    if a[0] == "arr":
        return refs.arr_close(a[2], b[2], tol, tol)
    if a[2] != b[2]:
        return False
    x, y = np.array(a[3]), np.array(b[3])
    return refs.logs_close(x, y, 1e-7, 1e-7, zero_below=-22)


def compare(ctx, base, other, what, info):
    if base.get("loopy") or other.get("loopy"):
        ctx.count("loopy_layouts")
        return
    ctx.check(set(base) == set(other), f"{what}:different-results", lambda: info() + f"\n{sorted(base)}\n{sorted(other)}")
    for k in base:
        if k == "view" or k not in other:
            continue
        ctx.count("compared_values")
        if k.startswith("marg "):
            ctx.count("graph_marginals")
        if not ctx.check(close(base[k], other[k]), f"{what}:{k.split()[0]}", lambda: info() + f"\n{k}\n{base[k]}\n{other[k]}"):
            return


def case(ctx):
    seed, idx = ctx.seed, ctx.idx
    s = scenario(seed, idx)
    base = observe(seed, idx, 0)
    ctx.count("graph_scenarios", int(s.kind in ("discrete", "gaussian")))
    ctx.count("gaussian_graphs", int(s.kind == "gaussian"))
    ctx.count("programs", int(s.kind not in ("discrete", "gaussian")))
    for variant in range(1, 4 if ctx.thorough else 3):
        def info():
            return (f"{s.kind} scenario; presentation {variant}: {other['view']}\n" + "\n".join(
                str(sp[0]) + " " + (refs.fmt(sp[1]) if sp[0] != "gaussian" else refs.gfmt(sp[1])) for sp in getattr(s, "specs", []))
                + f"\nevidence {getattr(s, 'evidence', None)}")
        other = observe(seed, idx, variant)
        ctx.count("renamed_runs")
        ctx.count("hostile_names", int(any(not v.startswith("v") for v in eval(other["view"]).values())))
        compare(ctx, base, other, "presentation", info)
        ctx.sig(s.kind, idx, other["view"])
        ctx.seen("namings", other["view"])
    variant = int(ctx.rng.integers(3))
    other = PEER[0].ask(seed, idx, variant)
    ctx.count("peer_runs")
    if "error" in other:
        ctx.violate("hash-seed:exception", other["error"])
        return
    compare(ctx, base, other, "hash-seed", lambda: f"peer hash seed {PEER[0].hashseed}\n" + info())
    ctx.sample(f"{s.kind} {other['view']}")
