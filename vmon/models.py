"""
Random graphical models built from real factors, with their exact reference posteriors.
"""
import numpy as np

from . import gen, refs


def scalar(rng, x):
    """A value as a caller may hand it in."""
    how = int(rng.integers(6))
    if how == 0:
        return np.int64(x) if isinstance(x, int) else np.float64(x)
    if how == 1 and not isinstance(x, int):
        return int(round(x))
    return x


class Discrete:
    """A discrete model: tabs (references), real factors, evidence."""

    def __init__(self, cls, tabs, factors, evidence, cards, acyclic):
        self.cls, self.tabs, self.factors, self.evidence, self.cards = cls, tabs, factors, evidence, cards
        self.acyclic = acyclic
        self._joint = None

    def graph(self, **kw):
        from veroku.cluster_graph import ClusterGraph

        ev = dict(self.evidence) if self.evidence else None
        return ClusterGraph(self.factors, evidence=kw.pop("evidence", ev), disable_tqdm=True, **kw)

    def reduced(self):
        return [t.reduce({k: v for k, v in self.evidence.items() if k in t.names}) for t in self.tabs]

    def joint(self):
        """The exact product of the evidence-reduced tables (small models only)."""
        if self._joint is None:
            self._joint = product(self.reduced())
        return self._joint

    def marginal(self, names):
        return eliminate(self.reduced(), names)

    def describe(self):
        return (f"{self.cls} scopes={[t.names for t in self.tabs]} cards={self.cards} evidence={self.evidence}\n"
                + "\n".join(refs.fmt(t) for t in self.tabs))


def product(tabs):
    out = refs.Tab([], np.zeros(()))
    for t in tabs:
        out = out.mul(t)
    return out


def eliminate(tabs, keep):
    """Exact marginal by variable elimination."""
    tabs = list(tabs)
    allv = sorted({v for t in tabs for v in t.names} - set(keep))
    while allv:
        def cost(v):
            s = set()
            for t in tabs:
                if v in t.names:
                    s |= set(t.names)
            return len(s)
        v = min(allv, key=cost)
        allv.remove(v)
        inv = [t for t in tabs if v in t.names]
        p = product(inv)
        tabs = [t for t in tabs if v not in t.names] + [p.marg([n for n in p.names if n != v])]
    p = product(tabs)
    for k in keep:
        assert k in p.names, (k, p.names)
    return p.marg(list(keep))


def make_factor(ctx, cls, tab, default=None):
    if cls == "dense":
        return gen.make_dense(ctx.rng, tab)
    return gen.make_sparse(ctx.rng, tab, default)


def discrete(ctx, cls, loopy=False, zero=0.0, size=5, evidence=0.3, max_scope=3, hi=3, components=None, kinds=None,
             p_nested=0.25, pool=None, consistent=True, long=0.0):
    """A random discrete model. None if the evidence is impossible."""
    rng = ctx.rng
    n = int(rng.integers(1, size + 1))
    if long and not loopy and rng.random() < long:  # more than ten clusters
        n, hi, max_scope, p_nested = int(rng.integers(12, 18)), 2, min(max_scope, 3), min(p_nested, 0.15)
        ctx.count("long_models")
    kinds = kinds or ["normal", "uniform", "dup"]
    if loopy:
        nv = int(rng.integers(3, 7))
        scopes, _ = gen.loopy_scopes(rng, nv, max(3, n), max_scope, pool, min_scope=2)
    else:
        components = components or (1 if rng.random() < 0.75 else min(2, n))
        scopes = gen.forest_scopes(rng, n, max_scope, components, pool, p_nested)
        scopes = gen.perm(rng, scopes)
    allv = sorted({v for s in scopes for v in s})
    cds = gen.cards(rng, allv, hi=hi)
    tabs, facs = [], []
    for s in scopes:
        if cls == "sparse":
            t, d = gen.sparse_tab(rng, s, cds, zero, kind=str(rng.choice(kinds)))
        else:
            t, d = refs.Tab(s, gen.log_table(rng, [cds[v] for v in s], zero, str(rng.choice(kinds)))), None
        tabs.append(t)
        facs.append(make_factor(ctx, cls, t, d))
    ev = {}
    if evidence and rng.random() < 0.6:
        for v in gen.perm(rng, allv):
            if rng.random() < evidence:
                ev[v] = scalar(rng, int(rng.integers(cds[v])))
    m = Discrete(cls, tabs, facs, ev, cds, acyclic=not loopy)
    if consistent:
        z = eliminate(m.reduced(), [])
        if z.logs == refs.NEG:
            return None
    return m


class GaussianModel:
    """A Gaussian model: references, real factors, evidence."""

    def __init__(self, grefs, factors, evidence):
        self.grefs, self.factors, self.evidence = grefs, factors, evidence

    def graph(self, **kw):
        from veroku.cluster_graph import ClusterGraph

        ev = dict(self.evidence) if self.evidence else None
        return ClusterGraph(self.factors, evidence=kw.pop("evidence", ev), disable_tqdm=True, **kw)

    def reduced(self):
        return [g.reduce({k: v for k, v in self.evidence.items() if k in g.names}) for g in self.grefs]

    def joint(self):
        out = refs.GRef([], np.zeros((0, 0)), np.zeros(0), 0.0)
        for g in self.reduced():
            out = out.mul(g)
        return out

    def describe(self):
        return f"evidence={self.evidence}\n" + "\n".join(refs.gfmt(g) for g in self.grefs)


def gaussian(ctx, loopy=False, size=6, linear=None, evidence=0.25, max_scope=3, components=None, pool=None, strength=1.0,
             mean_scale=3.0, p_nested=0.25, long=0.0):
    """A random Gaussian model: proper potentials (non-diagonal), or priors plus linear Gaussian CPDs along a forest."""
    from veroku.factors.gaussian import make_linear_gaussian

    rng = ctx.rng
    n = int(rng.integers(1, size + 1))
    if long and not loopy and rng.random() < long:  # more than ten clusters
        n, p_nested = int(rng.integers(12, 18)), min(p_nested, 0.15)
        ctx.count("long_models")
    linear = (rng.random() < 0.4) if linear is None else linear
    grefs, facs = [], []
    if linear and not loopy:
        nms = iter(gen.names(rng, 60, pool))
        blocks = [[next(nms) for _ in range(int(rng.integers(1, 3)))]]
        cov, mean, lw, ref = gen.gaussian_params(rng, blocks[0], mean_scale)
        grefs.append(ref)
        facs.append(gen.make_gaussian(rng, ref, cov, mean, lw))
        for _ in range(n):
            x = blocks[int(rng.integers(len(blocks)))]
            y = [next(nms) for _ in range(int(rng.integers(1, 3)))]
            a = rng.normal(0, 1, (len(y), len(x)))
            noise = gen.spd(rng, len(y), 0.4, 2.0)
            grefs.append(linear_gaussian_ref(a, noise, x, y))
            facs.append(make_linear_gaussian(a, noise, list(x), list(y)))
            blocks.append(y)
            if rng.random() < 0.3:  # extra evidence-like potential on a block
                cov, mean, lw, ref = gen.gaussian_params(rng, y, mean_scale)
                grefs.append(ref)
                facs.append(gen.make_gaussian(rng, ref, cov, mean, lw))
    else:
        if loopy:
            scopes, _ = gen.loopy_scopes(rng, int(rng.integers(3, 7)), max(3, n), max_scope, pool, min_scope=2)
        else:
            comps = components or (1 if rng.random() < 0.75 else min(2, n))
            scopes = gen.forest_scopes(rng, n, max_scope, comps, pool, p_nested)
        for s in scopes:
            cov, mean, lw, ref = gen.gaussian_params(rng, s, mean_scale)
            if strength != 1.0:  # scale the couplings for walk-summable models
                K = ref.K * strength
                K[np.diag_indices_from(K)] = np.diag(ref.K)
                ref = refs.GRef(s, K, ref.h, ref.g)
                cov, mean, lw = ref.covariance(), ref.mean(), ref.log_mass()
            grefs.append(ref)
            facs.append(gen.make_gaussian(rng, ref, cov, mean, lw))
    order = gen.perm(rng, range(len(facs)))
    grefs, facs = [grefs[i] for i in order], [facs[i] for i in order]
    ev = {}
    if evidence and rng.random() < 0.6:
        for v in gen.perm(rng, sorted({v for g in grefs for v in g.names})):
            if rng.random() < evidence:
                ev[v] = scalar(rng, float(rng.normal(0, 2)))
    model = GaussianModel(grefs, facs, ev)
    if not all(integrable(g) for g in model.reduced()):
        from .core import Reject

        raise Reject()
    return model


def integrable(ref, eps=0.02):
    """Every proper subset of the variables can be integrated out (so that first messages exist)."""
    n = len(ref.names)
    for i in range(n):
        keep = [j for j in range(n) if j != i]
        if keep and np.linalg.eigvalsh(ref.K[np.ix_(keep, keep)])[0] < eps:
            return False
    return True


def linear_gaussian_ref(a, noise, x, y):
    """log N(y; A x, noise) as a potential over x + y, computed directly."""
    ni = np.linalg.inv(noise)
    k = np.block([[a.T @ ni @ a, -a.T @ ni], [-ni @ a, ni]])
    g = -0.5 * (len(y) * np.log(2 * np.pi) + refs.slogdet(np.asarray(noise)))
    return refs.GRef(list(x) + list(y), k, np.zeros(len(x) + len(y)), g)
