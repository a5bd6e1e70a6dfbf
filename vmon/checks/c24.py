"""C24: log-space arithmetic is stable for extreme but representable values."""
import math
from fractions import Fraction

import numpy as np

from vmon import core, gen, graphs, models, refs

NUM = 24
RULE = ("stress programs on real factors with log values whose probabilities under- or overflow (up to +-1e5), long products and chains "
        "(up to 60 factors), high-dimensional Gaussians, Gaussians far from the origin or with scales over 1e-6..1e6, mixtures with "
        "extreme weights; oracles: log-space references, exact rational Gaussian arithmetic, forward-backward and joint solves, with "
        "tolerances of rounding errors of the magnitudes involved; non-trivial: probabilities beyond 1e+-300 or conditioning beyond "
        "1e6; distinct by program and magnitudes")
COUNTS = {"quick": 2400, "thorough": 90000}
REQUIRED = {"tables": 500, "table_ops": 3500, "long_chains": 60, "chain_marginals": 1500, "exact_gaussians": 400, "exact_reads": 2500,
            "high_dim": 100, "gaussian_chains": 60, "mixtures": 150, "beyond_doubles": 2000, "extreme_graphs": 100}
EPS = 2.0 ** -52
WORST = {}


def case(ctx):
    kind = str(ctx.rng.choice(["tables", "tables", "chain", "graph", "exact", "exact", "highdim", "gchain", "mixture"],
                              p=[.16, .16, .05, .1, .16, .14, .06, .05, .12]))
    globals()[kind](ctx)


def within(ctx, name, got, want, bound, factor, detail):
    """|got - want| <= factor * bound, elementwise; infinities must agree, NaN never."""
    got, want, bound = np.asarray(got, float), np.asarray(want, float), np.asarray(bound, float)
    if got.shape != want.shape:
        return ctx.check(False, f"{name}:shape", detail)
    with np.errstate(all="ignore"):
        err = np.where(got == want, 0.0, np.abs(got - want) / bound)
    worst = float(np.nanmax(err, initial=0.0)) if not np.isnan(got).any() else np.inf
    WORST[name] = max(WORST.get(name, 0.0), worst)
    return ctx.check(worst <= factor, name, lambda: f"error {worst:.3g} units (allowed {factor})\ngot {got}\nwant {want}\n{detail()}")


# ------------------------------------------------------------------------------------------------------------- discrete tables
def extreme(rng, shape, zero):
    shape = tuple(shape)
    kind = str(rng.choice(["spread", "spread", "offset", "two", "mixed", "steep"]))
    m = float(rng.choice([400.0, 1e3, 1e4, 1e5]))
    if kind == "spread":
        t = rng.uniform(-m, m, shape)
    elif kind == "offset":
        t = rng.normal(0, 2, shape) + float(rng.choice([-m, m]))
    elif kind == "two":
        t = rng.normal(0, 1, shape) + np.where(rng.random(shape) < 0.5, m, -m)
    elif kind == "mixed":
        t = rng.normal(0, 1, shape) * 10.0 ** rng.uniform(0, 4, shape)
    else:
        t = -m * rng.permutation(int(np.prod(shape))).reshape(shape).astype(float) + rng.normal(0, 1, shape)
    t = np.asarray(t, float).reshape(shape)
    if zero:
        mask = rng.random(shape) < zero
        mask[tuple(int(rng.integers(s)) for s in shape)] = False
        t = np.where(mask, -np.inf, t)
    return t


def make(ctx, cls, t):
    """Only log-space constructions can hold these values."""
    from veroku.factors.categorical import Categorical
    from veroku.factors.sparse_categorical import SparseCategorical

    if cls == "dense":
        return Categorical(var_names=list(t.names), log_probs_tensor=t.logs.copy())
    table = {a: float(t.logs[a]) for a in gen.perm(ctx.rng, list(np.ndindex(*t.logs.shape))) if t.logs[a] > refs.NEG}
    return SparseCategorical(var_names=list(t.names), cardinalities=list(t.logs.shape), log_probs_table=table)


def tables(ctx):
    """Random programs over a few factors with extreme values."""
    rng = ctx.rng
    cls = str(rng.choice(["dense", "sparse"]))
    pool = gen.names(rng, 5)
    cds = gen.cards(rng, pool, hi=3)
    zero = float(rng.choice([0.0, 0.0, 0.25]))
    ctx.count("tables")
    names = gen.subset(rng, pool, 1, 3)
    t = refs.Tab(names, extreme(rng, [cds[v] for v in names], zero))
    f = make(ctx, cls, t)
    mag = 1.0
    hist = []
    multiplied = []
    for _ in range(int(rng.integers(3, 14 if not ctx.thorough else 40))):
        op = str(rng.choice(["multiply", "multiply", "cancel", "divide", "marginalize", "reduce", "normalize"]))
        mag = max(mag, graphs.magnitude(t))
        if op in ("multiply", "divide"):
            names = gen.subset(rng, pool, 1, 2)
            if len(set(names) | set(t.names)) > 5:
                continue
            o = refs.Tab(names, extreme(rng, [cds[v] for v in names], zero if op == "multiply" else 0.0))
            of = make(ctx, cls, o)
            mag += graphs.magnitude(o)
            if op == "multiply":
                if t.mul(o).log_mass() == refs.NEG:
                    continue
                f, t = f.multiply(of), t.mul(o)
                if set(names) <= set(t.names):
                    multiplied.append((o, of))
            elif cls == "dense":
                f, t = f.divide(of), t.div(o)
            else:
                f, t = f.cancel(of), t.cancel(o)
        elif op == "cancel":
            multiplied = [(o, of) for o, of in multiplied if set(o.names) <= set(t.names)]
            if not multiplied:
                continue
            o, of = multiplied.pop(int(rng.integers(len(multiplied))))
            mag += graphs.magnitude(o)
            f, t = f.cancel(of), t.cancel(o)
        elif op == "marginalize":
            if len(t.names) < 2:
                continue
            keep = gen.subset(rng, t.names, 1, len(t.names) - 1)
            f, t = f.marginalize(keep, keep=True), t.marg(keep)
            multiplied = []
        elif op == "reduce":
            if len(t.names) < 2:
                continue
            v = t.names[int(rng.integers(len(t.names)))]
            x = int(rng.integers(cds[v]))
            r = t.reduce({v: x})
            if r.log_mass() == refs.NEG:
                continue
            f, t = f.reduce([v], [x]), r
            multiplied = []
        else:
            f, t = f.normalize(), t.norm()
        mag = max(mag, graphs.magnitude(t))
        hist.append(op)
        ctx.count("table_ops")
        got = refs.tab_of(f)
        if not _tab(ctx, f"{cls}:{op}", got, t, mag * (len(hist) + 2), lambda: f"{cls} {hist}\n{refs.fmt(t)}"):
            return
    ctx.count("beyond_doubles", int(mag > 750))
    if mag > 750:
        ctx.sig(cls, hist, [t.names, t.logs.shape], round(math.log10(mag), 1))
    queries(ctx, cls, f, t, mag * (len(hist) + 2), hist)
    ctx.sample(f"{cls} {hist} magnitude {mag:.3g}: {refs.fmt(t)}")


def _tab(ctx, name, got, want, mag, detail):
    if set(got.names) != set(want.names):
        return ctx.check(False, f"{name}:scope", detail)
    return within(ctx, name, got.order(want.names).logs, want.logs, EPS * mag, 60, detail)


def queries(ctx, cls, f, t, mag, hist):
    """Accessors and divergences."""
    rng = ctx.rng

    def detail():
        return f"{cls} {hist}\n{refs.fmt(t)}"
    for _ in range(2):
        order = gen.perm(rng, t.names)
        a = [int(rng.integers(t.logs.shape[t.names.index(v)])) for v in order]
        want = t.logs[tuple(a[order.index(v)] for v in t.names)]
        if want < 700:
            p = float(f.potential(order, a))
            ctx.check(abs(p - math.exp(want)) <= 1e-3 * EPS ** 0.5 * (1 + mag) * math.exp(want) + 1e-300, f"{cls}:potential",
                      lambda: f"{order} {a}: {p} want exp({want})\n" + detail())
    best = t.logs.max()
    arg = f.argmax()
    if isinstance(arg, dict):
        at = t.logs[tuple(int(arg[v]) for v in t.names)]
    else:
        at = t.order(list(f.var_names)).logs[tuple(int(x) for x in np.ravel(arg))]
    ctx.check(at >= best - 60 * EPS * mag, f"{cls}:argmax", lambda: f"{arg} has {at}, the largest is {best}\n" + detail())
    names = gen.perm(rng, t.names)
    q = refs.Tab(names, extreme(rng, [t.logs.shape[t.names.index(v)] for v in names], 0.0))
    got = float(f.kl_divergence(make(ctx, cls, q)))
    want = t.kl(q)
    m = mag + graphs.magnitude(q)
    ctx.check(np.isfinite(got) and abs(got - want) <= 100 * EPS * m * max(1, t.logs.size), f"{cls}:kl", lambda: f"{got} want {want}\n{refs.fmt(q)}\n" + detail())
    got, want = float(f.distance_from_vacuous()), t.kl(refs.Tab(t.names, np.zeros(t.logs.shape)))
    ctx.check(np.isfinite(got) and abs(got - want) <= 100 * EPS * mag * max(1, t.logs.size), f"{cls}:vacuous", lambda: f"{got} want {want}\n" + detail())
    ctx.count("table_queries", 5)


# ---------------------------------------------------------------------------------------------------------------- long chains
def chain(ctx):
    """A long hidden Markov chain with extreme tables: forward-backward in log space is the oracle."""
    from veroku.cluster_graph import ClusterGraph

    rng = ctx.rng
    cls = str(rng.choice(["dense", "sparse"]))
    n = int(rng.integers(10, 30 if not ctx.thorough else 60))
    k = int(rng.integers(2, 4))
    names = [f"s{i}" for i in range(n)]
    m = float(rng.choice([50.0, 400.0, 2000.0, 1e4]))
    tabs = [refs.Tab([names[0]], rng.uniform(-m, m, k))]
    zero = float(rng.choice([0.0, 0.15]))
    for i in range(1, n):
        logs = rng.uniform(-m, m, (k, k)) if rng.random() < 0.7 else rng.normal(0, 1, (k, k)) - m
        mask = rng.random((k, k)) < zero
        mask[:, 0] = False
        logs = np.where(mask, -np.inf, logs)
        tabs.append(refs.Tab([names[i - 1], names[i]], logs))
    for i in range(n):
        if rng.random() < 0.3:
            tabs.append(refs.Tab([names[i]], rng.uniform(-m, m, k)))
    facs = [make(ctx, cls, refs.Tab(o, t.order(o).logs)) for t in tabs for o in [gen.perm(rng, t.names)]]
    order = gen.perm(rng, range(len(facs)))
    cg = ClusterGraph([facs[i] for i in order], disable_tqdm=True)
    if not graphs.is_forest(cg):
        raise core.Reject()
    ctx.count("long_chains")
    if rng.random() < 0.3:
        cg.process_graph(max_iter=1)
    two_pass(ctx, cg)
    fb = forward_backward(tabs, names)
    mag = m * (len(tabs) + 1) * 4
    for v in names:
        ctx.count("chain_marginals")
        got = graphs.read(cg.get_marginal([v]))
        want = fb[v]
        ctx.count("beyond_doubles", int(np.ptp(want[np.isfinite(want)]) > 750))
        if not within(ctx, f"{cls}:chain-marginal", got.norm().logs, want - refs.lse(want), EPS * mag * n, 20,
                      lambda: f"{v} of a chain of {n}, log values up to {m}"):
            return
    ctx.sig("chain", cls, n, k, round(math.log10(m), 1), zero, order[:6])


def two_pass(ctx, cg):
    """Collect to a random root of every tree, then distribute: afterwards everybody has heard everybody."""
    paths = {graphs.edge_key(p): p for p in graphs.paths(cg)}
    near = {}
    for a, b in paths:
        near.setdefault(a, []).append(b)
    for comp in graphs.components(cg):
        root = comp[int(ctx.rng.integers(len(comp)))].cluster_id
        order, todo, seen = [], [root], {root}
        while todo:
            a = todo.pop(0)
            for b in near.get(a, []):
                if b not in seen:
                    seen.add(b)
                    order.append((a, b))
                    todo.append(b)
        for a, b in reversed(order):
            paths[(b, a)].pass_next_message()
        for a, b in order:
            paths[(a, b)].pass_next_message()


def forward_backward(tabs, names):
    k = tabs[0].logs.shape[0]
    unary = {v: np.zeros(k) for v in names}
    pair = {}
    for t in tabs:
        if len(t.names) == 1:
            unary[t.names[0]] = unary[t.names[0]] + t.logs
        else:
            pair[t.names[0]] = t.logs
    fwd, bwd = {names[0]: unary[names[0]]}, {names[-1]: np.zeros(k)}
    for a, b in zip(names[:-1], names[1:]):
        fwd[b] = refs.lse(fwd[a][:, None] + pair[a], axis=0) + unary[b]
    for a, b in reversed(list(zip(names[:-1], names[1:]))):
        bwd[a] = refs.lse(pair[a] + (bwd[b] + unary[b])[None, :], axis=1)
    return {v: fwd[v] + bwd[v] for v in names}


def graph(ctx):
    """Small random forests with extreme tables and evidence, processed by the real scheduler or in any order."""
    rng = ctx.rng
    cls = str(rng.choice(["dense", "sparse"]))
    scopes = gen.forest_scopes(rng, int(rng.integers(1, 7)), 3, 1, None, 0.25)
    allv = sorted({v for s in scopes for v in s})
    cds = gen.cards(rng, allv, hi=3)
    zero = float(rng.choice([0.0, 0.15]))
    tabs = []
    for s in gen.perm(rng, scopes):
        tabs.append(refs.Tab(s, extreme(rng, [cds[v] for v in s], zero)))
    ev = {v: int(rng.integers(cds[v])) for v in allv if rng.random() < 0.2}
    model = models.Discrete(cls, tabs, [make(ctx, cls, t) for t in tabs], ev, cds, True)
    if models.eliminate(model.reduced(), []).logs == refs.NEG:
        raise core.Reject()
    cg = model.graph()
    if not graphs.is_forest(cg):
        raise core.Reject()
    ctx.count("extreme_graphs")
    ps = graphs.sorted_paths(cg)
    mag = sum(graphs.magnitude(t) for t in tabs) + 1.0
    if rng.random() < 0.5:
        cg.process_graph(tol=0.0, max_iter=len(ps) + 3)
    two_pass(ctx, cg)
    for v in allv:
        if v in ev:
            continue
        got, want = graphs.read(cg.get_marginal([v])).norm(), model.marginal([v]).norm()
        ctx.count("beyond_doubles", int(np.ptp(want.logs[np.isfinite(want.logs)]) > 750))
        if not within(ctx, f"{cls}:graph-marginal", got.logs, want.logs, EPS * mag * (len(ps) + 2), 60, lambda: f"{v}\n{graphs.describe(cg)}\n"
                      + model.describe()):
            return
    ctx.sig("graph", cls, [t.names for t in tabs], sorted(ev), round(math.log10(mag), 1))


# ------------------------------------------------------------------------------------------------------- Gaussians, exactly
def mat(a):
    return [[Fraction(float(x)) for x in row] for row in np.atleast_2d(a)]


def solve_exact(a, cols):
    """Solve a X = cols exactly; also the determinant."""
    n = len(a)
    m = [list(a[i]) + list(cols[i]) for i in range(n)]
    det = Fraction(1)
    for i in range(n):
        p = max(range(i, n), key=lambda r: abs(m[r][i]))
        if m[p][i] == 0:
            raise core.Reject()
        if p != i:
            m[i], m[p] = m[p], m[i]
            det = -det
        det *= m[i][i]
        inv = 1 / m[i][i]
        m[i] = [x * inv for x in m[i]]
        for r in range(n):
            if r != i and m[r][i]:
                c = m[r][i]
                m[r] = [x - c * y for x, y in zip(m[r], m[i])]
    return [row[n:] for row in m], det


def flog(x):
    """log of a positive fraction of any size."""
    def lg(k):
        s = max(0, k.bit_length() - 900)
        return math.log(k >> s) + s * math.log(2.0)
    return lg(x.numerator) - lg(x.denominator)


class Exact:
    """exp(-x'Kx/2 + h'x + g + r) with exact K, h, g and a float remainder r of logs."""

    def __init__(self, names, K, h, g, r=0.0):
        self.names, self.K, self.h, self.g, self.r = list(names), K, h, g, r

    @classmethod
    def cov(cls, names, cov, mean, lw):
        n = len(names)
        c, m = mat(cov), [Fraction(float(x)) for x in np.ravel(mean)]
        cols = [[Fraction(int(i == j)) for j in range(n)] for i in range(n)]
        K, det = solve_exact(c, cols)
        h = [sum(K[i][j] * m[j] for j in range(n)) for i in range(n)]
        g = Fraction(float(lw)) - sum(a * b for a, b in zip(m, h)) / 2
        return cls(names, K, h, g, -0.5 * (n * math.log(2 * math.pi) + flog(det)))

    @classmethod
    def can(cls, names, K, h, g):
        return cls(names, mat(K), [Fraction(float(x)) for x in np.ravel(h)], Fraction(float(g)))

    def combine(self, o, sign):
        names = self.names + [v for v in o.names if v not in self.names]
        n = len(names)
        K = [[Fraction(0)] * n for _ in range(n)]
        h = [Fraction(0)] * n
        for x, s in ((self, 1), (o, sign)):
            ix = [names.index(v) for v in x.names]
            for a, i in enumerate(ix):
                h[i] += s * x.h[a]
                for b, j in enumerate(ix):
                    K[i][j] += s * x.K[a][b]
        return Exact(names, K, h, self.g + sign * o.g, self.r + sign * o.r)

    def marg(self, keep):
        x, y = [self.names.index(v) for v in keep], [i for i, v in enumerate(self.names) if v not in keep]
        if not y:
            return self.order(keep)
        cols = [[self.K[i][j] for j in x] + [self.h[i]] for i in y]
        S, det = solve_exact([[self.K[i][j] for j in y] for i in y], cols)
        K = [[self.K[i][j] - sum(self.K[i][k] * S[b][a] for b, k in enumerate(y)) for a, j in enumerate(x)] for i in x]
        h = [self.h[i] - sum(self.K[i][k] * S[b][-1] for b, k in enumerate(y)) for i in x]
        g = self.g + sum(self.h[k] * S[b][-1] for b, k in enumerate(y)) / 2
        return Exact(keep, K, h, g, self.r + 0.5 * (len(y) * math.log(2 * math.pi) - flog(det)))

    def order(self, names):
        i = [self.names.index(v) for v in names]
        return Exact(names, [[self.K[a][b] for b in i] for a in i], [self.h[a] for a in i], self.g, self.r)

    def reduce(self, ev):
        x, y = [i for i, v in enumerate(self.names) if v not in ev], [i for i, v in enumerate(self.names) if v in ev]
        v = {i: Fraction(float(ev[self.names[i]])) for i in y}
        h = [self.h[i] - sum(self.K[i][k] * v[k] for k in y) for i in x]
        g = self.g + sum(self.h[k] * v[k] for k in y) - sum(v[a] * self.K[a][b] * v[b] for a in y for b in y) / 2
        return Exact([self.names[i] for i in x], [[self.K[i][j] for j in x] for i in x], h, g, self.r)

    def moments(self):
        n = len(self.names)
        cols = [[Fraction(int(i == j)) for j in range(n)] + [self.h[i]] for i in range(n)]
        S, det = solve_exact(self.K, cols)
        cov = [row[:n] for row in S]
        mean = [row[n] for row in S]
        lw = self.g + sum(a * b for a, b in zip(mean, self.h)) / 2
        if det <= 0:
            raise core.Reject()
        return cov, mean, float(lw) + self.r + 0.5 * (n * math.log(2 * math.pi) - flog(det))

    def at(self, x):
        x = [Fraction(float(v)) for v in x]
        n = len(x)
        return float(self.g + sum(a * b for a, b in zip(x, self.h)) - sum(x[i] * self.K[i][j] * x[j] for i in range(n) for j in range(n)) / 2) + self.r

    def floats(self):
        return (np.array([[float(v) for v in row] for row in self.K]).reshape(len(self.names), -1), np.array([float(v) for v in self.h]),
                float(self.g) + self.r)


def exact(ctx):
    """Programs on small Gaussians of widely different scales or far from the origin, against rational arithmetic."""
    from veroku.factors.gaussian import Gaussian

    rng = ctx.rng
    pool = gen.names(rng, 4)
    scales = {v: 10.0 ** float(rng.uniform(-3, 3)) if rng.random() < 0.6 else 1.0 for v in pool}
    away = float(rng.choice([0.0, 1.0, 1e3, 1e5]))
    ctx.count("exact_gaussians")

    def make_one(names):
        n = len(names)
        s = np.array([scales[v] for v in names])
        cov = gen.spd(rng, n, 0.3, 3.0) * np.outer(s, s)
        cov = 0.5 * (cov + cov.T)
        mean = (rng.normal(size=n) * 3.0 + away * rng.choice([-1.0, 1.0], n)) * s
        lw = float(rng.choice([0.0, 1.0, -1.0]) * 10.0 ** rng.uniform(0, 5))
        if rng.random() < 0.5:
            return Gaussian(var_names=list(names), cov=cov, mean=mean.reshape(-1, 1), log_weight=lw), Exact.cov(names, cov, mean, lw), abs(lw)
        K = np.linalg.inv(cov)
        K = 0.5 * (K + K.T)
        h = K @ mean
        g = lw - 0.5 * mean @ h
        return Gaussian(var_names=list(names), prec=K, h_vec=h.reshape(-1, 1), g_val=g), Exact.can(names, K, h, g), abs(lw)
    f, x, lw = make_one(gen.subset(rng, pool, 1, 3))
    hist, mags, w = [f"{x.names}"], [scale_of(x)], lw
    removable = []
    for _ in range(int(rng.integers(1, 6))):
        op = str(rng.choice(["multiply", "multiply", "divide", "marginalize", "reduce", "normalize"]))
        if op == "multiply":
            o, ox, ow = make_one(gen.subset(rng, pool, 1, 3))
            f, x = f.multiply(o), x.combine(ox, 1)
            removable.append((o, ox))
            mags.append(scale_of(ox))
            w += ow
        elif op == "divide":
            removable = [(o, ox) for o, ox in removable if set(ox.names) <= set(x.names)]
            if not removable:
                continue
            o, ox = removable.pop(int(rng.integers(len(removable))))
            f, x = f.divide(o), x.combine(ox, -1)
        elif op == "marginalize":
            if len(x.names) < 2:
                continue
            keep = gen.subset(rng, x.names, 1, len(x.names) - 1)
            f, x = f.marginalize(keep, keep=True), x.marg(keep)
            removable = []
        elif op == "reduce":
            if len(x.names) < 2:
                continue
            v = x.names[int(rng.integers(len(x.names)))]
            cov, mean, _ = x.moments()
            i = x.names.index(v)
            val = float(mean[i]) + float(rng.normal()) * math.sqrt(abs(float(cov[i][i])))
            f, x = f.reduce([v], [val]), x.reduce({v: val})
            removable = []
        else:
            f = f.normalize()
            _, _, l = x.moments()
            x = Exact(x.names, x.K, x.h, x.g, x.r - l)
        hist.append(op)
        mags.append(scale_of(x))
        if not read_exact(ctx, f, x, mags, w, hist):
            return
    if len(hist) == 1:
        read_exact(ctx, f, x, mags, w, hist)
    ctx.sig("exact", hist, round(away), [round(math.log10(s)) for s in scales.values()])
    ctx.sample(f"{hist} scales {scales} away {away}")


def scale_of(x):
    """Magnitudes in units of each variable's own scale: (h'K^-1 h, condition number of the scaled precision)."""
    K, h, g = x.floats()
    d = np.sqrt(np.abs(np.diag(K)))
    if not (d > 0).all():
        raise core.Reject()
    ks = K / np.outer(d, d)
    cond = np.linalg.cond(ks)
    ev = np.linalg.eigvalsh(0.5 * (ks + ks.T))
    if ev[0] < 1e-4:  # nearly improper: out of double precision conditioning
        raise core.Reject()
    return dict(zip(x.names, d)), float((h / d) @ np.linalg.solve(ks, h / d)), float(cond), abs(float(g))


def read_exact(ctx, f, x, mags, w, hist):
    """All parameters of the real Gaussian against the exact ones."""
    rng = ctx.rng
    names = list(f.var_names)
    if not ctx.check(set(names) == set(x.names), "gaussian:scope", lambda: f"{names} {x.names} {hist}"):
        return False
    x = x.order(names)
    cov, mean, lw = x.moments()
    n = len(names)
    cov = np.array([[float(c) for c in row] for row in cov]).reshape(n, n)
    mean = np.array([float(m) for m in mean])
    K, h, g = x.floats()
    sd = np.sqrt(np.diag(cov))
    # magnitudes met so far, per variable: precision scale, energy, conditioning, weight
    d = np.array([max(m[0].get(v, 0.0) for m in mags) for v in names])
    cond = max(m[2] for m in mags) * max(1.0, float(np.max(d * sd)) ** 2)
    energy = max(m[1] for m in mags)
    weight = max(m[3] for m in mags) + energy * cond + w + 10.0
    unit = EPS * cond * (len(hist) + 1)

    def detail():
        return f"{hist}\n{names}\nK {K}\nh {h}\ng {g}\ncov {cov}\nmean {mean}\nlog weight {lw}\nunits: cond {cond:.3g} energy {energy:.3g} weight {weight:.3g}"
    ok = True
    forms = gen.perm(rng, ["can", "cov", "point"])
    c = f.copy()
    for form in forms:
        ctx.count("exact_reads")
        if form == "can":
            ok &= within(ctx, "gaussian:prec", c.get_prec(), K, unit * np.outer(d, d), 1e5, detail)
            ok &= within(ctx, "gaussian:h", np.ravel(c.get_h()), h, unit * d * (1 + math.sqrt(energy * cond)), 1e5, detail)
            ok &= within(ctx, "gaussian:g", c.get_g(), g, unit * weight, 1e5, detail)
        elif form == "cov":
            ok &= within(ctx, "gaussian:cov", c.get_cov(), cov, unit * np.outer(sd, sd), 1e5, detail)
            ok &= within(ctx, "gaussian:mean", np.ravel(c.get_mean()), mean, unit * sd * (1 + math.sqrt(energy * cond)), 1e5, detail)
            ok &= within(ctx, "gaussian:log-weight", c.get_log_weight(), lw, unit * weight, 1e5, detail)
        else:
            pt = mean + rng.normal(size=n) * sd
            ok &= within(ctx, "gaussian:log-potential", c.log_potential(pt.reshape(-1, 1)), x.at(pt), unit * weight, 1e5,
                         lambda: f"at {pt}\n" + detail())
    ctx.count("beyond_doubles", int(abs(lw) > 750 or cond > 1e6))
    return ok


# --------------------------------------------------------------------------------------------------------- high dimensional
def highdim(ctx):
    """Determinants that leave the range of doubles."""
    from veroku.factors.gaussian import Gaussian

    rng = ctx.rng
    n = int(rng.integers(30, 110 if not ctx.thorough else 200))
    names = gen.perm(rng, [f"v{i}" for i in range(n)])
    s = 10.0 ** float(rng.uniform(-2.9, 2.9)) * 10.0 ** rng.uniform(-0.5, 0.5, n)
    ctx.count("high_dim")

    def one(lo=0.5):
        q = np.linalg.qr(rng.normal(size=(n, n)))[0]
        cov = (q * rng.uniform(lo, 2.0, n)) @ q.T * np.outer(s, s)
        cov = 0.5 * (cov + cov.T)
        mean = rng.normal(size=n) * s
        return cov, mean, float(rng.normal() * 100)
    cov, mean, lw = one()
    ref = refs.GRef.cov(names, cov, mean, lw)
    f = Gaussian(var_names=list(names), cov=cov, mean=mean.reshape(-1, 1), log_weight=lw)
    if rng.random() < 0.5:
        f = Gaussian(var_names=list(names), prec=ref.K, h_vec=ref.h.reshape(-1, 1), g_val=ref.g)
    scale = abs(lw) + n * 20.0

    def num(name, got, want):
        return within(ctx, name, got, want, EPS * scale * n, 200, lambda: f"dimension {n}, log det {refs.slogdet(cov)}")
    num("highdim:g", f.copy().get_g(), ref.g)
    num("highdim:log-weight", f.copy().get_log_weight(), lw)
    num("highdim:log-potential", f.log_potential((mean + s).reshape(-1, 1)), ref.at(dict(zip(names, mean + s))))
    keep = gen.subset(rng, names, 1, n - 1)
    m = f.marginalize(keep, keep=True)
    num("highdim:marginal-weight", m.get_log_weight(), lw)
    r = ref.marg(keep)
    num("highdim:marginal-g", m.copy().get_g(), r.g)
    obs = gen.subset(rng, names, 1, n - 1)
    ev = {v: float(mean[names.index(v)] + rng.normal() * s[names.index(v)]) for v in obs}
    red, want = f.reduce(list(ev), list(ev.values())), ref.reduce(ev)
    num("highdim:reduced-weight", red.get_log_weight(), want.log_mass())
    cov2, mean2, lw2 = one()
    ref2 = refs.GRef.cov(names, cov2, mean2, lw2)
    f2 = Gaussian(var_names=list(names), cov=cov2, mean=mean2.reshape(-1, 1), log_weight=lw2)
    scale += abs(lw2)
    prod = f.multiply(f2)
    num("highdim:product-weight", prod.get_log_weight(), ref.mul(ref2).log_mass())
    num("highdim:quotient-weight", prod.divide(f2).get_log_weight(), lw)
    if (s ** -2 > 1e-6).all():
        num("highdim:kl", f.kl_divergence(f2), ref.kl(ref2))
    ld = refs.slogdet(cov)
    ctx.count("beyond_doubles", int(abs(ld) > 700))
    ctx.sig("highdim", n, round(ld))


def gchain(ctx):
    """Long linear Gaussian chains far from the origin, exact by a joint solve."""
    from veroku.cluster_graph import ClusterGraph
    from veroku.factors.gaussian import Gaussian, make_linear_gaussian

    rng = ctx.rng
    n = int(rng.integers(8, 25 if not ctx.thorough else 60))
    d = int(rng.integers(1, 3))
    away = float(rng.choice([0.0, 100.0, 1e4]))
    noise_scale = 10.0 ** float(rng.uniform(-3, 2))
    names = [[f"x{i}_{j}" for j in range(d)] for i in range(n)]
    cov0 = gen.spd(rng, d) * noise_scale
    mean0 = rng.normal(size=d) * 3 + away
    facs = [Gaussian(var_names=list(names[0]), cov=cov0, mean=mean0.reshape(-1, 1), log_weight=0.0)]
    rs = [refs.GRef.cov(names[0], cov0, mean0, 0.0)]
    for i in range(1, n):
        a = np.linalg.qr(rng.normal(size=(d, d)))[0] * float(rng.uniform(0.8, 1.1))
        q = gen.spd(rng, d) * noise_scale
        facs.append(make_linear_gaussian(a, q, list(names[i - 1]), list(names[i])))
        rs.append(models.linear_gaussian_ref(a, q, names[i - 1], names[i]))
    for i in range(n):
        if rng.random() < 0.4:
            c = gen.spd(rng, d) * noise_scale
            m = rng.normal(size=d) * 3 + away
            facs.append(Gaussian(var_names=list(names[i]), cov=c, mean=m.reshape(-1, 1), log_weight=float(rng.normal() * 1000)))
            rs.append(refs.GRef.cov(names[i], c, m, 0.0))
    cg = ClusterGraph([facs[i] for i in gen.perm(rng, range(len(facs)))], disable_tqdm=True)
    if not graphs.is_forest(cg):
        raise core.Reject()
    ctx.count("gaussian_chains")
    if rng.random() < 0.5:
        cg.process_graph(tol=0.0, max_iter=3)
    two_pass(ctx, cg)
    joint = refs.GRef([], np.zeros((0, 0)), np.zeros(0), 0.0)
    for r in rs:
        joint = joint.mul(r)
    cov, mean = joint.covariance(), joint.mean()
    for block in names:
        ctx.count("chain_marginals")
        got = cg.get_marginal(list(block))
        i = [joint.names.index(v) for v in got.var_names]
        sd = np.sqrt(np.diag(cov)[i])
        ok = within(ctx, "gchain:cov", got.get_cov(), cov[np.ix_(i, i)], 1e-8 * np.outer(sd, sd), 100, lambda: f"{block} of {n}, noise {noise_scale}")
        ok &= within(ctx, "gchain:mean", np.ravel(got.get_mean()), mean[i], 1e-8 * (sd + 1e-4 * (1 + away)), 100,
                     lambda: f"{block} of {n}, noise {noise_scale}, away {away}")
        if not ok:
            return
    ctx.sig("gchain", n, d, away, round(math.log10(noise_scale), 1))


# ------------------------------------------------------------------------------------------------------------------- mixtures
def mixture(ctx):
    """Weights that are no doubles."""
    from veroku.factors.experimental.gaussian_mixture import GaussianMixture
    from veroku.factors.gaussian import Gaussian

    rng = ctx.rng
    ctx.count("mixtures")
    names = gen.names(rng, int(rng.integers(1, 4)))
    off = float(rng.choice([-1e4, -1500.0, -800.0, 800.0, 1500.0, 1e4]))
    spread = float(rng.choice([1.0, 5.0, 1000.0]))
    parts = []
    for _ in range(int(rng.integers(2, 5))):
        cov, mean, lw, _ref = gen.gaussian_params(rng, names)
        lw = off + float(rng.normal()) * spread
        ref = refs.GRef.cov(names, cov, mean, lw)
        parts.append((gen.make_gaussian(rng, ref, cov, np.asarray(mean), lw, None), ref, lw, np.asarray(cov), np.ravel(mean)))
    gm = GaussianMixture([p[0] for p in parts])
    lws = np.array([p[2] for p in parts])
    total = float(refs.lse(lws))
    mag = abs(off) + spread * 4 + 100.0
    ctx.count("beyond_doubles", int(abs(total) > 750))

    def num(name, got, want, extra=1.0):
        return within(ctx, name, got, want, EPS * mag * extra, 3000, lambda: f"log weights {lws}")
    num("mixture:log-weight", gm.get_log_weight(), total)
    norm = gm.normalize()
    num("mixture:normalized", norm.get_log_weight(), 0.0)
    num("mixture:normalized-weights", sorted(c.get_log_weight() for c in norm.components), sorted(lws - total))
    w = np.exp(lws - total)
    mean = sum(a * p[4] for a, p in zip(w, parts))
    cov = sum(a * (p[3] + np.outer(p[4] - mean, p[4] - mean)) for a, p in zip(w, parts))
    mm = gm.moment_match_to_single_gaussian()
    order = [names.index(v) for v in mm.var_names]
    within(ctx, "mixture:match-mean", np.ravel(mm.get_mean()), mean[order], EPS * mag * 100, 3000, lambda: f"log weights {lws}")
    within(ctx, "mixture:match-cov", mm.get_cov(), cov[np.ix_(order, order)], EPS * mag * 1000, 3000, lambda: f"log weights {lws}")
    num("mixture:match-weight", mm.get_log_weight(), total)
    point = {v: float(x) for v, x in zip(names, mean + rng.normal(size=len(names)) * float(rng.choice([1.0, 30.0])))}
    want = float(refs.lse(np.array([p[1].at(point) for p in parts])))
    vrs = gen.perm(rng, names)
    num("mixture:log-potential", gm.log_potential(np.array([point[v] for v in vrs]), vrs=vrs), want, 100.0 + abs(want) / mag * 100)
    keep = gen.subset(rng, names, 1)
    num("mixture:marginal-weight", gm.marginalize(keep, keep=True).get_log_weight(), total)
    if len(names) > 1:
        obs = gen.subset(rng, names, 1, len(names) - 1)
        ev = {v: point[v] for v in obs}
        red = gm.reduce(list(ev), gen.values(rng, ev.values()))
        want = float(refs.lse(np.array([p[1].reduce(ev).log_mass() for p in parts])))
        num("mixture:reduced-weight", red.get_log_weight(), want, 100.0 + abs(want) / mag * 100)
    g = parts[int(rng.integers(len(parts)))][0]
    gi = [p[1] for p in parts if p[0] is g][0]
    prod = gm.multiply(g)
    want = float(refs.lse(np.array([p[1].mul(gi).log_mass() for p in parts])))
    num("mixture:product-weight", prod.get_log_weight(), want, 100.0)
    num("mixture:quotient-weight", prod.divide(g).get_log_weight(), total, 100.0)
    ctx.sig("mixture", names, off, spread, len(parts))
