"""
A zoo of real factors of every class, with snapshots of what they represent. Snapshots are computed by reading the factor out
(attributes and copies), and two snapshots are comparable with same().
"""
import numpy as np

from . import gen, refs

CLASSES = ["dense", "sparse", "gaussian", "gm", "ff", "nlg", "nlgm"]


# --------------------------------------------------------------------------------------------------------------- transforms
class Transform:
    """A (copyable) transform of the conditioning variables, applied column wise; records what it received."""

    def __init__(self, kind, a, b):
        self.kind, self.a, self.b = kind, np.array(a, float), np.array(b, float).reshape(-1, 1)
        self.calls = []

    def raw(self, x):
        lin = self.a @ x + self.b
        if self.kind == "linear":
            return lin
        if self.kind == "sin":
            return np.sin(lin) * 2.0 + 0.3 * lin
        if self.kind == "square":
            return 0.2 * lin ** 2 + lin
        if self.kind == "abs":
            return np.abs(lin) + 0.1 * lin
        return np.tanh(lin) * 3.0

    def __call__(self, x, var_names):
        return self.raw(np.asarray(x, float))

    def __deepcopy__(self, memo):
        return self


# ------------------------------------------------------------------------------------------------------------------- snapshots
def grefs_of(gaussians):
    return [refs.gref_of(g) for g in gaussians]


def snapshot(f):
    """A comparable description of the function f represents (by class)."""
    kind = type(f).__name__
    if kind in ("Categorical", "SparseCategorical"):
        t = refs.tab_of(f)
        extra = None
        if kind == "Categorical":
            extra = {k: tuple(v) for k, v in f.vars_assignments_names_dict.items()}
        return (kind, list(f.var_names), t.logs.copy(), extra)
    if kind == "Gaussian":
        return (kind, list(f.var_names), _g(f))
    if kind == "GaussianMixture":
        return (kind, list(f.var_names), [_g(c) for c in f.components], f.cancel_method)
    if kind == "FactorizedFactor":
        return (kind, sorted(f.var_names), [(type(c).__name__, list(c.var_names), _g(c)) for c in f.factors])
    if kind == "NonLinearGaussian":
        return (kind, list(f.var_names), _nlg(f))
    if kind == "NonLinearGaussianMixture":
        return (kind, list(f.var_names), [_nlg(c) for c in f.nlgs], f.split_singles_before_absorb)
    if kind == "Message":
        return (kind, f.sender_id, f.receiver_id, snapshot(f.factor))
    raise TypeError(kind)


def _g(g):
    c = g.copy()
    names = list(c.var_names)
    return ("g", names, np.array(c.get_prec(), float), np.array(c.get_h(), float), float(c.get_g()))


def _nlg(f):
    def part(p):
        return None if p is None else _g(p)
    return (list(f.conditioning_vars), list(f.conditional_vars), np.array(f.noise_cov), float(f.log_weight),
            part(f.conditional_update_factor), part(f.conditioning_factor), dict(f.observed_evidence), _g(f.joint_distribution))


def same(a, b, rtol=1e-9, atol=1e-9):
    """Structural comparison of two snapshots."""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a, float), np.asarray(b, float)
        if a.shape != b.shape:
            return False
        if a.size == 0:
            return True
        scale = np.abs(b[np.isfinite(b)]).max(initial=0.0)
        with np.errstate(all="ignore"):
            near = (np.abs(a - b) <= atol + rtol * scale) | (a == b) | (np.isnan(a) & np.isnan(b))
        return bool(np.all(near))
    if isinstance(a, bool) or isinstance(a, str) or a is None:
        return a == b
    if isinstance(a, (int, float, np.floating, np.integer)):
        if not isinstance(b, (int, float, np.floating, np.integer)):
            return False
        return same(np.array([float(a)]), np.array([float(b)]), rtol, atol)
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(same(a[k], b[k], rtol, atol) for k in a)
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same(x, y, rtol, atol) for x, y in zip(a, b))
    return a == b


# ------------------------------------------------------------------------------------------------------------------- factories
def make_dense(ctx, nms, cds, zero=0.2, names_for=None):
    rng = ctx.rng
    t = refs.Tab(nms, gen.log_table(rng, [cds[v] for v in nms], zero))
    return gen.make_dense(rng, t, names_for), t


def make_sparse(ctx, nms, cds, zero=0.4):
    t, d = gen.sparse_tab(ctx.rng, nms, cds, zero)
    return gen.make_sparse(ctx.rng, t, d), t


def make_gaussian(ctx, nms, form=None, **kw):
    cov, mean, lw, ref = gen.gaussian_params(ctx.rng, nms, **kw)
    return gen.make_gaussian(ctx.rng, ref, cov, mean, lw, form), ref


def make_gm(ctx, nms, n=None, **kw):
    from veroku.factors.experimental.gaussian_mixture import GaussianMixture

    n = n or int(ctx.rng.integers(1, 4))
    parts = [make_gaussian(ctx, nms, **kw) for _ in range(n)]
    return GaussianMixture([p[0] for p in parts]), [p[1] for p in parts]


def make_ff(ctx, nms, n=None, cover=True):
    from veroku.factors.experimental.factorised_factor import FactorizedFactor

    rng = ctx.rng
    n = n or int(rng.integers(1, 4))
    scopes = [gen.subset(rng, nms, 1, 3) for _ in range(n)]
    left = [v for v in nms if all(v not in s for s in scopes)]
    if cover and left:
        scopes.append(left)
    parts = [make_gaussian(ctx, s) for s in scopes]
    return FactorizedFactor([p[0] for p in parts]), [p[1] for p in parts]


def make_nlg(ctx, cond, out, kind=None, factors=True):
    """A NonLinearGaussian x=cond -> y=out, optionally with a conditioning factor absorbed."""
    from veroku.factors.experimental.nonlinear_gaussian import NonLinearGaussian

    rng = ctx.rng
    kind = kind or str(rng.choice(["linear", "sin", "square", "abs", "tanh"]))
    tr = Transform(kind, rng.normal(0, 1, (len(out), len(cond))), rng.normal(0, 1, len(out)))
    noise = gen.spd(rng, len(out))
    f = NonLinearGaussian(list(cond), list(out), tr, noise)
    prior = None
    if factors:
        g, prior = make_gaussian(ctx, gen.perm(rng, cond))
        f = f.multiply(g)
    return f, (tr, noise, prior)


def make_nlgm(ctx, cond, out, n=None):
    from veroku.factors.experimental.nonlinear_gaussian import NonLinearGaussianMixture

    n = n or int(ctx.rng.integers(1, 3))
    return NonLinearGaussianMixture([make_nlg(ctx, cond, out)[0] for _ in range(n)]), None
