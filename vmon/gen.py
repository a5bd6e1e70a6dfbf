"""
Hostile workload generators.
"""
import numpy as np

NAME_POOLS = [
    ["a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t"],
    ["x", "x1", "x10", "x11", "x_1", "x_10", "xx", "x1x", "1x", "x2", "x20", "x_", "_x", "X", "X1", "x1_", "xx1", "x0",
     "x00", "x01"],
    ["1", "2", "10", "11", "0", "00", "100", "-1", "1.0", "1e1", "20", "21", "3", "30", "12", "111", "9", "99", "5", "55"],
    ["α", "β", "γ", "é", "变量", "ß", "ñ", "Ω", "ж", "д", "م", "क", "a\u0301", "ö", "Å", "😀", "z\u0308", "ø", "π", "µ"],
    ["a b", "a,b", "a", "b", "a|b", "a;b", "a:b", "a#b", "c0#a", "c1#b", "a=b", "a/b", "prob", "a.b", "(a)", "[b]", "a+b",
     "'a'", "#", "%s"],
    ["temperature", "temperature_2", "temp", "variable_with_a_rather_long_name", "variable_with_a_rather_long_nam",
     "Zeta", "zeta", "theta_{t}", "self", "lambda", "None", "True", "nan", "inf", "values", "var_names", "index", "T",
     "shape", "item"],
    # different names that are equal up to white space, case or unicode normalisation
    ["a", " a", "a ", "  a", "A", "\uff41", "\xe1", "a\u0301", "i", "I", "\u0131", "\u0130", "fi", "\ufb01", "FI", "b", "B", " b", "b ",
     "a b", " ", "", "\t"],
]


def names(rng, n, pool=None):
    """n distinct variable names in a random order."""
    if pool is None:
        pool = int(rng.integers(len(NAME_POOLS)))
    base = pool if isinstance(pool, list) else NAME_POOLS[pool]
    if n > len(base):
        base = [f"{b}{s}" for s in ["", "'", "~", "_a"] for b in base]
    idx = rng.permutation(len(base))[:n]
    return [base[int(i)] for i in idx]


def cards(rng, nms, hi=4, p_one=0.12, p_big=0.08):
    out = {}
    for v in nms:
        out[v] = 1 if rng.random() < p_one else int(rng.integers(2, hi + 1))
    if len(out) and rng.random() < p_big:  # one variable with (possibly) more than ten values
        out[list(out)[int(rng.integers(len(out)))]] = int(rng.integers(hi + 1, 14))
    return out


def many(rng, lo=7, hi=16, cap=400):
    """Many variables, most of them with one or two values, so that the whole table stays small: (names, cardinalities)."""
    nms = names(rng, int(rng.integers(lo, hi + 1)))
    out, size = {}, 1
    for v in perm(rng, nms):
        c = int(rng.choice([1, 1, 2, 2, 3]))
        if size * c > cap:
            c = 1
        out[v] = c
        size *= c
    return nms, {v: out[v] for v in nms}


def layout(rng, arr, ints=True):
    """The same array in one of the forms that a caller may hand in: other memory layouts, views, read only, integers."""
    arr = np.array(arr)
    how = int(rng.integers(8))
    if ints and arr.size and how < 6 and np.all(np.isfinite(arr)) and np.all(arr == np.round(arr)) and np.abs(arr).max() < 1e6:
        arr = arr.astype(int)
    if how == 0 and arr.ndim:
        arr = np.asfortranarray(arr)
    elif how == 1 and arr.ndim:
        steps = [2 if i < 8 else 1 for i in range(arr.ndim)]
        big = np.full([k * s for k, s in zip(steps, arr.shape)], 7, arr.dtype)
        view = big[tuple(slice(None, None, k) for k in steps)]
        view[...] = arr
        arr = view
    elif how == 2 and arr.ndim:
        arr = arr[tuple(slice(None, None, -1) for _ in arr.shape)].copy()[tuple(slice(None, None, -1) for _ in arr.shape)]
    elif how == 3:
        arr.setflags(write=False)
    return arr


def values(rng, vals, column=False):
    """Evidence values in one of the forms that a caller may hand in."""
    vals, how = list(vals), int(rng.integers(6))
    if how == 0:
        return tuple(vals)
    if how == 1:
        return np.array(vals)
    if how == 2 and column:
        return np.array(vals).reshape(-1, 1)
    return list(vals)


def log_table(rng, shape, zero=0.0, kind=None, allow_all_zero=False):
    """A table of log values of one of several kinds; zero: probability of hard zeros."""
    shape = tuple(int(s) for s in shape)
    if not shape:
        return np.array(float(rng.normal()))
    kind = kind or str(rng.choice(["normal", "uniform", "wide", "scaled", "flat", "peaked", "dup", "nearly", "ints"]))
    if kind == "normal":
        t = rng.normal(0, 1.5, shape)
    elif kind == "uniform":
        t = np.log(rng.uniform(0.02, 1.0, shape))
    elif kind == "wide":
        t = rng.normal(0, 12, shape)
    elif kind == "scaled":
        t = rng.normal(0, 1, shape) + float(rng.choice([-40.0, 25.0, 5.0]))
    elif kind == "flat":
        t = np.full(shape, float(rng.normal()))
    elif kind == "nearly":  # differences around and below any default tolerance
        t = rng.normal(0, 1, shape) * 10 ** rng.uniform(-7, -3) + float(rng.choice([0.0, -1.0, 1.5]))
    elif kind == "ints":
        t = rng.integers(-3, 4, shape).astype(float)
    elif kind == "peaked":
        t = np.full(shape, -9.0) + rng.normal(0, 0.3, shape)
        t[tuple(int(rng.integers(s)) for s in shape)] = 0.0
    else:
        t = rng.choice([-1.0, 0.0, 0.5, 2.0], size=shape).astype(float)
    t = np.array(t, dtype=float).reshape(shape)
    if zero > 0:
        mask = rng.random(shape) < zero
        if mask.all() and not allow_all_zero:
            mask[tuple(int(rng.integers(s)) for s in shape)] = False
        t = np.where(mask, -np.inf, t)
    return t


def perm(rng, items):
    items = list(items)
    return [items[int(i)] for i in rng.permutation(len(items))]


def subset(rng, items, lo=0, hi=None):
    items = list(items)
    hi = len(items) if hi is None else min(hi, len(items))
    lo = min(lo, hi)
    k = int(rng.integers(lo, hi + 1))
    return perm(rng, items)[:k]


def overlap_scopes(rng, pool, max_len=4):
    """Two scopes with a chosen overlap structure."""
    kind = str(rng.choice(["equal", "nested_ab", "nested_ba", "partial", "disjoint", "random"]))
    p = perm(rng, pool)
    k = int(rng.integers(1, max_len + 1))
    a = p[:k]
    if kind == "equal":
        b = perm(rng, a)
    elif kind == "nested_ab":
        b = subset(rng, a, 1)
    elif kind == "nested_ba":
        b = a
        a = subset(rng, b, 1)
        b = perm(rng, b)
    elif kind == "partial":
        b = perm(rng, subset(rng, a, 1) + p[k: k + int(rng.integers(1, 3))])
    elif kind == "disjoint":
        b = p[k: k + int(rng.integers(1, 3))] or p[:1]
    else:
        b = subset(rng, pool, 1, max_len)
    return a, b, kind


# -------------------------------------------------------------------------------------------------- factor construction
def make_dense(rng, tab, assignment_names=None, how=None):
    """Build a real Categorical for a Tab, in one of the ways the API offers."""
    from veroku.factors.categorical import Categorical

    kw = {}
    if assignment_names is not None:
        kw["variables_assignment_names"] = [list(assignment_names[v]) for v in tab.names]
    how = how or ("table" if rng.random() < 0.3 else "tensor")
    with np.errstate(all="ignore"):
        probs = np.exp(tab.logs)
    if how == "table" and np.all(np.isfinite(probs)) and np.all((probs > 1e-290) | (tab.logs == -np.inf)):
        table = {}
        for a in np.ndindex(*tab.logs.shape):
            if probs[a] > 0 or rng.random() < 0.5:
                table[tuple(int(x) for x in a)] = float(probs[a])
        if len(table) and tab.names:
            keys = perm(rng, list(table))
            return Categorical(var_names=list(tab.names), cardinalities=[int(s) for s in tab.logs.shape],
                               probs_table={k: table[k] for k in keys}, **kw)
    return Categorical(var_names=list(tab.names), log_probs_tensor=layout(rng, tab.logs), **kw)


def make_sparse(rng, tab, default=None, p_explicit_default=0.5, how=None):
    """Build a real SparseCategorical. Entries equal to the default are randomly explicit or implicit."""
    from veroku.factors.sparse_categorical import SparseCategorical

    default = -np.inf if default is None else float(default)
    table = {}
    for a in perm(rng, list(np.ndindex(*tab.logs.shape))):
        v = float(tab.logs[a])
        if v == default and rng.random() >= p_explicit_default:
            continue
        table[tuple(int(x) for x in a)] = v
    if not table:  # at least one explicit entry
        a = tuple(0 for _ in tab.logs.shape)
        table[a] = float(tab.logs[a])
    kw = {}
    if default != -np.inf:
        kw["default_log_prob"] = default
    how = how or ("probs" if rng.random() < 0.3 else "logs")
    if how == "probs" and all(abs(v) < 600 or v == -np.inf for v in table.values()):
        with np.errstate(all="ignore"):
            return SparseCategorical(var_names=list(tab.names), cardinalities=[int(s) for s in tab.logs.shape],
                                     probs_table={k: np.exp(v) for k, v in table.items()}, **kw)
    return SparseCategorical(var_names=list(tab.names), cardinalities=[int(s) for s in tab.logs.shape],
                             log_probs_table=table, **kw)


def sparse_tab(rng, nms, cds, zero, kind=None, near=0.0):
    """A Tab and a default for a sparse factor: many entries equal to the default (with probability near: some almost)."""
    from .refs import Tab

    t = log_table(rng, [cds[v] for v in nms], zero=0.0, kind=kind)
    if not nms:
        return Tab(nms, t), -np.inf
    default = -np.inf if rng.random() < 0.6 else float(rng.choice([-3.0, -0.7, 0.0, 1.2, -25.0]))
    if default == -np.inf:
        mask = rng.random(t.shape) < zero
        if mask.all():
            mask[tuple(int(rng.integers(s)) for s in t.shape)] = False
        t = np.where(mask, -np.inf, t)
    else:
        t = np.where(rng.random(t.shape) < 0.4, default, t)
        if near and rng.random() < near:
            close = default * (1 + rng.choice([-1, 1]) * 10 ** rng.uniform(-6.5, -5.1)) if default else 10 ** rng.uniform(-8, -6)
            t = np.where(rng.random(t.shape) < 0.4, close, t)
        if zero and rng.random() < 0.5:
            mask = rng.random(t.shape) < zero / 2
            if mask.all():
                mask[tuple(int(rng.integers(s)) for s in t.shape)] = False
            t = np.where(mask, -np.inf, t)
    return Tab(nms, t), default


# -------------------------------------------------------------------------------------------------------------- Gaussian
def spd(rng, n, lo=0.3, hi=3.0):
    """A random, non-diagonal, well conditioned SPD matrix with different scales."""
    if n == 0:
        return np.zeros((0, 0))
    q, _ = np.linalg.qr(rng.normal(size=(n, n)))
    m = q @ np.diag(np.exp(rng.uniform(np.log(lo), np.log(hi), n))) @ q.T
    return 0.5 * (m + m.T)


def gaussian_params(rng, nms, mean_scale=3.0, lo=0.3, hi=3.0):
    from .refs import GRef

    n = len(nms)
    cov = spd(rng, n, lo, hi)
    if n and rng.random() < 0.06:  # integers
        a = rng.integers(-1, 2, (n, n))
        cov, mean = (a @ a.T + int(rng.integers(1, 3)) * np.eye(n)).astype(float), np.round(rng.normal(0, mean_scale, n))
        lw = float(rng.integers(-1, 2))
        return cov, mean, lw, GRef.cov(nms, cov, mean, lw)
    if rng.random() < 0.25:
        s = np.diag(np.exp(rng.uniform(-1.5, 1.5, n)))
        cov = s @ cov @ s
    mean = rng.normal(0, mean_scale, n)
    lw = float(rng.choice([0.0, 0.0, 1.0])) * float(rng.normal(0, 3)) + (0.7 if rng.random() < 0.3 else 0.0)
    return cov, mean, lw, GRef.cov(nms, cov, mean, lw)


FORMS = ["cov", "can", "both_cov", "both_can"]


def make_gaussian(rng, ref, cov=None, mean=None, lw=None, form=None):
    """A real Gaussian equal to ref in the given stored form (cov needs cov/mean/lw)."""
    from veroku.factors.gaussian import Gaussian

    form = form or str(rng.choice(FORMS))
    if cov is None and form in ("cov", "both_cov"):
        cov, mean, lw = ref.covariance(), ref.mean(), ref.log_mass()
    if form in ("cov", "both_cov"):
        g = Gaussian(cov=layout(rng, cov), mean=layout(rng, np.array(mean).reshape(-1, 1)), log_weight=float(lw),
                     var_names=list(ref.names))
        if form == "both_cov":
            g.get_prec()
        return g
    g = Gaussian(prec=layout(rng, ref.K), h_vec=layout(rng, ref.h.reshape(-1, 1)), g_val=float(ref.g), var_names=list(ref.names))
    if form == "both_can":
        g.get_cov()
    return g


# ---------------------------------------------------------------------------------------------------------------- models
def forest_scopes(rng, n_factors, max_scope=3, components=1, pool=None, p_nested=0.25):
    """Scopes whose bipartite variable/factor graph is a forest once nested scopes are absorbed.

    Every new factor shares variables with a single earlier factor only (a subset of its scope): a junction-tree like
    growth, so the cluster graph built from it is a forest if sepsets follow the tree. To guarantee it for every
    spanning tree choice, at most one shared variable is used unless the new scope is nested in the old one."""
    nms = iter(names(rng, 60, pool))
    scopes = []
    for c in range(components):
        scopes.append([next(nms) for _ in range(int(rng.integers(1, max_scope + 1)))])
        first = len(scopes) - 1
        count = n_factors // components + (1 if c < n_factors % components else 0)
        for _ in range(count - 1):
            base = scopes[int(rng.integers(first, len(scopes)))]
            if rng.random() < p_nested:
                new = subset(rng, base, 1)
                scopes.append(perm(rng, new))
                continue
            shared = [base[int(rng.integers(len(base)))]]
            new = shared + [next(nms) for _ in range(int(rng.integers(0, max_scope)))]
            scopes.append(perm(rng, new))
    return scopes


def loopy_scopes(rng, n_vars, n_factors, max_scope=3, pool=None, min_scope=1):
    nms = names(rng, n_vars, pool)
    return [subset(rng, nms, min_scope if rng.random() < 0.8 else 1, max_scope) for _ in range(n_factors)], nms
