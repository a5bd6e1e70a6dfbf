"""
Independent reference models. Nothing here uses veroku code to compute anything: real factors are only read out (through
public attributes and on copies) and compared by variable name.
"""
import itertools
import math

import numpy as np

NEG = -np.inf


def lse(a, axis=None):
    """log sum exp with exact handling of -inf / +inf."""
    a = np.asarray(a, dtype=float)
    if a.size == 0:
        return NEG
    m = np.max(a, axis=axis, keepdims=True)
    m0 = np.where(np.isfinite(m), m, 0.0)
    s = np.sum(np.exp(a - m0), axis=axis, keepdims=True)
    with np.errstate(divide="ignore"):
        r = np.log(s) + m0
    r = np.where(m == np.inf, np.inf, r)
    return np.squeeze(r, axis=axis) if axis is not None else float(r.ravel()[0])


class Tab:
    """A discrete potential: log values on named axes."""

    def __init__(self, names, logs):
        self.names = list(names)
        self.logs = np.array(logs, dtype=float)
        assert self.logs.ndim == len(self.names), (self.names, self.logs.shape)

    @property
    def cards(self):
        return dict(zip(self.names, self.logs.shape))

    def on(self, names):
        """The log tensor broadcast over the axes names (a superset, in any order), size one for foreign axes."""
        own = [n for n in names if n in self.names]
        t = self.logs.transpose([self.names.index(n) for n in own])
        return t[tuple(slice(None) if n in self.names else None for n in names)]

    def order(self, names):
        assert set(names) == set(self.names)
        return Tab(names, self.on(names))

    def _binary(self, other, op):
        names = self.names + [n for n in other.names if n not in self.names]
        a, b = self.on(names), other.on(names)
        shape = [self.cards.get(n, other.cards.get(n)) for n in names]
        with np.errstate(all="ignore"):
            res = op(a, b)
        return Tab(names, np.broadcast_to(res, shape))

    def mul(self, other):
        return self._binary(other, lambda a, b: a + b)

    def div(self, other):
        return self._binary(other, lambda a, b: a - b)

    def cancel(self, other):
        def sub(a, b):
            a, b = np.broadcast_arrays(a, b)
            r = np.subtract(a, b, where=~((a == NEG) & (b == NEG)), out=np.full(a.shape, NEG))
            return r
        return self._binary(other, sub)

    def marg(self, keep):
        keep = list(keep)
        out = [n for n in self.names if n not in keep]
        t = self.on(keep + out)
        shape = t.shape[: len(keep)]
        t = t.reshape(shape + (-1,))
        return Tab(keep, lse(t, axis=len(keep)))

    def reduce(self, evidence):
        idx = tuple(evidence[n] if n in evidence else slice(None) for n in self.names)
        return Tab([n for n in self.names if n not in evidence], self.logs[idx])

    def log_mass(self):
        return lse(self.logs)

    def norm(self):
        return Tab(self.names, self.logs - self.log_mass())

    def probs(self):
        return np.exp(self.logs)

    def scale(self, c):
        return Tab(self.names, self.logs + c)

    def kl(self, other):
        """KL of the normalised distributions."""
        p, q = self.norm(), other.norm()
        q = q.order(p.names)
        total = 0.0
        for a, b in zip(p.logs.ravel(), q.logs.ravel()):
            if a == NEG:
                continue
            if b == NEG:
                return np.inf
            total += math.exp(a) * (a - b)
        return total

    def kl_raw(self, q):
        """KL of the normalised self with respect to q's values as they are."""
        p = self.norm()
        q = q.order(p.names)
        total = 0.0
        for a, b in zip(p.logs.ravel(), q.logs.ravel()):
            if a == NEG:
                continue
            if b == NEG:
                return np.inf
            total += math.exp(a) * (a - b)
        return total

    def key(self):
        names = sorted(self.names)
        return (tuple(names), np.round(self.order(names).logs, 6).tobytes())


def logs_close(a, b, rtol=1e-9, atol=1e-9, zero_below=None):
    """Compare log values entrywise: same infinities, no NaN, close where finite.

    zero_below: entries for which both are below this log value count as equal (numerical cancellation)."""
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    if np.isnan(a).any() or np.isnan(b).any():
        return False
    same = a == b
    with np.errstate(all="ignore"):
        near = np.abs(a - b) <= atol + rtol * np.maximum(np.abs(a), np.abs(b))
    near &= np.isfinite(a) & np.isfinite(b)
    ok = same | near
    if zero_below is not None:
        ok |= (a < zero_below) & (b < zero_below)
    return bool(np.all(ok))


def tabs_close(a, b, **kw):
    """Compare two Tabs by name."""
    if set(a.names) != set(b.names) or len(a.names) != len(b.names):
        return False
    return logs_close(a.order(b.names).logs, b.logs, **kw)


def tab_of(factor):
    """Read a real dense or sparse categorical factor out into a Tab (the factor is not touched)."""
    names = list(factor.var_names)
    if hasattr(factor, "log_probs_tensor"):
        t = np.array(factor.log_probs_tensor, dtype=float)
        cards = [int(c) for c in factor.cardinalities]
        if list(t.shape) != cards or [int(factor.var_cards[n]) for n in names] != cards:
            raise ValueError(f"inconsistent cardinalities: tensor {t.shape}, cardinalities {cards}, {factor.var_cards}")
        return Tab(names, t)
    cards = [int(c) for c in factor.cardinalities]
    if [int(factor.var_cards[n]) for n in names] != cards:
        raise ValueError(f"inconsistent cardinalities: cardinalities {cards}, var_cards {factor.var_cards}")
    table = factor.log_probs_table
    t = np.full(cards, np.nan)
    seen = 0
    for assignment in itertools.product(*[range(c) for c in cards]):
        if assignment in table:
            t[assignment] = table[assignment]
            seen += 1
        else:
            t[assignment] = factor.default_log_prob
    if seen != len(table):
        raise ValueError(f"sparse table has entries outside the scope {names} {cards}: {list(table)[:20]}")
    return Tab(names, t)


def fmt(tab):
    """Short printable form."""
    return f"{tab.names} {tab.logs.shape} logs={np.array2string(tab.logs.ravel()[:24], precision=6)}"


# ------------------------------------------------------------------------------------------------------------ Gaussian
class GRef:
    """A Gaussian potential exp(-x'Kx/2 + h'x + g) on named variables."""

    def __init__(self, names, K, h, g):
        self.names = list(names)
        n = len(self.names)
        self.K = np.array(K, float).reshape(n, n)
        self.h = np.array(h, float).reshape(n)
        self.g = float(np.array(g, float).reshape(-1)[0])

    @classmethod
    def cov(cls, names, cov, mean, log_weight):
        n = len(names)
        cov = np.array(cov, float).reshape(n, n)
        mean = np.array(mean, float).reshape(n)
        K = np.linalg.inv(cov) if n else np.zeros((0, 0))
        h = K @ mean
        g = float(log_weight) - 0.5 * mean @ h - 0.5 * (n * math.log(2 * math.pi) + slogdet(cov))
        return cls(names, K, h, g)

    def idx(self, names):
        return [self.names.index(n) for n in names]

    def order(self, names):
        i = self.idx(names)
        assert len(i) == len(self.names)
        return GRef(names, self.K[np.ix_(i, i)], self.h[i], self.g)

    def _binary(self, other, sign):
        names = self.names + [n for n in other.names if n not in self.names]
        K = np.zeros((len(names), len(names)))
        h = np.zeros(len(names))
        i = [names.index(n) for n in self.names]
        j = [names.index(n) for n in other.names]
        K[np.ix_(i, i)] += self.K
        K[np.ix_(j, j)] += sign * other.K
        h[i] += self.h
        h[j] += sign * other.h
        return GRef(names, K, h, self.g + sign * other.g)

    def mul(self, other):
        return self._binary(other, 1.0)

    def div(self, other):
        return self._binary(other, -1.0)

    def marg(self, keep):
        keep = list(keep)
        out = [n for n in self.names if n not in keep]
        if not out:
            return self.order(keep)
        x, y = self.idx(keep), self.idx(out)
        Kxx, Kxy, Kyy = self.K[np.ix_(x, x)], self.K[np.ix_(x, y)], self.K[np.ix_(y, y)]
        S = np.linalg.solve(Kyy, np.concatenate([Kxy.T, self.h[y][:, None]], axis=1))
        K = Kxx - Kxy @ S[:, :-1]
        h = self.h[x] - Kxy @ S[:, -1]
        g = self.g + 0.5 * (self.h[y] @ S[:, -1] + len(y) * math.log(2 * math.pi) - slogdet(Kyy))
        return GRef(keep, 0.5 * (K + K.T), h, g)

    def reduce(self, evidence):
        keep = [n for n in self.names if n not in evidence]
        obs = [n for n in self.names if n in evidence]
        x, y = self.idx(keep), self.idx(obs)
        v = np.array([float(evidence[n]) for n in obs])
        K = self.K[np.ix_(x, x)]
        h = self.h[x] - self.K[np.ix_(x, y)] @ v
        g = self.g + self.h[y] @ v - 0.5 * v @ self.K[np.ix_(y, y)] @ v
        return GRef(keep, K, h, g)

    def mean(self):
        return np.linalg.solve(self.K, self.h) if self.names else np.zeros(0)

    def covariance(self):
        return np.linalg.inv(self.K) if self.names else np.zeros((0, 0))

    def log_mass(self):
        n = len(self.names)
        if n == 0:
            return self.g
        return self.g + 0.5 * self.h @ self.mean() + 0.5 * (n * math.log(2 * math.pi) - slogdet(self.K))

    def at(self, values):
        """log potential at a dict of values."""
        x = np.array([float(values[n]) for n in self.names])
        return float(-0.5 * x @ self.K @ x + self.h @ x + self.g)

    def proper(self):
        return bool(np.all(np.linalg.eigvalsh(0.5 * (self.K + self.K.T)) > 0)) if self.names else True

    def kl(self, other):
        q = other.order(self.names)
        cov = self.covariance()
        d = self.mean() - q.mean()
        n = len(self.names)
        return 0.5 * (np.trace(q.K @ cov) + d @ q.K @ d - n + slogdet(self.K) - slogdet(q.K))


def slogdet(m):
    if m.shape[0] == 0:
        return 0.0
    return float(np.linalg.slogdet(m)[1])


def gref_of(gaussian):
    """Read a real Gaussian out (on a copy)."""
    c = gaussian.copy()
    return GRef(list(c.var_names), c.get_prec(), c.get_h(), c.get_g())


def arr_close(a, b, rtol=1e-8, atol=1e-8):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape or not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))):
        return False
    if a.size == 0:
        return True
    scale = max(1.0, float(np.max(np.abs(b))), float(np.max(np.abs(a))))
    return bool(np.all(np.abs(a - b) <= atol + rtol * scale))


def grefs_close(a, b, rtol=1e-8, atol=1e-8):
    if set(a.names) != set(b.names) or len(a.names) != len(b.names):
        return False
    a = a.order(b.names)
    return (arr_close(a.K, b.K, rtol, atol) and arr_close(a.h, b.h, rtol, atol)
            and arr_close([a.g], [b.g], rtol, atol))


def gfmt(g):
    return f"{g.names} K={np.array2string(g.K, precision=8)} h={np.array2string(g.h, precision=8)} g={g.g:.10g}"
