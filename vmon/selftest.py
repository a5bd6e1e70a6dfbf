"""Self-test of the reference models against brute force (no veroku code involved), and of the environment."""
import itertools
import math

import numpy as np

from . import core, refs


def main():
    core.prepare_imports()
    rng = np.random.default_rng(0)
    for _ in range(200):
        cards = {"a": 2, "b": 3, "c": 1, "d": 2}
        na = list(rng.permutation(list("abcd"))[: rng.integers(1, 4)])
        nb = list(rng.permutation(list("abcd"))[: rng.integers(1, 4)])
        a = refs.Tab(na, rng.normal(size=[cards[v] for v in na]))
        b = refs.Tab(nb, rng.normal(size=[cards[v] for v in nb]))
        p, q = a.mul(b), a.div(b)
        for vals in itertools.product(*[range(cards[v]) for v in p.names]):
            e = dict(zip(p.names, vals))
            va = a.logs[tuple(e[v] for v in na)]
            vb = b.logs[tuple(e[v] for v in nb)]
            assert abs(p.logs[vals] - va - vb) < 1e-12 and abs(q.order(p.names).logs[vals] - va + vb) < 1e-12
        keep = na[:1]
        m = a.marg(keep)
        for i in range(cards[keep[0]]):
            tot = sum(math.exp(a.logs[v]) for v in np.ndindex(*a.logs.shape) if v[0] == i)
            assert abs(m.logs[i] - math.log(tot)) < 1e-12
        r = a.reduce({na[0]: 0})
        assert np.array_equal(r.logs, a.logs[0])
    for _ in range(50):
        n = 3
        m = rng.normal(size=(n, n))
        cov = m @ m.T + np.eye(n)
        mean = rng.normal(size=n)
        g = refs.GRef.cov(["x", "y", "z"], cov, mean, 0.4)
        assert np.allclose(g.covariance(), cov) and np.allclose(g.mean(), mean) and abs(g.log_mass() - 0.4) < 1e-9
        k = g.marg(["z", "x"])
        assert np.allclose(k.covariance(), cov[np.ix_([2, 0], [2, 0])]) and abs(k.log_mass() - 0.4) < 1e-9
        r = g.reduce({"y": 0.3})
        assert abs(r.at({"x": 1.0, "z": -1}) - g.at({"x": 1.0, "y": 0.3, "z": -1})) < 1e-9
    print("reference models ok")


if __name__ == "__main__":
    main()
