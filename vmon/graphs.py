"""
Monitors for cluster graphs: reading a real graph out, recording message events, random schedules.
"""
import contextlib

import numpy as np

from . import refs


def read(factor):
    """A reference copy of a real categorical or Gaussian factor."""
    if hasattr(factor, "get_prec"):
        return refs.gref_of(factor)
    return refs.tab_of(factor)


def unit(ref):
    if isinstance(ref, refs.GRef):
        return refs.GRef([], np.zeros((0, 0)), np.zeros(0), 0.0)
    return refs.Tab([], np.zeros(()))


def prod(items):
    items = list(items)
    out = unit(items[0])
    for x in items:
        out = out.mul(x)
    return out


def close(a, b, scale=1.0, rtol=1e-9, atol=1e-8):
    if isinstance(a, refs.GRef):
        return refs.grefs_close(a, b, rtol=rtol * 100, atol=atol * scale)
    return refs.tabs_close(a, b, rtol=rtol, atol=atol * scale)


def prop_close(a, b, atol=1e-7, rtol=1e-7, zero_below=None):
    """Proportional: equal after normalisation (Gaussians: mean and covariance)."""
    if isinstance(a, refs.GRef):
        if set(a.names) != set(b.names):
            return False
        a = a.order(b.names)
        return (refs.arr_close(a.covariance(), b.covariance(), rtol, atol) and
                refs.arr_close(a.mean(), b.mean(), rtol, atol))
    za, zb = a.log_mass(), b.log_mass()
    if not (np.isfinite(za) and np.isfinite(zb)):
        return False
    return refs.tabs_close(a.norm(), b.norm(), rtol=rtol, atol=atol, zero_below=zero_below)


def fmt(x):
    return refs.gfmt(x) if isinstance(x, refs.GRef) else refs.fmt(x)


def magnitude(*items):
    """Largest finite parameter magnitude (rounding errors are relative to it)."""
    m = 1.0
    for x in items:
        arrs = [x.K, x.h, [x.g]] if isinstance(x, refs.GRef) else [x.logs]
        for a in arrs:
            a = np.abs(np.asarray(a, float))
            a = a[np.isfinite(a)]
            if a.size:
                m = max(m, float(a.max()))
    return m


def clusters(cg):
    return list(cg._clusters)


def paths(cg):
    return list(cg.graph_message_paths)


def edge_key(path):
    return (path.sender_cluster.cluster_id, path.receiver_cluster.cluster_id)


def sorted_paths(cg):
    """The paths in an order that does not depend on the graph's own bookkeeping."""
    order = {c.cluster_id: i for i, c in enumerate(clusters(cg))}
    return sorted(paths(cg), key=lambda p: (order[p.sender_cluster.cluster_id], order[p.receiver_cluster.cluster_id]))


def edges(cg):
    """{frozenset of two cluster ids: sepset as seen from either side} read from the clusters."""
    out = {}
    for c in clusters(cg):
        for n in c.neighbour_ids:
            out.setdefault(frozenset([c.cluster_id, n]), []).append((c.cluster_id, n, list(c.get_sepset(n))))
    return out


def is_forest(cg):
    parent = {c.cluster_id: c.cluster_id for c in clusters(cg)}

    def find(x):
        while parent[x] != x:
            x = parent[x]
        return x
    for key in edges(cg):
        a, b = sorted(key)
        ra, rb = find(a), find(b)
        if ra == rb:
            return False
        parent[ra] = rb
    return True


def components(cg):
    parent = {c.cluster_id: c.cluster_id for c in clusters(cg)}

    def find(x):
        while parent[x] != x:
            x = parent[x]
        return x
    for key in edges(cg):
        a, b = sorted(key)
        parent[find(a)] = find(b)
    out = {}
    for c in clusters(cg):
        out.setdefault(find(c.cluster_id), []).append(c)
    return list(out.values())


class Events:
    """Messages as delivered to clusters, in order."""

    def __init__(self):
        self.log = []       # (sender, receiver, reference copy)
        self.last = {}      # (sender, receiver) -> reference copy


@contextlib.contextmanager
def recording(cg=None):
    """Record every delivery of a message to a cluster (of this graph)."""
    from veroku._cg_helpers._cluster import Cluster

    events = Events()
    original = Cluster.__dict__["receive_message"]
    mine = None if cg is None else {id(c) for c in clusters(cg)}

    def receive_message(self, message, *args, **kwargs):
        ref = read(message.factor)
        res = original(self, message, *args, **kwargs)
        if mine is None or id(self) in mine:
            key = (message.sender_id, self.cluster_id)
            events.log.append((key[0], key[1], ref))
            events.last[key] = ref
        return res
    Cluster.receive_message = receive_message
    try:
        yield events
    finally:
        Cluster.receive_message = original


def beliefs(cg):
    return {c.cluster_id: read(c.factor) for c in clusters(cg)}


def current_marginals(ctx, cg, n=2, p=1.0):
    """Queries at any time answer from the present belief of a cluster that has the variables."""
    rng = ctx.rng
    if rng.random() >= p:
        return True
    cl = [c for c in clusters(cg) if c.var_names]
    now = beliefs(cg)
    for _ in range(n if cl else 0):
        names = list(cl[int(rng.integers(len(cl)))].var_names)
        q = [names[int(i)] for i in rng.permutation(len(names))[:int(rng.integers(1, len(names) + 1))]]
        options = [now[c.cluster_id] for c in cl if set(q) <= set(c.var_names)]
        if any(isinstance(b, refs.GRef) and not (np.linalg.eigvalsh(b.K)[0] > 1e-6 * max(1e-9, np.abs(b.K).max())) for b in options):
            continue
        got = read(cg.get_marginal(list(q)))
        ctx.count("marginals_on_the_way")
        if not ctx.check(any(list(got.names) == q and _follows(got, b.marg(q), b) for b in options), "marginal-of-present-belief", lambda:
                         f"query {q}\n{describe(cg)}\ngot {fmt(got)}\nbeliefs {[fmt(b) for b in options]}"):
            return False
    return True


def _follows(got, want, belief):
    if isinstance(got, refs.GRef):
        cond = float(np.linalg.cond(belief.K))
        t = 1e-7 + 1e-12 * cond
        scale = max(1.0, float(np.abs(belief.K).max()), float(np.abs(belief.h).max()), abs(belief.g))
        got = got.order(want.names)
        return all(np.all(np.abs(x - y) <= t * scale) for x, y in ((got.K, want.K), (got.h, want.h), (got.g, want.g)))
    return refs.tabs_close(got, want, rtol=1e-9, atol=1e-8)


def describe(cg):
    lines = [f"{c.cluster_id} -- {n}: {c.get_sepset(n)}" for c in clusters(cg) for n in c.neighbour_ids]
    return "clusters " + str([c.cluster_id for c in clusters(cg)]) + "\n" + "\n".join(lines)


def random_schedule(ctx, cg, n, hook=None):
    """Pass n messages along randomly chosen paths, in one of several schedule styles."""
    rng = ctx.rng
    ps = sorted_paths(cg)
    if not ps:
        return 0
    style = str(rng.choice(["uniform", "sweep", "repeat", "reverse", "hot"]))
    hot = [ps[int(i)] for i in rng.integers(len(ps), size=2)]
    sent = 0
    for k in range(n):
        if style == "uniform":
            p = ps[int(rng.integers(len(ps)))]
        elif style == "sweep":
            p = ps[k % len(ps)]
        elif style == "reverse":
            p = ps[-1 - k % len(ps)]
        elif style == "repeat":
            p = ps[(k // 2) % len(ps)]
        else:
            p = hot[int(rng.integers(2))] if rng.random() < 0.6 else ps[int(rng.integers(len(ps)))]
        p.pass_next_message()
        sent += 1
        ctx.count("messages")
        if hook is not None and hook(p) is False:
            break
    return sent


SCALE_LIMIT = 1e5


def blown_up(cg, events=None):
    """The log scale of the unnormalised messages of a loopy graph has grown so far that rounding errors matter."""
    items = [read(c.factor) for c in clusters(cg)] + [read(p.next_message.factor) for p in paths(cg)]
    return magnitude(*items) > SCALE_LIMIT


def process(ctx, cg, **kw):
    """process_graph; False if the graph left the numerical domain (known finding 'loopy-scale')."""
    try:
        cg.process_graph(**kw)
    except ValueError as exc:
        if "Negative KLD" in str(exc) and not is_forest(cg) and blown_up(cg):
            ctx.count("loopy_scale_out_of_domain")
            return False
        raise
    if not is_forest(cg) and blown_up(cg):
        ctx.count("loopy_scale_out_of_domain")
        return False
    return True


def loopy_scale_finding(ctx):
    """The known history: four frustrated binary variables, default arguments."""
    from veroku.cluster_graph import ClusterGraph
    from veroku.factors.categorical import Categorical

    facs = []
    for i in range(4):
        for j in range(i + 1, 4):
            logs = np.array([[0.0, 4.0], [4.0, 0.0]]) + 0.1 * i * np.array([[0, 0], [1, 1]])
            facs.append(Categorical(var_names=[f"x{i}", f"x{j}"], log_probs_tensor=logs))
    cg = ClusterGraph(facs, disable_tqdm=True)
    ctx.count("known_histories")
    try:
        cg.process_graph()
        failed = magnitude(*beliefs(cg).values()) > 1e12
    except ValueError as exc:
        failed = "Negative KLD" in str(exc)
    if failed:
        ctx.violate("loopy-scale:frustrated-k4", "unnormalised messages of a loopy graph grow exponentially in log scale, until "
                    "process_graph raises ValueError (negative KLD) or beliefs are rounding noise")
