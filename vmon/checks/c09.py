"""C09: cluster graphs are valid: running intersection, coverage, product kept."""
import numpy as np

from vmon import gen, graphs, models, refs

NUM = 9
RULE = ("real graphs built from generated factor lists (loopy, nested, duplicate, disconnected and empty scopes; dense, sparse and "
        "Gaussian; evidence and special evidence), read out and checked by a structural monitor and by the product of the cluster "
        "potentials; non-trivial: at least two clusters; distinct by scopes, evidence and the built edges")
COUNTS = {"quick": 8000, "thorough": 150000}
REQUIRED = {"graphs": 4000, "edges": 8000, "variable_trees": 8000, "nested_absorbed": 800, "evidence_graphs": 1000,
            "special_evidence_graphs": 300, "loops": 300, "fully_observed_factors": 150}


def scopes_of(ctx):
    rng = ctx.rng
    kind = str(rng.choice(["forest", "loopy", "dense", "chain", "nested", "dup", "star", "grid", "mixed", "single"]))
    if kind == "single":
        return [gen.subset(rng, gen.names(rng, 4), 1)], kind
    if kind == "forest":
        return gen.forest_scopes(rng, int(rng.integers(2, 12)), 3, int(rng.integers(1, 4))), kind
    if kind == "loopy":
        return gen.loopy_scopes(rng, int(rng.integers(2, 10 if rng.random() < 0.8 else 15)), int(rng.integers(2, 14 if rng.random() < 0.8 else 20)), 4)[0], kind
    if kind == "dense":
        return gen.loopy_scopes(rng, int(rng.integers(3, 6)), int(rng.integers(4, 12)), 4)[0], kind
    nms = gen.names(rng, 20)
    if kind == "chain":
        n = int(rng.integers(2, 10 if rng.random() < 0.7 else 16))
        w = int(rng.integers(2, 4))
        return gen.perm(rng, [gen.perm(rng, nms[i: i + w]) for i in range(n)]), kind
    if kind == "nested":
        big = nms[: int(rng.integers(3, 6))]
        out = [gen.subset(rng, big, 1) for _ in range(int(rng.integers(2, 9)))]
        chain = [gen.perm(rng, big[:k]) for k in range(1, len(big) + 1)]
        out += gen.subset(rng, chain, 1)
        if rng.random() < 0.5:
            out.append(big[:1] + nms[6:8])
        return gen.perm(rng, out), kind
    if kind == "dup":
        base = [gen.subset(rng, nms[:6], 1, 3) for _ in range(int(rng.integers(1, 4)))]
        return gen.perm(rng, [gen.perm(rng, b) for b in base for _ in range(int(rng.integers(1, 4)))]), kind
    if kind == "star":
        hub = nms[0]
        return gen.perm(rng, [gen.perm(rng, [hub] + nms[1 + 2 * i: 1 + 2 * i + int(rng.integers(1, 3))])
                              for i in range(int(rng.integers(2, 6)))]), kind
    if kind == "grid":
        out = []
        h, w = int(rng.integers(2, 4)), int(rng.integers(2, 4))
        g = [[nms[r * w + c] for c in range(w)] for r in range(h)]
        for r in range(h):
            for c in range(w):
                if r + 1 < h:
                    out.append([g[r][c], g[r + 1][c]])
                if c + 1 < w:
                    out.append(gen.perm(rng, [g[r][c], g[r][c + 1]]))
                if rng.random() < 0.3:
                    out.append([g[r][c]])
        return gen.perm(rng, out), kind
    out = gen.forest_scopes(rng, int(rng.integers(1, 5)), 3, 1, pool=0)
    out += gen.loopy_scopes(rng, int(rng.integers(2, 6)), int(rng.integers(1, 6)), 3, pool=4)[0]
    return gen.perm(rng, out), kind


def build(ctx, scopes, cls):
    rng = ctx.rng
    allv = sorted({v for s in scopes for v in s})
    cds = gen.cards(rng, allv, hi=3 if len(allv) < 9 else 2)
    items, facs = [], []
    for s in scopes:
        if cls == "gaussian":
            cov, mean, lw, ref = gen.gaussian_params(rng, s)
            items.append(ref)
            facs.append(gen.make_gaussian(rng, ref, cov, mean, lw))
        elif cls == "sparse":
            t, d = gen.sparse_tab(rng, s, cds, 0.2, kind="normal")
            items.append(t)
            facs.append(gen.make_sparse(rng, t, d))
        else:
            t = refs.Tab(s, gen.log_table(rng, [cds[v] for v in s], 0.1, "normal"))
            items.append(t)
            facs.append(gen.make_dense(rng, t))
    return allv, cds, items, facs


def value(rng, cls, cds, v):
    return float(rng.normal(0, 2)) if cls == "gaussian" else int(rng.integers(cds.get(v, 2)))


def case(ctx):
    from veroku.cluster_graph import ClusterGraph

    rng = ctx.rng
    cls = str(rng.choice(["dense", "dense", "sparse", "gaussian"]))
    scopes, kind = scopes_of(ctx)
    allv, cds, items, facs = build(ctx, scopes, cls)
    ev, sev = {}, {}
    if rng.random() < 0.4:
        pe = float(rng.choice([0.15, 0.4, 0.8]))
        ev = {v: value(rng, cls, cds, v) for v in gen.perm(rng, allv) if rng.random() < pe}
        if rng.random() < 0.3:  # observe a whole factor
            for v in scopes[int(rng.integers(len(scopes)))]:
                ev.setdefault(v, value(rng, cls, cds, v))
        if rng.random() < 0.2:  # evidence about something no factor mentions
            ev["not a variable of any factor"] = 0
    if rng.random() < 0.15:
        sev = {v: value(rng, cls, cds, v) for v in gen.subset(rng, [v for v in allv if v not in ev], 0, 2)}
    reduced = [t.reduce({v: x for v, x in ev.items() if v in t.names}) for t in items]
    if cls == "gaussian" and not all(models.integrable(r) for r in reduced):
        ctx.count("rejected_models")
        return
    kw = {}
    if ev or rng.random() < 0.3:
        kw["evidence"] = dict(ev)
    if sev:
        kw["special_evidence"] = dict(sev)
    cg = ClusterGraph(list(facs), disable_tqdm=True, **kw)
    ctx.count("graphs")
    ctx.count("evidence_graphs", bool(ev))
    ctx.count("special_evidence_graphs", bool(sev))
    ctx.count("fully_observed_factors", sum(not r.names for r in reduced))

    def info():
        return f"{cls} {kind} scopes={scopes} evidence={ev} special={sev}\n{graphs.describe(cg)}"
    cls_ = graphs.clusters(cg)
    got = [graphs.read(c.factor) for c in cls_]
    ids = [c.cluster_id for c in cls_]
    ctx.check(len(set(ids)) == len(ids), "cluster-ids-not-unique", info)
    # --- product and coverage
    if {n for x in got for n in x.names} != {n for x in reduced for n in x.names}:
        ctx.violate("product-scope", info())
        return
    ok, detail = _same_product(ctx, cls, cds, got, reduced)
    ctx.check(ok, "product", lambda: info() + detail)
    for c in cls_:
        ctx.check(len(set(c.var_names)) == len(list(c.var_names)), "duplicate-scope-variable", info)
        ctx.check(any(set(r.names) == set(c.var_names) for r in reduced), "cluster-scope-is-no-factor-scope", info)
        ctx.check(not set(c.var_names) & set(ev), "observed-variable-in-cluster", info)
    for r in reduced:
        ctx.check(any(set(r.names) <= set(c.var_names) for c in cls_), "factor-not-covered", info)
    ctx.count("nested_absorbed", len(facs) - len(cls_))
    # --- edges
    by_id = {c.cluster_id: c for c in cls_}
    edges = graphs.edges(cg)
    sep = {}
    for key, views in edges.items():
        ctx.count("edges")
        ok = len(key) == 2 and len(views) == 2 and set(views[0][2]) == set(views[1][2])
        if not ctx.check(ok, "edge-not-symmetric", lambda: info() + str(views)):
            return
        s = views[0][2]
        sep[key] = set(s)
        ctx.check(len(s) > 0 and len(set(s)) == len(s), "empty-or-duplicate-separator", info)
        ends = [by_id[i] for i in key]
        ctx.check(all(set(s) <= set(e.var_names) for e in ends), "separator-not-in-both-scopes", info)
        ctx.check(not set(s) & (set(ev) | set(sev)), "observed-variable-in-separator", info)
    # --- running intersection: per variable a tree over exactly the clusters that contain it
    for v in allv:
        if v in ev or v in sev:
            continue
        nodes = {c.cluster_id for c in cls_ if v in c.var_names}
        es = [key for key, s in sep.items() if v in s]
        ctx.count("variable_trees")
        ctx.check(len(es) == len(nodes) - 1 and _connected(nodes, es), "running-intersection",
                  lambda: info() + f"\nvariable {v!r}: clusters {sorted(nodes)}, edges {[sorted(e) for e in es]}")
    # --- message paths
    ps = graphs.paths(cg)
    keys = sorted(graphs.edge_key(p) for p in ps)
    want = sorted(p for key in edges for p in [tuple(sorted(key)), tuple(sorted(key, reverse=True))])
    ctx.check(keys == want, "message-paths", lambda: info() + f"\npaths {keys}")
    for p in ps:
        ok = by_id.get(p.sender_cluster.cluster_id) is p.sender_cluster and by_id.get(p.receiver_cluster.cluster_id) is p.receiver_cluster
        ctx.check(ok, "path-to-foreign-cluster", info)
        m = p.next_message
        s = sep.get(frozenset(graphs.edge_key(p)), set())
        ctx.check(set(m.var_names) == s and len(list(m.var_names)) == len(s) and
                  (m.sender_id, m.receiver_id) == graphs.edge_key(p), "pending-message-scope", info)
    loops = len(edges) - (len(cls_) - len(graphs.components(cg)))
    ctx.count("loops", int(loops > 0))
    if len(cls_) > 1:
        shape = sorted(tuple(sorted(allv.index(v) for v in s)) for s in scopes)
        ctx.sig(shape, sorted(allv.index(v) for v in ev if v in allv), sorted(map(sorted, edges)), cls)
    ctx.seen("graph_shapes", kind, len(cls_), len(edges), loops)
    ctx.sample(info())


def _connected(nodes, es):
    if not nodes:
        return not es
    reach = {sorted(nodes)[0]}
    grew = True
    while grew:
        grew = False
        for e in es:
            a, b = tuple(e)
            if (a in reach) != (b in reach):
                reach |= {a, b}
                grew = True
    return reach == nodes


def _same_product(ctx, cls, cds, got, want):
    if cls == "gaussian" or np.prod([float(cds[v]) for v in {n for x in want for n in x.names}]) <= 5000:
        a, b = graphs.prod(got), graphs.prod(want)
        return (graphs.close(a, b, graphs.magnitude(a, b), rtol=1e-9, atol=1e-9),
                f"\ngot {graphs.fmt(a)}\nwant {graphs.fmt(b)}")
    ctx.count("pointwise_products")
    for _ in range(40):  # at random joint assignments
        x = {v: int(ctx.rng.integers(c)) for v, c in cds.items()}
        a, b = [sum(float(t.logs[tuple(x[n] for n in t.names)]) for t in ts) for ts in (got, want)]
        if not refs.logs_close([a], [b]):
            return False, f"\nat {x}: {a}, expected {b}"
    return True, ""
