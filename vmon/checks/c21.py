"""C21: tabular views, argmax and assignment names agree with the table."""
import contextlib
import io

import numpy as np

from vmon import gen, graphs, models, refs

NUM = 21
RULE = ("every view (potential in permuted orders, dense array, indexed and named data frame, printed table, bar plot, argmax and named "
        "argmax) of real factors is read back into a table and compared with the reference, along generated programs whose expected "
        "assignment names are tracked by a monitor, inside cluster graphs too; conflicting names must be rejected; non-trivial: at least "
        "two entries; distinct by scope, names, values and program")
COUNTS = {"quick": 2500, "thorough": 40000}
REQUIRED = {"views": 1500, "named_views": 900, "sparse_views": 200, "programs": 600, "program_steps": 1800, "conflicts": 300,
            "graph_names": 100, "plots": 60, "potentials": 8000, "scalar_factors": 10}


def case(ctx):
    kind = str(ctx.rng.choice(["dense", "dense", "sparse", "program", "program", "conflict", "graph"]))
    {"dense": dense, "sparse": sparse, "program": program, "conflict": conflict, "graph": graph}[kind](ctx)


def names_pool(rng, card, v):
    """Assignment names of one of several kinds."""
    kind = str(rng.choice(["str", "int", "float", "mixed", "reversed", "tuple", "shared"]))
    if kind == "str":
        return [f"{v}={i}" for i in gen.perm(rng, range(card))]
    if kind == "int":
        return [int(x) for x in rng.choice(50, card, replace=False) - 10]
    if kind == "float":
        return [float(x) / 4 for x in rng.choice(50, card, replace=False)]
    if kind == "mixed":
        return gen.perm(rng, ["yes", 3, 0.5, "no", -2, "1"] + [f"more {i}" for i in range(card - 6)])[:card]
    if kind == "reversed":
        return list(range(card))[::-1]
    if kind == "tuple":
        return [(i, "t") for i in gen.perm(rng, range(card))]
    return gen.perm(rng, ["low", "mid", "high", "peak", "x", "y"] + [str(i) for i in range(card - 6)])[:card]


def make(ctx, nms, cds, anames=None, zero=0.2):
    t = refs.Tab(nms, gen.log_table(ctx.rng, [cds[v] for v in nms], zero))
    return gen.make_dense(ctx.rng, t, anames), t


def close(p, logv):
    """Probability p as shown, against the log value."""
    with np.errstate(all="ignore"):
        want = float(np.exp(logv))
    p = float(p)
    return p == want or abs(p - want) <= 1e-9 * abs(want)


def read_rows(rows, t, to_index):
    """Table read back from rows (assignment, prob). None if an assignment is missing, unknown or repeated."""
    seen = {}
    for a, p in rows:
        try:
            idx = tuple(to_index[n][x] for n, x in zip(t.names, a))
        except (KeyError, TypeError):
            return None
        if idx in seen:
            return None
        seen[idx] = p
    return seen if len(seen) == t.logs.size else None


def index_maps(t, anames):
    return {n: {x: i for i, x in enumerate(anames[n])} for n in t.names}


def check_views(ctx, f, t, anames, info, mech=""):
    """All views of the dense factor f against the reference t (in f's order) and the expected names."""
    rng = ctx.rng
    ctx.count("views")
    ctx.count("named_views", int(anames != {n: tuple(range(c)) for n, c in t.cards.items()}))
    ctx.count("scalar_factors", int(not t.names))
    if not ctx.check(list(f.var_names) == t.names, mech + "scope", info):
        return
    # assignment names
    got = {k: tuple(v) for k, v in f.vars_assignments_names_dict.items()}
    ctx.check(got == anames, mech + "assignment-names", lambda: info() + f"\ngot {got}\nwanted {anames}")
    # potential in any order
    every = list(np.ndindex(*t.logs.shape))
    for k in rng.permutation(len(every))[:8]:
        a = dict(zip(t.names, every[int(k)]))
        o = gen.perm(rng, t.names)
        p = np.asarray(f.potential(o, [a[n] for n in o])).item()
        ctx.count("potentials")
        ctx.check(close(p, t.logs[every[int(k)]]), mech + "potential", lambda: info() + f"\n{a} in order {o}: {p}")
    plain = {n: {float(i): i for i in range(c)} for n, c in t.cards.items()}
    arr = np.asarray(f.dense_distribution_array)
    ctx.check(arr.shape == (t.logs.size, len(t.names) + 1), mech + "array-shape", lambda: info() + f"\n{arr.shape}")
    table = read_rows([(tuple(float(x) for x in r[:-1]), r[-1]) for r in arr], t, plain)
    ctx.check(table is not None and all(close(p, t.logs[a]) for a, p in table.items()), mech + "array", lambda: info() + f"\n{arr}")
    if "prob" not in t.names:
        for named in (False, True):
            df = f.get_df(named_assignments=named)
            ctx.check(list(df.columns) == t.names + ["prob"], mech + "df-columns", lambda: info() + f"\n{list(df.columns)}")
            rows = [(tuple(row[:-1]), row[-1]) for row in df.itertuples(index=False, name=None)]
            table = read_rows(rows, t, index_maps(t, anames) if named else plain)
            ctx.check(table is not None and len(rows) == t.logs.size and all(close(p, t.logs[a]) for a, p in table.items()),
                      mech + ("df-named" if named else "df"), lambda: info() + f"\n{df}")
    printed(ctx, f, t, info, mech, every=True)
    am = tuple(int(x) for x in f.argmax())
    best = t.logs.max() if t.logs.size else None
    ok = len(am) == len(t.names) and all(0 <= x < s for x, s in zip(am, t.logs.shape)) and t.logs[am] == best
    ctx.check(ok, mech + "argmax", lambda: info() + f"\nargmax {am}")
    if ok:
        nm = list(f.argmax_assignment_names())
        want = [anames[n][x] for n, x in zip(t.names, am)]
        idx = None
        if len(nm) == len(t.names):
            maps = index_maps(t, anames)
            idx = tuple(maps[n].get(x, -1) for n, x in zip(t.names, nm))
        ctx.check(idx is not None and -1 not in idx and t.logs[idx] == best, mech + "argmax-names",
                  lambda: info() + f"\n{nm} wanted {want}")


def printed(ctx, f, t, info, mech, every):
    """The printed table, read back."""
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        f.show()
    text = buf.getvalue()
    ctx.check(text.strip() == repr(f).strip(), mech + "show-differs", info)
    lines = [ln for ln in text.split("\n") if ln.strip()]
    # blanks and tabs in names cannot be told from the spacing between the columns
    head = [x for x in lines[0].split("\t") if x.strip()]
    ctx.check(head == [x for v in t.names for x in v.split("\t") if x.strip()] + ["prob"], mech + "printed-header", lambda: info() + f"\n{head}")
    seen = {}
    ok = True
    for ln in lines[1:]:
        cells = [x for x in ln.split("\t") if x]
        a = tuple(int(x) for x in cells[:-1])
        ok = ok and len(a) == len(t.names) and a not in seen and all(0 <= x < s for x, s in zip(a, t.logs.shape))
        if not ok:
            break
        with np.errstate(all="ignore"):
            want = float(np.exp(t.logs[a]))
        p = float(cells[-1])
        ok = p == want or abs(p - want) <= 5.1e-5 + 1e-9 * abs(want)
        seen[a] = p
    if ok and every:
        ok = len(seen) == t.logs.size
    ctx.check(ok, mech + "printed", lambda: info() + f"\n{text[:1500]}")
    return seen


def dense(ctx):
    rng = ctx.rng
    n = int(rng.integers(0, 4)) if rng.random() < 0.15 else int(rng.integers(1, 4))
    nms = gen.names(rng, n)
    cds = gen.cards(rng, nms)
    anames = {v: tuple(names_pool(rng, cds[v], v)) for v in nms} if rng.random() < 0.7 else None
    if n == 0:
        f, t = make(ctx, ["zz"], {"zz": 2})
        f, t = f.reduce(["zz"], [1]), t.reduce({"zz": 1})
        anames = {}
    else:
        f, t = make(ctx, nms, cds, anames)
    anames = anames if anames is not None else {v: tuple(range(cds[v])) for v in nms}

    def info():
        return f"{refs.fmt(t)}\nnames {anames}"
    check_views(ctx, f, t, anames, info)
    if n and "prob" not in nms and "assignment" not in nms and rng.random() < 0.35 and t.logs.size <= 20:
        with np.errstate(all="ignore"):
            if np.all(np.exp(t.logs) < 1e100):
                plot(ctx, f, t, anames, info)
    if t.logs.size > 1:
        ctx.sig("dense", nms, str(anames), np.round(t.logs, 5).tobytes())
    ctx.sample(info())


def plot(ctx, f, t, anames, info):
    import matplotlib.pyplot as plt

    plt.close("all")
    f.plot()
    ax = plt.gca()
    bars = [float(p.get_width()) for p in ax.patches]
    labels = [x.get_text() for x in ax.get_yticklabels()]
    ctx.count("plots")

    def text(x):
        return f"{x:.2f}" if isinstance(x, float) else str(x)
    # the data frame of a plot may hold integers and floats of one column as floats
    got, want = [], []
    for b in bars:
        got.append(round(b, 9))
    for a in np.ndindex(*t.logs.shape):
        want.append(round(float(np.exp(t.logs[a])), 9))
    ok = len(bars) == t.logs.size and np.allclose(sorted(got), sorted(want), rtol=1e-6, atol=1e-9)
    ctx.check(ok, "plot-bars", lambda: info() + f"\n{bars}")
    if all(all(isinstance(x, str) for x in anames[n]) for n in t.names) and len(labels) == len(bars):
        table = {", ".join(anames[n][i] for n, i in zip(t.names, a)): float(np.exp(t.logs[a])) for a in np.ndindex(*t.logs.shape)}
        ok = set(labels) == set(table) and all(abs(table[lb] - b) <= 1e-9 + 1e-6 * abs(b) for lb, b in zip(labels, bars))
        ctx.check(ok, "plot-labels", lambda: info() + f"\n{labels}\n{bars}")
        ctx.count("plot_labels")
    plt.close("all")


def sparse(ctx):
    rng = ctx.rng
    nms = gen.names(rng, int(rng.integers(1, 4)))
    cds = gen.cards(rng, nms)
    t, d = gen.sparse_tab(rng, nms, cds, 0.4)
    f = gen.make_sparse(rng, t, d)
    if len(nms) > 1 and rng.random() < 0.6:
        op = str(rng.choice(["marg", "reduce", "reorder", "norm"]))
        if op == "marg":
            keep = gen.subset(rng, nms, 1)
            f, t = f.marginalize(list(keep), keep=True), t.marg(keep)
        elif op == "reduce":
            obs = gen.subset(rng, nms, 1, len(nms) - 1)
            ev = {v: int(rng.integers(cds[v])) for v in obs}
            f, t = f.reduce(list(ev), list(ev.values())), t.reduce(ev)
        elif op == "reorder":
            o = gen.perm(rng, nms)
            f, t = f.reorder(list(o)), t.order(o)
        else:
            f, t = f.normalize(), t.norm()
    t = t.order(list(f.var_names))

    def info():
        return f"sparse {refs.fmt(t)} default {d}\nexplicit {dict(list(f.log_probs_table.items())[:8])}"
    ctx.count("sparse_views")
    tol = dict(rtol=1e-9, atol=1e-9)

    def near(p, logv):
        with np.errstate(all="ignore"):
            want = float(np.exp(logv))
        return p == want or abs(p - want) <= 1e-8 * abs(want)
    for a in np.ndindex(*t.logs.shape):
        if t.logs.size > 8 and rng.random() < 0.5:
            continue
        o = gen.perm(rng, t.names)
        vals = dict(zip(t.names, a))
        p = float(f.potential(o, [vals[v] for v in o]))
        ctx.count("potentials")
        ctx.check(near(p, t.logs[a]), "sparse-potential", lambda: info() + f"\n{vals}: {p}")
    arr = np.asarray(f.dense_distribution_array)
    plain = {n: {float(i): i for i in range(c)} for n, c in t.cards.items()}
    table = read_rows([(tuple(float(x) for x in r[:-1]), r[-1]) for r in arr], t, plain) if arr.ndim == 2 else None
    ctx.check(table is not None and all(near(p, t.logs[a]) for a, p in table.items()), "sparse-array", lambda: info() + f"\n{arr}")
    shown = printed(ctx, f, t, info, "sparse-", every=False)
    explicit = {tuple(int(x) for x in a) for a in f.log_probs_table}
    ctx.check(set(shown) == explicit, "sparse-printed-rows", lambda: info() + f"\n{shown}")
    if np.isfinite(t.log_mass()):
        am = tuple(int(x) for x in f.argmax())
        ctx.check(len(am) == len(t.names) and refs.logs_close([t.logs[am]], [t.logs.max()], **tol), "sparse-argmax",
                  lambda: info() + f"\nargmax {am}")
        with np.errstate(all="ignore"):
            want = np.exp(t.log_mass())
        ctx.check(f.weight == want or abs(f.weight - want) <= 1e-8 * want, "sparse-weight", lambda: info() + f"\n{f.weight} {want}")
    if t.logs.size > 1:
        ctx.sig("sparse", nms, np.round(t.logs, 5).tobytes(), sorted(explicit))
    ctx.sample(info())


def program(ctx):
    """Names follow their variable and value through operations."""
    rng = ctx.rng
    nms = gen.names(rng, 5)
    cds = gen.cards(rng, nms, hi=3)
    anames = {v: tuple(names_pool(rng, cds[v], v)) for v in nms}
    f, t = make(ctx, gen.subset(rng, nms, 1, 3), cds, anames)
    ctx.count("programs")
    steps = []
    for _ in range(int(rng.integers(1, 7))):
        op = str(rng.choice(["copy", "reorder", "multiply", "divide", "cancel", "marginalize", "reduce", "normalize", "absorb"]))
        if op in ("multiply", "divide", "cancel", "absorb"):
            scope = gen.subset(rng, nms, 1, 3)
            if len(set(scope) | set(t.names)) > 4:
                continue
            g, u = make(ctx, scope, cds, anames, zero=0.0 if op == "divide" else 0.2)
            if op == "cancel":
                # domain: nothing but zeros is cancelled by zeros
                u = refs.Tab(u.names, np.where(u.logs == refs.NEG, 0.0, u.logs))
                g = gen.make_dense(rng, u, anames)
            f = getattr(f, op)(g)
            t = t.mul(u) if op in ("multiply", "absorb") else t.div(u) if op == "divide" else t.cancel(u)
        elif op == "copy":
            f = f.copy()
        elif op == "reorder":
            o = gen.perm(rng, t.names)
            f, t = f.reorder(list(o)), t.order(o)
        elif op == "marginalize" and t.names:
            keep = gen.subset(rng, t.names, 1)
            if rng.random() < 0.5:
                drop = [v for v in gen.perm(rng, t.names) if v not in keep]
                f, t = f.marginalize(drop, keep=False), t.marg([v for v in t.names if v in keep])
            else:
                f, t = f.marginalize(list(keep), keep=True), t.marg(keep)
        elif op == "reduce" and t.names:
            obs = gen.subset(rng, t.names, 0, max(0, len(t.names) - 1))
            ev = {v: int(rng.integers(cds[v])) for v in obs}
            red = t.reduce(ev)
            if not np.isfinite(red.log_mass()):
                continue
            f, t = f.reduce(list(ev), gen.values(rng, ev.values())), red
        elif op == "normalize" and np.isfinite(t.log_mass()):
            f, t = f.normalize(), t.norm()
        else:
            continue
        steps.append((op, list(f.var_names)))
        ctx.count("program_steps")
        if set(f.var_names) != set(t.names):
            ctx.violate("program-scope", str(steps))
            return
        now = refs.tab_of(f)
        if not refs.tabs_close(now, t, rtol=1e-9, atol=1e-9):
            ctx.violate("program-values", f"{steps}\n{refs.fmt(now)}\n{refs.fmt(t)}")
            return
        t = now
    want = {v: anames[v] for v in t.names}
    check_views(ctx, f, t, want, lambda: f"after {steps}\n{refs.fmt(t)}\nnames {want}", mech="program:")
    ctx.sig("program", tuple(s for s, _ in steps), str(want))
    ctx.sample(f"{steps} {want}")


def conflict(ctx):
    """Operands that name the values of a shared variable differently are rejected (different names or a different order)."""
    rng = ctx.rng
    nms = gen.names(rng, 4)
    cds = {v: int(rng.integers(2, 4)) for v in nms}
    anames = {v: tuple(names_pool(rng, cds[v], v)) for v in nms}
    a_scope, b_scope, _ = gen.overlap_scopes(rng, nms, 3)
    shared = [v for v in a_scope if v in b_scope]
    f, t = make(ctx, a_scope, cds, anames, zero=0.0)
    g, u = make(ctx, b_scope, cds, anames, zero=0.0)
    for op in ("multiply", "divide", "cancel"):
        r = getattr(f, op)(g)  # consistent names: allowed
        want = {v: anames[v] for v in r.var_names}
        got = {k: tuple(x) for k, x in r.vars_assignments_names_dict.items()}
        ctx.check(got == want, f"{op}-names", lambda: f"{a_scope} {op} {b_scope}\ngot {got}\nwanted {want}")
    if not shared:
        return
    v = shared[int(rng.integers(len(shared)))]
    other = dict(anames)
    how = str(rng.choice(["permuted", "one", "default"]))
    if how == "permuted":
        other[v] = anames[v][1:] + anames[v][:1]
    elif how == "one":
        k = int(rng.integers(cds[v]))
        other[v] = tuple("another" if i == k else x for i, x in enumerate(anames[v]))
    else:
        other[v] = tuple(range(cds[v]))
        if other[v] == anames[v]:
            return
    h = gen.make_dense(rng, u, other)
    for op in ("multiply", "divide", "cancel", "absorb"):
        for left, right in ((f, h), (h, f)):
            ctx.count("conflicts")
            try:
                r = getattr(left, op)(right)
            except Exception:  # pylint: disable=broad-except
                continue
            ctx.violate(f"conflict-accepted:{op}", f"{how}: {anames[v]} against {other[v]} of {v}\n{r.vars_assignments_names_dict}")
    ctx.sig("conflict", how, a_scope, b_scope, str(anames[v]))


def graph(ctx):
    """Posterior marginals of a cluster graph keep the names."""
    rng = ctx.rng
    scopes = gen.forest_scopes(rng, int(rng.integers(1, 5)), 3, 1)
    every = sorted({v for s in scopes for v in s})
    cds = gen.cards(rng, every, hi=3)
    anames = {v: tuple(names_pool(rng, cds[v], v)) for v in every}
    pairs = [make(ctx, s, cds, anames, zero=0.0) for s in scopes]
    from veroku.cluster_graph import ClusterGraph

    ev = {v: int(rng.integers(cds[v])) for v in every if rng.random() < 0.2}
    cg = ClusterGraph([p[0] for p in pairs], evidence=ev or None, disable_tqdm=True)
    if not graphs.is_forest(cg):
        return
    cg.process_graph(tol=0.0, max_iter=len(scopes) + 6)
    reduced = [p[1].reduce({v: e for v, e in ev.items() if v in p[1].names}) for p in pairs]
    for s in scopes:
        q = gen.perm(rng, [v for v in s if v not in ev])
        if not q:
            continue
        m = cg.get_marginal(list(q)).normalize()
        t = models.eliminate(reduced, q).norm()
        now = refs.tab_of(m)
        ok = now.names == q and np.allclose(np.exp(now.logs), np.exp(t.logs), atol=1e-7)
        ctx.count("graph_names")
        if ctx.check(ok, "graph-marginal", lambda: f"{refs.fmt(now)}\n{refs.fmt(t)}"):
            want = {v: anames[v] for v in q}
            check_views(ctx, m, now, want, lambda: f"marginal of {q} in graph of {scopes}\n{refs.fmt(now)}\nnames {want}",
                        mech="graph:")
    ctx.sig("graph", scopes, str(anames))
