"""C03: the sparse categorical is observationally equivalent to the dense one (differential programs)."""
import numpy as np

from vmon import gen, refs

NUM = 3
RULE = ("random programs of 3-12 factor operations run in lockstep on dense and sparse factors holding the same tables "
        "(random sets of implicit entries, explicit zeros, default log probabilities), every intermediate result compared "
        "entrywise with each other and with the reference; non-trivial: the program used an implicit entry; distinct by "
        "operation sequence, shapes and zero/implicit patterns")
COUNTS = {"quick": 12000, "thorough": 300000}
REQUIRED = {"many_variables": 150, "ops": 10000, "op_multiply": 500, "op_cancel": 500, "op_divide": 400, "op_marginalize": 500, "op_reduce": 500, "op_kl": 300,
            "op_normalize": 300, "op_potential": 300, "op_argmax": 300, "op_dfv": 300, "op_equals": 300, "op_weight": 300,
            "implicit_operands": 1000}
TOL = dict(rtol=1e-9, atol=1e-8)
OPS = ["multiply", "multiply", "cancel", "divide", "marginalize", "reduce", "normalize", "reorder", "copy", "kl", "dfv", "argmax",
       "equals", "potential", "weight"]


def num_close(a, b, tol=1e-8):
    a, b = float(a), float(b)
    return a == b or abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def case(ctx):
    rng = ctx.rng
    pool = gen.names(rng, 4)
    cds = gen.cards(rng, pool, hi=3)
    live = []  # (tab, dense, sparse)
    most = 3
    if rng.random() < 0.04:
        ctx.count("many_variables")
        pool, cds = gen.many(rng, 6, 10, 128)
        most = len(pool) - 2

    def fresh(nms, zero):
        tab, default = gen.sparse_tab(rng, nms, cds, zero, str(rng.choice(["normal", "uniform", "dup", "peaked"])), near=0.25)
        d, s = gen.make_dense(rng, tab), gen.make_sparse(rng, tab, default)
        if len(s.log_probs_table) < tab.logs.size:
            ctx.count("implicit_operands")
        return tab, d, s

    for _ in range(3):
        live.append(fresh(gen.subset(rng, pool, 1, most), float(rng.choice([0, 0.3, 0.6]))))
    trace = []
    implicit = any(len(s.log_probs_table) < t.logs.size for t, _, s in live)
    for _ in range(int(rng.integers(3, 13))):
        op = str(rng.choice(OPS))
        i, j = int(rng.integers(len(live))), int(rng.integers(len(live)))
        tab, d, s = live[i]
        tb, db, sb = live[j]
        new = None
        if op == "multiply":
            new = tab.mul(tb), d.multiply(db), s.multiply(sb)
            if new[0].logs.size > 200 or np.abs(new[0].logs[np.isfinite(new[0].logs)]).max(initial=0) > 300:
                continue
        elif op == "cancel":
            w = tab.cancel(tb)
            if np.isposinf(w.logs).any():  # x/0: take the product first, as message passing does
                tab, d, s = tab.mul(tb), d.multiply(db), s.multiply(sb)
                w = tab.cancel(tb)
                if w.logs.size > 200:
                    continue
            new = w, d.cancel(db), s.cancel(sb)
        elif op == "divide":
            # by a factor without zeros (x/0 is not specified), whose implicit entries have the same value as those of the
            # numerator (different ones are documented as not supported)
            nms = gen.subset(rng, pool, 1, 3)
            logs = gen.log_table(rng, [cds[v] for v in nms], 0.0, str(rng.choice(["normal", "uniform", "dup"])))
            if np.isfinite(s.default_log_prob):
                logs = np.where(rng.random(logs.shape) < 0.4, s.default_log_prob, logs)
            tb = refs.Tab(nms, logs)
            db, sb = gen.make_dense(rng, tb), gen.make_sparse(rng, tb, s.default_log_prob)
            w = tab.div(tb)
            if w.logs.size > 200 or np.abs(w.logs[np.isfinite(w.logs)]).max(initial=0) > 300:
                continue
            new = w, d.divide(db), s.divide(sb)
        elif op == "marginalize":
            keep = gen.subset(rng, tab.names, 0 if rng.random() < 0.1 else 1)
            if rng.random() < 0.5:
                new = tab.marg(keep), d.marginalize(list(keep)), s.marginalize(list(keep))
            else:
                out = [v for v in tab.names if v not in keep]
                new = tab.marg(keep), d.marginalize(list(out), keep=False), s.marginalize(list(out), keep=False)
        elif op == "reduce":
            if not tab.names:
                continue
            obs = gen.subset(rng, tab.names, 1)
            vals = [int(rng.integers(cds[v])) for v in obs]
            new = tab.reduce(dict(zip(obs, vals))), d.reduce(list(obs), gen.values(rng, vals)), s.reduce(list(obs), gen.values(rng, vals))
        elif op == "normalize":
            if tab.log_mass() == refs.NEG:
                continue
            new = tab.norm(), d.normalize(), s.normalize()
        elif op == "reorder":
            o = gen.perm(rng, tab.names)
            new = tab.order(o), d.reorder(list(o)), s.reorder(list(o))
            ctx.check(list(new[1].var_names) == o and list(new[2].var_names) == o, "reorder:names",
                      lambda: f"{o}: {new[1].var_names} {new[2].var_names}")
        elif op == "copy":
            new = tab, d.copy(), s.copy()
        elif op in ("kl", "equals"):
            # a partner over the same scope
            if rng.random() < 0.5 and tab.names:
                o = gen.perm(rng, tab.names)
                tb, db, sb = fresh(o, float(rng.choice([0, 0.2])))
            else:
                eps = 0.0 if rng.random() < 0.5 else 0.3
                t2 = tab.logs.copy()
                if eps and t2.size:
                    at = tuple(int(rng.integers(x)) for x in t2.shape)
                    t2[at] = t2[at] + eps if np.isfinite(t2[at]) else -1.0
                tb = refs.Tab(tab.names, t2)
                tb = tb.order(gen.perm(rng, tb.names))
                db, sb = gen.make_dense(rng, tb, how="tensor"), gen.make_sparse(rng, tb, how="logs")
            if op == "kl":
                if tab.log_mass() == refs.NEG or tb.log_mass() == refs.NEG or not tab.names:
                    continue
                a, b, w = d.kl_divergence(db), s.kl_divergence(sb), tab.kl(tb)
                ctx.check(num_close(a, b) and num_close(a, w), "kl",
                          lambda: f"{refs.fmt(tab)}\n{refs.fmt(tb)}\ndense {a} sparse {b} reference {w}")
            else:
                if refs.tabs_close(tab, tb, rtol=1e-3, atol=1e-3) and not refs.tabs_close(tab, tb, rtol=1e-9, atol=1e-9):
                    continue  # neither clearly the same nor clearly different
                a, b = d.equals(db), s.equals(sb)
                w = refs.tabs_close(tab, tb, rtol=1e-7, atol=1e-7)
                ctx.check(bool(a) == bool(b) == w, "equals",
                          lambda: f"{refs.fmt(tab)}\n{refs.fmt(tb)}\ndense {a} sparse {b} reference {w}")
        elif op == "dfv":
            if tab.log_mass() == refs.NEG or not tab.names:
                continue
            u = refs.Tab(tab.names, np.zeros(tab.logs.shape))
            a, b, w = d.distance_from_vacuous(), s.distance_from_vacuous(), tab.kl(u)
            ctx.check(num_close(a, b) and num_close(a, w), "distance_from_vacuous",
                      lambda: f"{refs.fmt(tab)}\ndense {a} sparse {b} reference {w}")
        elif op == "argmax":
            if tab.log_mass() == refs.NEG:
                continue
            a, b = tuple(int(x) for x in d.argmax()), tuple(int(x) for x in s.argmax())
            ctx.check(num_close(tab.order(d.var_names).logs[a], tab.logs.max())
                      and num_close(tab.order(s.var_names).logs[b], tab.logs.max()), "argmax",
                      lambda: f"{refs.fmt(tab)}\ndense {a} sparse {b}")
        elif op == "potential":
            o = gen.perm(rng, tab.names)
            vals = [int(rng.integers(cds[v])) for v in o]
            a, b = d.potential(list(o), list(vals)), s.potential(list(o), list(vals))
            w = np.exp(tab.order(o).logs[tuple(vals)])
            ctx.check(num_close(a, b) and num_close(a, w), "potential",
                      lambda: f"{refs.fmt(tab)}\nat {o} {vals}: dense {a} sparse {b} reference {w}")
        elif op == "weight":
            b, w = s.weight, np.exp(tab.log_mass())
            ctx.check(num_close(b, w), "weight", lambda: f"{refs.fmt(tab)}\nsparse weight {b} reference {w}")
        ctx.count("ops")
        ctx.count(f"op_{op}")
        trace.append(op)
        if new is not None:
            w, nd, ns = new
            gd, gs = refs.tab_of(nd), refs.tab_of(ns)
            ctx.check(refs.tabs_close(gd, w, **TOL), f"dense:{op}",
                      lambda: f"{trace}\n{refs.fmt(tab)} (with {refs.fmt(tb)})\ngot {refs.fmt(gd)}\nexpected {refs.fmt(w)}")
            ctx.check(refs.tabs_close(gs, w, **TOL), f"sparse:{op}",
                      lambda: f"{trace}\n{refs.fmt(tab)} (with {refs.fmt(tb)})\ngot {refs.fmt(gs)}\nexpected {refs.fmt(w)}")
            ctx.check(refs.tabs_close(gs, gd, **TOL), f"differ:{op}", lambda: f"{trace}")
            # restart from the exact values now and then would hide accumulated drift: keep the real results
            if np.isnan(w.logs).any() or np.isposinf(w.logs).any():
                continue
            live.append((w, nd, ns))
            if len(live) > 6:
                live.pop(0)
    if implicit:
        ctx.sig(tuple(trace), tuple(cds[v] for v in pool))
    ctx.sample(f"{trace} on {[(t.names, t.logs.shape) for t, _, _ in live]}")
