"""C10: belief update never changes the represented joint, under any schedule."""
import numpy as np

from vmon import graphs, models, refs

NUM = 10
RULE = ("online invariant monitor over every prefix of random (uniform, sweeping, repeating, starving) and greedy message schedules on "
        "real tree and loopy graphs: product of beliefs / product of last delivered messages == product of the reduced factors, and "
        "get_posterior_joint reports it; non-trivial: at least one message; distinct by edges, schedule and class")
COUNTS = {"quick": 4000, "thorough": 40000}
REQUIRED = {"prefixes": 9000, "joints_reported": 4000, "repeat_sends": 3000, "loopy_graphs": 250, "zero_models": 200,
            "gaussian_graphs": 200, "joint_before_any_message": 800, "joint_with_unused_paths": 500,
            "small_differences": 400}


def make(ctx):
    rng = ctx.rng
    kind = str(rng.choice(["dense", "dense", "sparse", "gaussian"]))
    loopy = rng.random() < 0.5
    if kind == "gaussian":
        return models.gaussian(ctx, loopy=loopy, size=6, strength=0.2 if loopy else 1.0, max_scope=3), kind
    zero = float(rng.choice([0.0, 0.0, 0.15, 0.3]))
    small = None  # messages that hardly differ from the previous ones
    if rng.random() < 0.3:
        small = ["nearly"] if rng.random() < 0.5 else ["nearly", "normal", "dup"]
        ctx.count("small_differences")
    m = models.discrete(ctx, kind, loopy=loopy, zero=zero, size=8 if loopy else 6, max_scope=3, hi=3 if rng.random() < 0.7 else 2, kinds=small)
    if m is not None and zero:
        ctx.count("zero_models")
    return m, kind


def case(ctx):
    rng = ctx.rng
    model, kind = make(ctx)
    if model is None:
        ctx.count("rejected_models")
        return
    reduced = model.reduced()
    if kind != "gaussian":
        cards = {v: c for t in reduced for v, c in t.cards.items()}
        if np.prod([float(c) for c in cards.values()]) > 4000:
            ctx.count("rejected_models")
            return
    want = graphs.prod(reduced)
    with graphs.recording() as events:
        cg = model.graph()
        loopy = not graphs.is_forest(cg)
        ctx.count("loopy_graphs", int(loopy))
        ctx.count("gaussian_graphs", int(kind == "gaussian"))
        sent = []

        def reported(mech):
            ctx.count("joints_reported")
            if not events.log:
                ctx.count("joint_before_any_message")
            elif len(events.last) < len(graphs.paths(cg)):
                ctx.count("joint_with_unused_paths")
            j = graphs.read(cg.get_posterior_joint())
            scale = _scale(cg, events)
            return ctx.check(_close(j, want, scale), mech, lambda: f"{model.describe()}\n{graphs.describe(cg)}\nsent {sent}\n"
                             f"joint {graphs.fmt(j)}\nwanted {graphs.fmt(want)}")

        def invariant(p=None):
            if p is not None:
                sent.append(graphs.edge_key(p))
                ctx.count("repeat_sends", int(sent.count(sent[-1]) > 1))
            bel = graphs.beliefs(cg)
            if not all(_wellposed(b) for b in bel.values()):
                ctx.count("stopped_ill_posed")
                return False
            ctx.count("prefixes")
            num = graphs.prod(bel.values())
            if events.last:
                den = graphs.prod(events.last.values())
                got = num.cancel(den) if isinstance(num, refs.Tab) else num.div(den)
            else:
                got = num
            scale = _scale(cg, events)
            ok = ctx.check(_close(got, want, scale), "invariant", lambda: f"{model.describe()}\n{graphs.describe(cg)}\nsent {sent}\n"
                           f"got {graphs.fmt(got)}\nwanted {graphs.fmt(want)}")
            if ok and rng.random() < 0.25:
                ok = reported("posterior-joint")
            return ok
        if not reported("posterior-joint-before"):
            return
        n = int(rng.integers(1, 4)) * max(1, len(graphs.paths(cg))) if graphs.paths(cg) else 0
        n = min(n, 40)
        mode = int(rng.integers(4))
        before = len(events.log)
        if mode == 3 and n:
            # close to convergence, where all the differences are small
            cg.process_graph(tol=float(rng.choice([1e-5, 1e-8])), max_iter=int(rng.integers(3, 12)))
            if not invariant():
                return
            graphs.random_schedule(ctx, cg, min(n, 15), invariant)
        elif mode == 0 and n:
            graphs.random_schedule(ctx, cg, n, invariant)
        elif mode == 1:
            for _ in range(int(rng.integers(1, 4))):
                cg.process_graph(tol=float(rng.choice([1e-1, 1e-6])), max_iter=1)
                if not invariant():
                    return
        elif n:
            graphs.random_schedule(ctx, cg, n // 2 + 1, invariant)
            cg.process_graph(tol=1e-3, max_iter=2)
            if not invariant():
                return
            graphs.random_schedule(ctx, cg, 3, invariant)
        else:
            cg.process_graph()
        if all(_wellposed(b) for b in graphs.beliefs(cg).values()):
            reported("posterior-joint-end")
    if len(events.log) > before:
        ctx.sig(kind, sorted(sorted(k) for k in graphs.edges(cg)), [(s, r) for s, r, _ in events.log])
    ctx.sample(f"{graphs.describe(cg)}\n{[(s, r) for s, r, _ in events.log][:12]}")


def _wellposed(b):
    if isinstance(b, refs.GRef):
        if not (np.all(np.isfinite(b.K)) and np.all(np.isfinite(b.h)) and np.isfinite(b.g)):
            return True  # never expected: let the invariant report it
        return not b.names or np.linalg.eigvalsh(b.K)[0] > 1e-4
    return True


def _scale(cg, events):
    return graphs.magnitude(*graphs.beliefs(cg).values(), *events.last.values())


def _close(a, b, scale):
    if set(a.names) != set(b.names):
        return False
    if isinstance(a, refs.GRef):
        a = a.order(b.names)
        tol = 1e-7 * max(1.0, scale)
        return all(np.all(np.abs(x - y) <= tol) for x, y in [(a.K, b.K), (a.h, b.h), (a.g, b.g)])
    return refs.tabs_close(a, b, rtol=1e-9, atol=1e-8 * scale)
