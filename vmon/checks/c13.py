"""C13: the greedy schedule and its termination accounting are as documented."""
import numpy as np

from vmon import graphs, models, refs

NUM = 13
RULE = ("trace-specification checker: before every delivery inside process_graph the information gains of all paths are recomputed "
        "from the clusters' current potentials and the messages delivered so far; checked are the choice, the content, the stop "
        "rule, counter, distances and debug log over repeated calls; non-trivial: at least two messages; distinct by message trace")
COUNTS = {"quick": 2200, "thorough": 50000}
REQUIRED = {"messages": 9000, "greedy_choices": 9000, "calls": 1300, "stops_by_tolerance": 400, "stops_by_cap": 150,
            "repeated_calls": 400, "debug_logs": 300, "several_candidates": 3000, "loopy_graphs": 150, "gaussian_graphs": 100,
            "no_path_graphs": 20}


def case(ctx):
    rng = ctx.rng
    kind = str(rng.choice(["dense", "dense", "sparse", "gaussian"]))
    loopy = rng.random() < 0.45
    if kind == "gaussian":
        model = models.gaussian(ctx, loopy=loopy, linear=False, size=6, strength=0.2 if loopy else 1.0, long=0.06)
    else:
        model = models.discrete(ctx, kind, loopy=loopy, zero=float(rng.choice([0.0, 0.0, 0.2])), size=9,
                                hi=3, evidence=0.2, long=0.06, kinds=["nearly", "normal"] if rng.random() < 0.2 else None)
    if model is None:
        ctx.count("rejected_models")
        return
    with graphs.recording() as events:
        cg = model.graph()
        monitor = Monitor(ctx, model, cg, events, kind)
        if not graphs.paths(cg):
            ctx.count("no_path_graphs")
        ctx.count("loopy_graphs", int(not graphs.is_forest(cg)))
        ctx.count("gaussian_graphs", int(kind == "gaussian"))
        if rng.random() < 0.25 and graphs.paths(cg):
            graphs.random_schedule(ctx, cg, int(rng.integers(1, 6)))
        for call in range(int(rng.integers(1, 4))):
            tol = float(rng.choice([1e-3, 1e-3, 1e-1, 1e-6, 1.0, 0.0, 1e-9]))
            max_iter = int(rng.choice([0, 1, 1, 1, 2, 3, 4, 8]))
            if call and graphs.paths(cg) and rng.random() < 0.5:
                ctx.count("messages_by_hand_in_between")
                graphs.random_schedule(ctx, cg, int(rng.integers(1, 5)))
            debug = bool(rng.random() < 0.5)
            ctx.count("repeated_calls", int(call > 0))
            if not monitor.call(tol, max_iter, debug):
                return
    if len(events.log) > 1:
        ctx.sig(kind, sorted(map(sorted, graphs.edges(cg))), [(s, r, np.round(m.g if isinstance(m, refs.GRef) else m.logs.sum(), 3)
                                                               ) for s, r, m in events.log])
    ctx.sample(f"{graphs.describe(cg)}\n{[(s, r) for s, r, _ in events.log][:14]}")


class Monitor:
    """Follows one graph."""

    def __init__(self, ctx, model, cg, events, kind):
        self.ctx, self.model, self.cg, self.events, self.kind = ctx, model, cg, events, kind
        self.paths = [(p.sender_cluster, p.receiver_cluster.cluster_id) for p in graphs.sorted_paths(cg)]
        self.total = 0       # messages sent by process_graph
        self.debug_log = []  # what passed_messages should be

    def message(self, sender, receiver):
        """The pending message according to the current potentials."""
        b = graphs.read(sender.factor)
        if not set(sender.get_sepset(receiver)) <= set(b.names):
            return b
        m = b.marg(sender.get_sepset(receiver))
        back = self.events.last.get((receiver, sender.cluster_id))
        if back is None:
            return m
        return m.cancel(back) if isinstance(m, refs.Tab) else m.div(back)

    def gains(self):
        out = {}
        for sender, receiver in self.paths:
            m = self.message(sender, receiver)
            prev = self.events.last.get((sender.cluster_id, receiver))
            out[(sender.cluster_id, receiver)] = (gain(prev, m), m)
        return out

    def call(self, tol, max_iter, debug):
        ctx, cg, events = self.ctx, self.cg, self.events
        from veroku._cg_helpers._cluster import Cluster

        start = len(events.log)
        trace = []      # per message: (max gain before, gain of the chosen, key)
        state = {"ok": True, "gains": self.gains() if self.paths else {}}
        hooked = Cluster.__dict__["receive_message"]
        names = {c.cluster_id for c in graphs.clusters(cg)}

        def receive_message(cluster, message, *args, **kwargs):
            res = hooked(cluster, message, *args, **kwargs)
            if cluster.cluster_id not in names:
                return res
            key = (message.sender_id, cluster.cluster_id)
            ctx.count("messages")
            gs = state["gains"]
            if not ctx.check(key in gs, "message-along-no-path", lambda: f"{key}"):
                state["ok"] = False
                return res
            best = max(g for g, _ in gs.values())
            mine, want = gs[key]
            ctx.count("greedy_choices")
            ctx.count("several_candidates", int(sum(g > tol for g, _ in gs.values()) > 1))
            trace.append((best, mine, key))
            got = events.log[-1][2]
            # (gains are rounded relative to the size of the messages, which are not normalised)
            noise = 1e-10 + 1e-13 * graphs.magnitude(*events.last.values(), *graphs.beliefs(cg).values())
            state["ok"] &= ctx.check(mine >= best - (noise + 1e-7 * (best if np.isfinite(best) else 1.0)) if np.isfinite(best)
                                     else mine == best, "not-the-most-informative-message", lambda: self.info() +
                                     f"\nsent {key} of gain {mine}, available {({k: g for k, (g, _) in gs.items()})}")
            scale = graphs.magnitude(got, want)
            state["ok"] &= ctx.check(_same(got, want, scale), "stale-or-wrong-message", lambda: self.info() +
                                     f"\nsent {key} {graphs.fmt(got)}\nbut the potentials give {graphs.fmt(want)}")
            state["gains"] = self.gains()
            return res
        before_passed = len(cg.passed_messages)
        before_count = cg.num_messages_passed
        cg.debug = debug
        Cluster.receive_message = receive_message
        try:
            cg.process_graph(tol=tol, max_iter=max_iter)
        finally:
            Cluster.receive_message = hooked
        ctx.count("calls")
        n = len(events.log) - start
        dist = list(cg.sync_message_passing_max_distances)

        def info():
            return self.info() + f"\ntol {tol} max_iter {max_iter}: {n} messages, distances {dist}\ntrace {trace[-8:]}"
        cap = max_iter * len(self.paths)
        ok = state["ok"]
        ok &= ctx.check(n <= cap, "more-messages-than-allowed", info)
        ok &= ctx.check(cg.num_messages_passed - before_count == n, "message-counter", lambda: info() +
                        f"\ncounter {before_count} -> {cg.num_messages_passed}")
        ok &= ctx.check(len(dist) == n, "number-of-distances", info)
        # recorded distances are the largest remaining gains after every message
        after = [t[0] for t in trace[1:]] + ([max(g for g, _ in state["gains"].values())] if trace else [])
        for d, want in zip(dist, after):
            ok &= ctx.check(_num(d, want), "recorded-distance", lambda: info() + f"\nrecorded {d} expected {want}")
            if not ok:
                break
        if dist:
            ok &= ctx.check(all(d > tol for d in dist[:-1]), "continued-after-convergence", info)
            by_tol = dist[-1] <= tol
            ctx.count("stops_by_tolerance", int(by_tol))
            ctx.count("stops_by_cap", int(not by_tol))
            ok &= ctx.check(by_tol or n == cap, "stopped-early", info)
        elif cap:
            ok &= ctx.check(False, "no-message-sent", info)
        # the debug log
        log = cg.passed_messages
        sent = events.log[start:]
        if debug:
            ctx.count("debug_logs")
            ok &= ctx.check(len(log) - before_passed == n, "debug-log-length", info)
            for m, (s, r, ref) in zip(log[before_passed:], sent):
                got = graphs.read(m.factor)
                ok &= ctx.check((m.sender_id, m.receiver_id) == (s, r) and _same(got, ref, 1.0), "debug-log-content",
                                lambda: info() + f"\nlogged {m.sender_id}->{m.receiver_id} {graphs.fmt(got)}\nsent {s}->{r} "
                                f"{graphs.fmt(ref)}")
                if not ok:
                    break
        else:
            ok &= ctx.check(len(log) == before_passed, "debug-log-without-debug", info)
        return ok

    def info(self):
        return (f"{self.kind} {self.model.describe()}\n{graphs.describe(self.cg)}\n"
                f"sent so far {[(s, r) for s, r, _ in self.events.log][-10:]}")


def gain(prev, m):
    if prev is None:
        if isinstance(m, refs.GRef):
            return 0.0 if np.allclose(m.K, 0) else np.inf
        u = refs.Tab(m.names, np.zeros(m.logs.shape))
        return max(0.0, m.kl(u))
    return max(0.0, prev.kl(m))


def _num(a, b):
    if np.isinf(a) or np.isinf(b):
        return a == b
    return abs(a - b) <= 1e-6 + 1e-5 * abs(b)


def _same(a, b, scale):
    if set(a.names) != set(b.names):
        return False
    if isinstance(a, refs.GRef):
        return refs.grefs_close(a, b, rtol=1e-6, atol=1e-6)
    return refs.tabs_close(a, b, rtol=1e-8, atol=1e-8 * scale)
