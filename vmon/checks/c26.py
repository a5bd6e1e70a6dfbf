"""C26: message passing can be stopped and resumed at any point."""
import contextlib

import numpy as np

from vmon import core, graphs, models

NUM = 26
RULE = ("interruption injection with a differential trace monitor: the same graph is processed once without interruption (every message "
        "and every belief after it recorded) and once in pieces - by tolerance, by message cap, by a KeyboardInterrupt raised at a "
        "chosen delivery - with reads and plots in between; messages, beliefs at every stop and counters are compared, and calls on a "
        "converged graph must not move beliefs; non-trivial: at least one stop inside a run; distinct by graph, trace and stops")
COUNTS = {"quick": 1800, "thorough": 60000}
REQUIRED = {"stops": 3000, "compared_messages": 8000, "compared_beliefs": 9000, "injected_interrupts": 500, "reads": 2000, "plots": 60,
            "converged_calls": 400, "loopy_graphs": 200, "gaussian_graphs": 100, "switched_tolerances": 200}


class Stop(KeyboardInterrupt):
    """The injected interruption."""


@contextlib.contextmanager
def interrupt_at(cg, k):
    """Raise just before the k-th message from now on is passed (the point where a user's ctrl-C is taken between two messages)."""
    cls = type(graphs.paths(cg)[0])
    original = cls.__dict__["pass_next_message"]
    left = [k]

    def pass_next_message(self, *args, **kwargs):
        if left[0] <= 0:
            raise Stop()
        left[0] -= 1
        return original(self, *args, **kwargs)
    cls.pass_next_message = pass_next_message
    try:
        yield
    except Stop:
        pass
    finally:
        cls.pass_next_message = original


@contextlib.contextmanager
def states(cg, limit):
    """Beliefs after every delivery (index = number of deliveries)."""
    from veroku._cg_helpers._cluster import Cluster

    original = Cluster.__dict__["receive_message"]
    out = [graphs.beliefs(cg)]
    mine = {id(c) for c in graphs.clusters(cg)}

    def receive_message(self, message, *args, **kwargs):
        res = original(self, message, *args, **kwargs)
        if id(self) in mine:
            if len(out) > limit:
                raise Stop()
            out.append({**out[-1], self.cluster_id: graphs.read(self.factor)})
        return res
    Cluster.receive_message = receive_message
    try:
        yield out
    except Stop:
        pass
    finally:
        Cluster.receive_message = original


def case(ctx):
    rng = ctx.rng
    kind = str(rng.choice(["dense", "dense", "sparse", "gaussian"]))
    loopy = rng.random() < 0.45
    if kind == "gaussian":
        model = models.gaussian(ctx, loopy=loopy, size=6, linear=False, strength=0.2 if loopy else 1.0, long=0.05)
    else:
        model = models.discrete(ctx, kind, loopy=loopy, zero=float(rng.choice([0.0, 0.2])), size=8, evidence=0.2, long=0.05,
                                kinds=["nearly", "normal"] if rng.random() < 0.2 else None)
    if model is None:
        raise core.Reject()
    one = model.graph()
    if not graphs.paths(one):
        raise core.Reject()
    two = model.graph()
    if layout(one) != layout(two):
        ctx.count("different_layouts")
        raise core.Reject()
    ctx.count("loopy_graphs", int(not graphs.is_forest(one)))
    ctx.count("gaussian_graphs", int(kind == "gaussian"))
    npaths = len(graphs.paths(one))
    limit = int(rng.integers(2, 4 * npaths + 2))
    # the uninterrupted run: tolerance zero stops only when nothing changes any more
    with graphs.recording(one) as whole, states(one, limit) as reference:
        graphs.process(ctx, one, tol=0.0, max_iter=6)
    total = len(reference) - 1
    if total < 1 or graphs.blown_up(one):
        raise core.Reject()
    style = str(rng.choice(["single", "single", "tolerances", "interrupt", "mixed", "mixed", "caps"]))
    stops = []
    counter = two.num_messages_passed
    with graphs.recording(two) as events:
        for _ in range(60):
            done = len(events.log)
            if done >= total:
                break
            how = style if style != "mixed" else str(rng.choice(["single", "tolerances", "interrupt", "caps"]))
            two.debug = bool(rng.random() < 0.2)
            before_call = two.num_messages_passed
            logged = len(two.passed_messages)
            if how == "single":
                two.process_graph(tol=np.inf, max_iter=int(rng.integers(1, 3)))
            elif how == "tolerances":
                ctx.count("switched_tolerances")
                two.process_graph(tol=float(10.0 ** rng.uniform(-6, 1)), max_iter=1)
            elif how == "caps":
                two.process_graph(tol=0.0, max_iter=1)
            else:
                ctx.count("injected_interrupts")
                with interrupt_at(two, int(rng.integers(0, total - done + 1))):
                    two.process_graph(tol=0.0, max_iter=6)
            now = len(events.log)
            stops.append(now)
            ctx.count("stops")
            if how != "interrupt":
                more = now - done if two.debug else 0
                if not ctx.check(len(two.passed_messages) == logged + more, "debug-log",
                                 lambda: f"{logged} logged messages before, {len(two.passed_messages)} after {now - done} (debug {two.debug})\n"
                                 + info(model, two, events, stops)):
                    return
                # (a call always sends its first message; with tolerance zero it goes on for a whole round of messages
                # unless nothing is left to be done)
                least = 1 if how in ("single", "tolerances") else min(npaths, total - done)
                if not ctx.check(now - done >= least, "no-progress", lambda: f"{how}: {now - done} of at least {least} messages\n"
                                 + info(model, two, events, stops)):
                    return
                ok = ctx.check(two.num_messages_passed - before_call == now - done, "counter",
                               lambda: f"{two.num_messages_passed} - {before_call} after {now - done} messages\n" + info(model, two, events, stops))
                ok &= ctx.check(len(two.sync_message_passing_max_distances) == now - done, "distances",
                                lambda: f"{two.sync_message_passing_max_distances}\n" + info(model, two, events, stops))
                if not ok:
                    return
            if not compare(ctx, model, two, events, whole, reference, stops, done):
                return
            if rng.random() < 0.5:
                reads(ctx, model, two)
    if style in ("single", "tolerances", "caps"):
        ctx.check(two.num_messages_passed - counter == len(events.log), "counter-total", lambda: info(model, two, events, stops))
    if min(stops) < total:
        ctx.sig(kind, layout(two), [(s, r) for s, r, _ in events.log], stops)
    ctx.sample(f"{style} stops at {stops}\n{graphs.describe(two)}")
    if rng.random() < 0.6:
        converged(ctx, model, two)


def layout(cg):
    return ([c.cluster_id for c in graphs.clusters(cg)], [graphs.edge_key(p) for p in graphs.paths(cg)],
            [(a, s) for key in graphs.edges(cg).values() for a, _, s in key])


def info(model, cg, events, stops):
    return f"stops {stops}\nmessages {[(s, r) for s, r, _ in events.log]}\n{graphs.describe(cg)}\n{model.describe()}"


def compare(ctx, model, cg, events, whole, reference, stops, start):
    """Everything since message number `start` against the uninterrupted run."""
    n = min(len(events.log), len(reference) - 1)
    for i in range(start, n):
        ctx.count("compared_messages")
        (s, r, m), (s0, r0, m0) = events.log[i], whole.log[i]
        if not ctx.check((s, r) == (s0, r0), "different-message", lambda: f"message {i}: {(s, r)}, uninterrupted {(s0, r0)}\n"
                         + info(model, cg, events, stops)):
            return False
        if not ctx.check(graphs.close(m, m0, scale=graphs.magnitude(m0)), "different-message-content", lambda: f"message {i}: "
                         f"{(s, r)} {graphs.fmt(m)}\nuninterrupted {graphs.fmt(m0)}\n" + info(model, cg, events, stops)):
            return False
    if len(events.log) <= len(reference) - 1:
        want = reference[len(events.log)]
        for cid, b in graphs.beliefs(cg).items():
            ctx.count("compared_beliefs")
            w = want[cid]
            if not ctx.check(graphs.close(b, w, scale=graphs.magnitude(w)), "different-belief", lambda: f"{cid} after "
                             f"{len(events.log)} messages {graphs.fmt(b)}\nuninterrupted {graphs.fmt(w)}\n" + info(model, cg, events, stops)):
                return False
    return True


def reads(ctx, model, cg):
    """Operations that only look."""
    rng = ctx.rng
    before = graphs.beliefs(cg)
    count = cg.num_messages_passed
    pending = {graphs.edge_key(p): graphs.read(p.next_message.factor) for p in graphs.paths(cg)}
    what = []
    for _ in range(int(rng.integers(1, 4))):
        ctx.count("reads")
        how = str(rng.choice(["marginal", "marginal", "joint", "beliefs", "gains", "plot", "text"], p=[.3, .2, .12, .12, .1, .06, .1]))
        what.append(how)
        cl = graphs.clusters(cg)
        c = cl[int(rng.integers(len(cl)))]
        if how == "marginal":
            vs = list(c.var_names)
            if not graphs.current_marginals(ctx, cg):
                return
            if vs:
                m = cg.get_marginal(vs[:int(rng.integers(1, len(vs) + 1))])
                if hasattr(m, "normalize") and np.isfinite(getattr(graphs.read(m), "log_mass")()):
                    m.normalize()
        elif how == "joint":
            if len({v for x in cl for v in x.var_names}) <= 7:
                cg.get_posterior_joint()
        elif how == "beliefs":
            f = c.factor
            f.multiply(f)
        elif how == "gains":
            [p.next_information_gain for p in graphs.paths(cg)]  # pylint: disable=expression-not-assigned
            [p.next_message.copy() for p in graphs.paths(cg)]  # pylint: disable=expression-not-assigned
        elif how == "plot":
            import matplotlib.pyplot as plt

            ctx.count("plots")
            cg.plot_next_messages_info_gain(legend_on=bool(rng.random() < 0.5))
            if any(np.isfinite(d) for d in cg.sync_message_passing_max_distances):
                cg.plot_message_convergence(log=False)
            plt.close("all")
        else:
            [repr(p.next_message) for p in graphs.paths(cg)]  # pylint: disable=expression-not-assigned
            repr(c.factor)
    after = graphs.beliefs(cg)
    now = {graphs.edge_key(p): graphs.read(p.next_message.factor) for p in graphs.paths(cg)}
    same = all(graphs.close(before[k], after[k], rtol=1e-13, atol=1e-13) for k in before)
    same &= list(pending) == list(now) and all(graphs.close(pending[k], now[k], rtol=1e-13, atol=1e-13) for k in pending)
    ctx.check(same and count == cg.num_messages_passed, "reading-changed-the-graph", lambda: f"{what}\n{graphs.describe(cg)}\n"
              f"{model.describe()}")


def converged(ctx, model, cg):
    """Calls on a converged graph leave all beliefs unchanged up to the tolerance."""
    rng = ctx.rng
    tol = float(rng.choice([1e-10, 1e-12]))
    if not graphs.process(ctx, cg, tol=tol, max_iter=40):
        return
    dist = cg.sync_message_passing_max_distances
    if not dist or dist[-1] > tol:
        ctx.count("not_converged")
        return
    # the tolerance is one on messages: what it hides (improbable values, slow loops) settles first
    for _ in range(2):
        if not graphs.process(ctx, cg, tol=0.0, max_iter=20):
            return
    before = {k: b for k, b in graphs.beliefs(cg).items()}
    for _ in range(int(rng.integers(1, 4))):
        ctx.count("converged_calls")
        cg.process_graph(tol=float(rng.choice([tol, 1e-3])), max_iter=int(rng.integers(1, 4)))
    for k, b in graphs.beliefs(cg).items():
        w = before[k]
        if not w.names:
            continue
        if not ctx.check(unmoved(b, w), "converged-belief-moved",
                         lambda: f"{k} {graphs.fmt(b)}\nbefore {graphs.fmt(w)}\n{graphs.describe(cg)}\n{model.describe()}"):
            return


def unmoved(b, w):
    if hasattr(w, "K"):
        return graphs.prop_close(b, w, atol=2e-5, rtol=2e-4)
    return np.allclose(np.exp(b.norm().order(w.names).logs), np.exp(w.norm().logs), rtol=0.0, atol=2e-5)
