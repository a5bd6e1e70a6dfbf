"""C23: observation tools do not influence inference."""
import contextlib
import io
import os
import re

import numpy as np

from vmon import core, gen, graphs, models, refs, zoo

NUM = 23
RULE = ("differential runs of one graph without and with observation options (animation, debug log, verbose output, progress bars, plots, "
        "show, image export, prints of graph, clusters, messages and factors, at random points and over several calls); monitors compare "
        "every message, counters, distances, marginals and the joint, and every rendered frame's source (recorded at "
        "graphviz.Graph.render) against what the trace says should be highlighted; non-trivial: at least one message; distinct by "
        "graph, options and trace")
COUNTS = {"quick": 900, "thorough": 25000}
REQUIRED = {"messages": 2500, "animated_runs": 250, "frames": 4000, "highlights": 4000, "debug_runs": 250, "plots": 250, "shows": 100,
            "real_renders": 8, "compared_marginals": 1500, "repeated_calls": 250, "drawn_graphs": 300, "saved_images": 60, "legend_entries": 300, "infinite_curves": 30, "loopy_graphs": 80}


@contextlib.contextmanager
def canvas(real, rendered, shown):
    """Every rendered image stays inside the worker's scratch directory; the drawn sources are recorded."""
    import graphviz
    import IPython.core.display
    from PIL import Image

    scratch = os.environ["VMON_SCRATCH"]
    render, opened = graphviz.Graph.__dict__.get("render"), Image.open
    image, display = IPython.core.display.Image, IPython.core.display.display
    base = graphviz.Graph.render

    def inside(path):
        return os.path.join(scratch, os.path.basename(str(path)))

    def fake_render(self, filename=None, *args, **kwargs):
        rendered.append(self.source)
        path = inside(filename or "graph.gv")
        if real:
            kwargs.pop("directory", None)
            return base(self, path, *args, **kwargs)
        Image.new("RGB", (4, 4)).save(path + ".png")
        return path + ".png"

    def fake_open(path, *args, **kwargs):
        return opened(inside(path) if isinstance(path, (str, os.PathLike)) else path, *args, **kwargs)
    graphviz.Graph.render = fake_render
    Image.open = fake_open
    IPython.core.display.Image = lambda *a, **k: ("image", a)
    IPython.core.display.display = lambda *a, **k: shown.append(a)
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()) as err:
            yield err
    finally:
        if render is None:
            del graphviz.Graph.render
        else:
            graphviz.Graph.render = render
        Image.open = opened
        IPython.core.display.Image, IPython.core.display.display = image, display


def plain_names(rng, n):
    """Names that the drawing code supports (no ports, edge operators or quotes: see odd_names)."""
    pool = ["a", "b", "ab", "aa", "x1", "x11", "x 2", "Ω", "д", "node", "edge", "graph", "1", "11", "1 1", "red", "white", "fillcolor",
            "sepset__a", "c0", "c1", "label", "x_y", "None", "'q'", "x(1)", "x[0]", "x+y", "$x", "a.b", "a*", "(", "[", "a|b", "^a", "x\\1", "a\\\\w", "{2}", "a?", "%s", "\\g<1>", "a->b"]
    return gen.perm(rng, pool)[:n]


def case(ctx):
    from veroku.cluster_graph import ClusterGraph

    rng = ctx.rng
    kind = str(rng.choice(["dense", "dense", "sparse", "gaussian"]))
    loopy = rng.random() < 0.6
    animate = rng.random() < 0.6
    if ctx.idx % 100 == 50:
        return odd_names(ctx, ["colon", "dashes", "quote"][ctx.idx // 100 % 3])
    pool = plain_names(rng, 24) if animate else None
    if kind == "gaussian":
        model = models.gaussian(ctx, loopy=loopy, linear=False, size=4, strength=0.2 if loopy else 1.0, pool=pool)
    else:
        model = models.discrete(ctx, kind, loopy=loopy, zero=float(rng.choice([0.0, 0.2])), size=5, evidence=0.2, pool=pool)
    if model is None:
        raise core.Reject()
    ev = dict(model.evidence) if model.evidence else None
    bars = rng.random() < 0.5
    debug, verbose = bool(rng.random() < 0.5), bool(rng.random() < 0.3)
    real = animate and ctx.idx % 12 == 3
    rendered, shown = [], []
    before = [zoo.snapshot(f) for f in model.factors]
    one = ClusterGraph(model.factors, evidence=ev, disable_tqdm=True)
    with canvas(real, rendered, shown) as err:
        two = ClusterGraph(model.factors, evidence=ev, disable_tqdm=not bars)
    if [c.cluster_id for c in graphs.clusters(one)] != [c.cluster_id for c in graphs.clusters(two)] or \
            [graphs.edge_key(p) for p in graphs.paths(one)] != [graphs.edge_key(p) for p in graphs.paths(two)]:
        ctx.check(False, "layout", lambda: f"{graphs.describe(one)}\n{graphs.describe(two)}")
        return
    two.debug, two.verbose = debug, verbose
    ctx.count("loopy_graphs", int(not graphs.is_forest(one)))

    def info():
        return (f"animate {animate} bars {bars} debug {debug} verbose {verbose} real {real}\n{graphs.describe(two)}\n"
                f"{model.describe()}")
    state = dict(frames=0, source=None)
    with canvas(real, rendered, shown):
        state["source"] = drawn(ctx, two, rendered, shown, info, named=animate)
    if state["source"] is None:
        return
    calls = int(rng.integers(1, 4))
    messages = 0
    for call in range(calls):
        tol = float(rng.choice([1e-3, 1e-3, 1e-6, 1.0, 0.0]))
        max_iter = int(rng.choice([1, 1, 2, 3]))
        ctx.count("repeated_calls", int(call > 0))
        with graphs.recording(one) as e1:
            fine = graphs.process(ctx, one, tol=tol, max_iter=max_iter)
        if not fine:
            return
        rendered.clear()
        now = animate and rng.random() < 0.8
        before_frames = len(two.message_passing_animation_frames)
        with canvas(real, rendered, shown) as err, graphs.recording(two) as e2:
            two.process_graph(tol=tol, max_iter=max_iter, make_animation_gif=now)
            text = err.getvalue()
        ctx.count("progress_bars", int(bars and "%|" in text or "it/s" in text))
        n = len(e1.log)
        messages += n
        ctx.count("messages", n)
        ctx.count("debug_runs", int(debug))
        ctx.count("animated_runs", int(now))
        ctx.count("real_renders", int(real and now and n > 1))
        if not compare(ctx, one, two, e1, e2, lambda: f"call {call} tol {tol} max_iter {max_iter} animated {now}\n" + info()):
            return
        if not animation(ctx, two, e2, rendered, before_frames, now, tol, state, lambda: f"call {call} tol {tol} max_iter {max_iter}\n" + info()):
            return
        if not observe(ctx, model, two, one, rendered, shown, real, state, info):
            return
    if not marginals(ctx, one, two, info):
        return
    after = [zoo.snapshot(f) for f in model.factors]
    ctx.check(zoo.same(before, after, 0.0, 1e-12), "input-factors-changed", info)
    if messages:
        ctx.sig(kind, sorted(map(sorted, graphs.edges(one))), animate, bars, debug, verbose, messages, calls)
    ctx.sample(f"{messages} messages in {calls} calls, animated {animate}, debug {debug}, bars {bars}\n{graphs.describe(two)}")


def odd_names(ctx, how):
    """The drawing of a graph whose variable names hold characters with a meaning for graphviz."""
    from veroku.cluster_graph import ClusterGraph
    from veroku.factors.categorical import Categorical

    rng = ctx.rng
    name = {"colon": "x:1", "dashes": "x--1", "quote": 'x"1'}[how]
    fs = [Categorical(var_names=v, probs_table={(i, j): float(rng.uniform(.1, 1)) for i in range(2) for j in range(2)}, cardinalities=[2, 2])
          for v in ([name, "b"], [name, "c"])]
    cg = ClusterGraph(fs, disable_tqdm=True)
    rendered, shown = [], []
    raised = None
    with canvas(False, rendered, shown):
        try:
            cg.process_graph(make_animation_gif=True, tol=0, max_iter=2)
        except Exception as e:  # noqa
            raised = e
    ctx.count("odd_names")
    ctx.check(raised is None and len(set(rendered)) == 6, "animation-names:" + how,
              lambda: f"variable {name!r}: raised {raised!r}, {len(set(rendered))} distinct frames")


def compare(ctx, one, two, e1, e2, info):
    """The observed run against the plain one."""
    k1, k2 = [(s, r) for s, r, _ in e1.log], [(s, r) for s, r, _ in e2.log]
    if not ctx.check(k1 == k2, "different-messages", lambda: f"plain {k1}\nobserved {k2}\n" + info()):
        return False
    for (s, r, a), (_, _, b) in zip(e1.log, e2.log):
        if not ctx.check(graphs.close(b, a, rtol=1e-12, atol=1e-12, scale=graphs.magnitude(a)), "different-message-content",
                         lambda: f"{s}->{r} plain {graphs.fmt(a)}\nobserved {graphs.fmt(b)}\n" + info()):
            return False
    ok = ctx.check(one.num_messages_passed == two.num_messages_passed, "different-counter",
                   lambda: f"{one.num_messages_passed} {two.num_messages_passed}\n" + info())
    d1, d2 = list(one.sync_message_passing_max_distances), list(two.sync_message_passing_max_distances)
    ok &= ctx.check(len(d1) == len(d2) and all(a == b or abs(a - b) <= 1e-12 * max(1.0, abs(a)) for a, b in zip(d1, d2)), "different-distances",
                    lambda: f"{d1}\n{d2}\n" + info())
    b1, b2 = graphs.beliefs(one), graphs.beliefs(two)
    ok &= ctx.check(list(b1) == list(b2) and all(graphs.close(b2[k], b1[k], rtol=1e-12, atol=1e-12, scale=graphs.magnitude(b1[k])) for k in b1),
                    "different-beliefs", info)
    return ok


def marginals(ctx, one, two, info):
    ok = True
    for c in graphs.clusters(one):
        vs = list(c.var_names)
        if not vs:
            continue
        q = gen.subset(ctx.rng, vs, 1)
        a, b = graphs.read(one.get_marginal(q)), graphs.read(two.get_marginal(q))
        ctx.count("compared_marginals")
        ok &= ctx.check(graphs.close(b, a, rtol=1e-11, atol=1e-11, scale=graphs.magnitude(a)), "different-marginal",
                        lambda: f"{q} plain {graphs.fmt(a)}\nobserved {graphs.fmt(b)}\n" + info())
    if len({v for c in graphs.clusters(one) for v in c.var_names}) <= 7:
        a, b = graphs.read(one.get_posterior_joint()), graphs.read(two.get_posterior_joint())
        ok &= ctx.check(set(a.names) == set(b.names) and graphs.close(b.order(a.names), a, rtol=1e-11, atol=1e-10, scale=graphs.magnitude(a)),
                        "different-joint", info)
    return ok


# ------------------------------------------------------------------------------------------------------------------ the drawing
NODE = re.compile(r'^\s*(?:"((?:[^"\\]|\\.)*)"|([^\s"\[]+)) \[(.*)\]$')
EDGE = re.compile(r'^\s*(?:"((?:[^"\\]|\\.)*)"|([^\s"]+)) -- (?:"((?:[^"\\]|\\.)*)"|([^\s"]+)) \[(.*)\]$')


def parse(source):
    """({node: fill}, {(a, b): colour}) of a drawn source."""
    nodes, edges = [], []
    for line in source.splitlines()[1:-1]:
        m = EDGE.match(line)
        if m:
            colour = re.search(r'(?<!\w)color=("?)(\w+)\1', m.group(5))
            edges.append((frozenset([m.group(1) or m.group(2), m.group(3) or m.group(4)]), colour.group(2) if colour else None))
            continue
        m = NODE.match(line)
        if m:
            fill = re.search(r'fillcolor=("?)(\w+)\1(?: style=|\]|$| )', re.sub(r'label=(?:"(?:[^"\\]|\\.)*"|\S+)', "", m.group(3)))
            nodes.append((m.group(1) or m.group(2), fill.group(2) if fill else None))
    return nodes, edges


def drawn(ctx, cg, rendered, shown, info, named):
    """The drawn graph: one node per cluster and separator, two lines per separator."""
    rendered.clear()
    k = len(shown)
    ctx.count("shows")
    cg.show()
    if not ctx.check(len(rendered) == 1 and len(shown) == k + 1, "show", lambda: f"{len(rendered)} renders {len(shown) - k} displays\n" + info()):
        return None
    source = rendered[0]
    if named:
        ctx.count("drawn_graphs")
        nodes, edges = parse(source)
        ids = [c.cluster_id for c in graphs.clusters(cg)]
        names = [n for n, _ in nodes]
        ok = len(set(names)) == len(names) and all(names.count(i) == 1 for i in ids)
        ok &= len(names) == len(ids) + len(graphs.edges(cg)) and len(edges) == 2 * len(graphs.edges(cg))
        links = {}
        for pair, _ in edges:
            sep = [n for n in pair if n not in ids]
            if len(sep) == 1 and len(pair) == 2:
                links.setdefault(sep[0], set()).update(pair - set(sep))
        ok &= sorted(map(sorted, links.values())) == sorted(map(sorted, graphs.edges(cg)))
        if not ctx.check(ok, "drawn-graph", lambda: source + "\n" + info()):
            return None
        ctx.check(all(f in ("white", None) for _, f in nodes) and all(c == "black" for _, c in edges), "drawn-colours", lambda: source + "\n" + info())
    return source


def highlighted(source, ids):
    """What a frame shows in another colour: (cluster nodes, cluster pairs)."""
    nodes, edges = parse(source)
    hot = {n for n, f in nodes if n in ids and f not in ("white", None)}
    by_sep = {}
    for pair, colour in edges:
        for n in pair - set(ids):
            by_sep.setdefault(n, []).append((pair - {n}, colour))
    lines = set()
    for parts in by_sep.values():
        colours = {c for _, c in parts}
        if colours != {"black"}:
            lines.add((frozenset().union(*[p for p, _ in parts]), len(colours) == 1))
    return hot, lines


def animation(ctx, cg, events, rendered, before_frames, now, tol, state, info):
    """Six frames per displayed message, highlighting its sender, separator and receiver; the graph is restored."""
    frames = len(cg.message_passing_animation_frames) - before_frames
    dist = list(cg.sync_message_passing_max_distances)
    n = len(events.log)
    # the message after which convergence is found is not displayed
    displayed = (n - int(bool(dist) and dist[-1] <= tol)) if now else 0
    if not ctx.check(frames == 6 * displayed, "number-of-frames", lambda: f"{frames} frames for {n} messages, {displayed} displayed\n" + info()):
        return False
    if not ctx.check(len(rendered) == frames, "number-of-renders", lambda: f"{len(rendered)} renders for {frames} frames\n" + info()):
        return False
    ids = [c.cluster_id for c in graphs.clusters(cg)]
    for k in range(displayed):
        s, r, _ = events.log[k]
        ctx.count("frames", 6)
        want = [({s}, 0), ({s}, 1), ({s, r}, 1), ({r}, 1), ({r}, 0), (set(), 0)]
        for source, (hot, line) in zip(rendered[6 * k: 6 * k + 6], want):
            ctx.count("highlights")
            got, lines = highlighted(source, ids)
            good = got == hot and lines == ({(frozenset([s, r]), True)} if line else set())
            if not ctx.check(good, "frame-highlights", lambda: f"{s}->{r}: frame shows {got} {lines}, expected {hot} {line}\n{source}\n" + info()):
                return False
        if not ctx.check(rendered[6 * k + 5] == state["source"], "graph-not-restored", lambda: f"{rendered[6 * k + 5]}\nbefore\n"
                         f"{state['source']}\n" + info()):
            return False
    return True


def observe(ctx, model, cg, plain, rendered, shown, real, state, info):
    """Look at everything; nothing may change."""
    import matplotlib.pyplot as plt

    rng = ctx.rng
    scratch = os.environ["VMON_SCRATCH"]
    looked = []
    for _ in range(int(rng.integers(1, 5))):
        how = str(rng.choice(["show", "gains", "convergence", "log-convergence", "image", "factor", "marginal", "repr", "gif"],
                             p=[.15, .1, .08, .04, .12, .12, .12, .17, .1]))
        looked.append(how)
        cl = graphs.clusters(cg)
        c = cl[int(rng.integers(len(cl)))]
        cwd = os.getcwd()
        os.chdir(scratch)
        try:
            with canvas(real, rendered, shown):
                if how == "show":
                    ctx.count("shows")
                    rendered.clear()
                    cg.show()
                    if not ctx.check(rendered == [state["source"]], "drawing-changed", lambda: f"{rendered}\nbefore\n{state['source']}\n" + info()):
                        return False
                elif how == "gains":
                    ctx.count("plots")
                    plt.close("all")
                    legend = bool(rng.random() < 0.7)
                    cg.plot_next_messages_info_gain(legend_on=legend, figsize=[4, 3])
                    plotted(ctx, plt, [list(p.information_gains_with_iters) for p in graphs.paths(cg)], info)
                    if legend:
                        legends(ctx, plt, cg, info)
                elif how in ("convergence", "log-convergence"):
                    dist = np.array(cg.sync_message_passing_max_distances, dtype=float)
                    if len(dist) and rng.random() < 0.3:
                        # what was recorded is the plot's only input: other recorded histories may be drawn too
                        dist = np.round(np.exp(rng.normal(0, 3, size=int(rng.integers(1, 6)))), 6)
                        dist[rng.random(len(dist)) < 0.4] = np.inf
                        dist[rng.random(len(dist)) < 0.15] = 0.0
                    ctx.count("plots")
                    log = how.startswith("log")
                    plt.close("all")
                    kept, cg.sync_message_passing_max_distances = cg.sync_message_passing_max_distances, list(dist)
                    with np.errstate(divide="ignore"):
                        cg.plot_message_convergence(log=log, figsize=[4, 3])
                        curve = np.repeat(np.log(dist) if log else dist, 2)
                    cg.sync_message_passing_max_distances = kept
                    plotted(ctx, plt, [curve], info)
                    infinities(ctx, plt, curve, info)
                elif how == "image":
                    saved_image(ctx, cg, scratch)
                elif how == "factor":
                    factor_views(ctx, c.factor, rng)
                elif how == "marginal":
                    if c.var_names:
                        factor_views(ctx, cg.get_marginal(list(c.var_names)[:1]), rng)
                elif how == "repr":
                    repr(cg)
                    for p in graphs.paths(cg):
                        repr(p.next_message)
                    for m in cg.passed_messages:
                        repr(m)
                elif cg.message_passing_animation_frames:
                    cg.make_message_passing_animation_gif(filename="seen.gif")
                    ctx.count("gifs")
        finally:
            os.chdir(cwd)
            plt.close("all")
    b1, b2 = graphs.beliefs(plain), graphs.beliefs(cg)
    same = all(graphs.close(b2[k], b1[k], rtol=1e-12, atol=1e-12, scale=graphs.magnitude(b1[k])) for k in b1)
    p1 = {graphs.edge_key(p): graphs.read(p.next_message.factor) for p in graphs.paths(plain)}
    p2 = {graphs.edge_key(p): graphs.read(p.next_message.factor) for p in graphs.paths(cg)}
    same &= list(p1) == list(p2) and all(graphs.close(p2[k], p1[k], rtol=1e-12, atol=1e-12, scale=graphs.magnitude(p1[k])) for k in p1)
    g1 = [list(p.information_gains_with_iters) for p in graphs.sorted_paths(plain)]
    g2 = [list(p.information_gains_with_iters) for p in graphs.sorted_paths(cg)]
    same &= all(len(a) == len(b) and np.allclose(a, b, rtol=1e-9, atol=1e-12) for a, b in zip(g1, g2))
    return ctx.check(same, "looking-changed-the-graph", lambda: f"{looked}\n" + info())


def saved_image(ctx, cg, scratch):
    """The drawing is found in a file with the given name (possibly with an extension) afterwards."""
    name = f"saved{len(os.listdir(scratch))}"
    cg.save_graph_image(os.path.join(scratch, name))
    ctx.count("saved_images")
    ctx.check(any(f.startswith(name) for f in os.listdir(scratch)), "image-not-saved", lambda: f"{name} not in {sorted(os.listdir(scratch))[:20]}")


def plotted(ctx, plt, curves, info):
    """Every curve is one of the drawn lines (where it is finite)."""
    lines = [np.asarray(np.ma.getdata(line.get_ydata()), dtype=float) for line in plt.gca().lines] if plt.get_fignums() else []
    for c in curves:
        c = np.asarray(c, dtype=float)
        use = np.isfinite(c)
        found = any(y.shape == c.shape and np.allclose(y[use], c[use], rtol=1e-9, atol=0) for y in lines)
        ctx.count("drawn_curves")
        if not ctx.check(found, "plotted-curve", lambda: f"{c}\nnot among\n{lines}\n" + info()):
            return


def legends(ctx, plt, cg, info):
    """The legend gives every path of the graph the line with its information gains."""
    ax = plt.gca()
    if ax.get_legend() is None:
        ctx.check(not graphs.paths(cg), "no-legend", info)
        return
    handles = [h.get_color() for h in ax.get_legend().legend_handles]
    texts = [t.get_text() for t in ax.get_legend().get_texts()]
    want = {f"{p.sender_cluster.cluster_id}->{p.receiver_cluster.cluster_id}": list(p.information_gains_with_iters) for p in graphs.paths(cg)}
    ctx.check(sorted(texts) == sorted(want), "legend-entries", lambda: f"{texts}\nwanted {sorted(want)}\n" + info())
    # legend entries are made for the lines in their order; colours repeat after ten lines
    for line, colour, text in zip(ax.lines, handles, texts):
        y = np.asarray(line.get_ydata(), dtype=float)
        ctx.count("legend_entries")
        if text in want:
            ctx.check(colour == line.get_color() and y.tolist() == [float(v) for v in want[text]], "legend-of-another-path",
                      lambda: f"{text} drawn as {y}, recorded {want[text]}\n" + info())


def infinities(ctx, plt, curve, info):
    """Infinite distances are drawn above all others and are the only marked ones."""
    up = np.isposinf(curve)
    lines = [np.ma.asarray(line.get_ydata()) for line in plt.gca().lines] if plt.get_fignums() else []
    lines = [y for y in lines if y.shape == curve.shape]
    ctx.count("infinite_curves", int(up.any()))
    finite = curve[np.isfinite(curve)]
    top = finite.max() if len(finite) else -np.inf
    whole = [y for y in lines if not np.ma.getmaskarray(y).any()]
    ctx.check(any(np.all(np.ma.getdata(y)[up] > top) for y in whole) or not len(curve), "infinite-distance-height",
              lambda: f"recorded {curve}\ndrawn {lines}\n" + info())
    if len(curve):
        marked = [np.ma.getmaskarray(y) | ~np.isfinite(np.ma.getdata(y).astype(float)) for y in lines]
        ctx.check(any(np.array_equal(~m, up) for m in marked), "infinite-distance-marks", lambda: f"recorded {curve}\ndrawn {lines}\n" + info())


def factor_views(ctx, f, rng):
    """Print and plot a factor (a copy out of the graph)."""
    before = graphs.read(f)
    if len(f.var_names) == 0:
        return
    f.show()
    repr(f)
    if isinstance(before, refs.Tab):
        if hasattr(f, "plot") and before.logs.size <= 64 and before.log_mass() > refs.NEG:
            f.plot()
            ctx.count("plots")
    elif before.proper() and len(f.var_names) <= 2 and rng.random() < 0.4:
        f.plot()
        ctx.count("plots")
    after = graphs.read(f)
    ctx.check(graphs.close(after, before, scale=graphs.magnitude(before)), "factor-changed-by-plot", lambda: graphs.fmt(before))
