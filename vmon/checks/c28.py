"""C28: printed and plotted views of continuous factors describe the represented function."""
import ast
import contextlib
import io
import re

import numpy as np

from vmon import gen, refs, zoo

NUM = 28
RULE = ("every view of real Gaussians (fresh, derived, improper, vacuous, in each stored form), mixtures, factorised and non-linear "
        "Gaussians: printed parameters are parsed back and compared with the reference function in the printed variable order, "
        "plotted curves, filled contours, heat maps and bars are read from the drawn matplotlib artists and compared at every drawn point; "
        "snapshots before and after; non-trivial: proper factor; distinct by class, view, form and parameters")
COUNTS = {"quick": 3200, "thorough": 40000}
REQUIRED = {"printed": 1200, "parsed_blocks": 2500, "parsed_sections": 7000, "improper": 100, "vacuous": 100, "curves": 500,
            "curve_points": 60000, "components_drawn": 120, "surfaces": 60, "surface_points": 100000, "heatmaps": 60, "log_plots": 200,
            "limits_given": 200, "unchanged": 2500, "nlg_plots": 30, "extreme_weights": 30, "one_limit_given": 10}
NUMBER = re.compile(r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?|[-+]?inf|nan")
LABEL = re.compile(r"^(prec|h|g|cov|mean|log_weight)\s*=\s*$")


def case(ctx):
    kind = str(ctx.rng.choice(["print", "printmany", "curve", "mixture-curve", "surface", "vis", "nlg"],
                              p=[.34, .18, .17, .17, .04, .07, .03]))
    {"print": print_gaussian, "printmany": print_many, "curve": curve, "mixture-curve": curve, "surface": surface, "vis": vis,
     "nlg": nlg_views}[kind](ctx, *([kind == "mixture-curve"] if kind.endswith("curve") else []))


# ------------------------------------------------------------------------------------------------------------------- printing
def blocks(text):
    """The Gaussians in a printed text: [(names, {section: floats}, vacuous flag or None)]."""
    out, section = [], None
    for line in text.splitlines():
        if line.startswith("vars =") or line.startswith("vars  ="):
            out.append([ast.literal_eval(line.split("=", 1)[1].strip()), {}, None])
            section = None
        elif not out:
            continue
        elif LABEL.match(line.strip()):
            section = LABEL.match(line.strip()).group(1)
            out[-1][1][section] = []
        elif line.startswith("is_vacuous:"):
            out[-1][2] = line.split(":", 1)[1].strip() == "True"
            section = None
        elif section is not None and re.fullmatch(r"[-+\d\s.eE\[\]infa]+", line):
            out[-1][1][section] += [float(x) for x in NUMBER.findall(line)]
        else:
            section = None
    return out


def agree(ctx, block, ref, info, what, vacuous=False, full=False):
    """One printed Gaussian against the reference function."""
    names, sections, flag = block
    ctx.count("parsed_blocks")
    if not ctx.check(sorted(names) == sorted(ref.names), what + "-variables", lambda: f"{names}\n" + info()):
        return False
    r = ref.order(list(names))
    eig = np.linalg.eigvalsh(0.5 * (r.K + r.K.T))
    proper = bool(eig[0] > 1e-8 * max(1.0, abs(eig[-1]))) and not vacuous
    wanted = {"prec": r.K, "h": r.h, "g": np.array([r.g])}
    if np.abs(eig).min() > 1e-8 * max(1.0, np.abs(eig).max()) and not vacuous:
        cov = r.covariance()
        wanted.update({"cov": cov, "mean": cov @ r.h})
        if proper:
            wanted["log_weight"] = np.array([r.log_mass()])
    need = []
    if full:
        need = ["prec", "h", "g"] + (["cov", "mean", "log_weight"] if proper else [])
    else:
        need = ["cov", "mean", "log_weight"] if "cov" in sections else ["prec", "h", "g"]
    ctx.check(all(s in sections for s in need), what + "-incomplete", lambda: f"{sorted(sections)} of {need}\n" + info())
    good = True
    for s, got in sections.items():
        if s not in wanted:
            continue
        want = np.asarray(wanted[s], float).reshape(-1)
        got = np.array(got)
        ctx.count("parsed_sections")
        mag = np.abs(want).max(initial=0.0)
        if s in ("g", "log_weight"):
            tol = 1e-7 * (1.0 + mag + np.abs(r.h).max(initial=0) ** 2 + abs(r.g))
        else:
            tol = 6e-5 + 6e-5 * np.abs(want) + 1e-8 * mag
        good &= ctx.check(got.shape == want.shape and bool(np.all(np.abs(got - want) <= tol)), f"{what}-{s}",
                          lambda: f"printed {got}\nwanted {want}\n" + info())
    if flag is not None:
        ctx.check(flag == vacuous, what + "-vacuous-flag", info)
    return good


def printed(f):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        f.show()
    return out.getvalue()


def some_gaussian(ctx, dim=None, proper=False):
    """(real Gaussian, reference, vacuous) in any reachable state."""
    from veroku.factors.gaussian import Gaussian

    rng = ctx.rng
    dim = dim or int(rng.integers(1, 5))
    nms = gen.names(rng, dim)
    state = "fresh" if proper and rng.random() < 0.5 else str(rng.choice(["fresh", "derived", "derived"] + ([] if proper else ["improper", "vacuous"])))
    scale = float(rng.choice([3.0, 0.01, 500.0], p=[.7, .1, .2]))
    if state == "vacuous":
        ctx.count("vacuous")
        g = Gaussian.make_vacuous(list(nms))
        return g, refs.GRef(nms, np.zeros((dim, dim)), np.zeros(dim), 0.0), True, state
    if state == "improper":
        ctx.count("improper")
        how = str(rng.choice(["singular", "quotient", "partial"]))
        cov, mean, lw, ref = gen.gaussian_params(rng, nms)
        if how == "singular":  # integers: exactly singular
            a = rng.integers(-2, 3, (dim, max(1, dim - 1))).astype(float)
            if dim == 1:
                a[:] = 1.0
            a[0, 0] = a[0, 0] or 1.0
            K = a @ a.T
            ref = refs.GRef(nms, K, K @ rng.integers(-2, 3, dim), float(rng.normal()))
            g = Gaussian(prec=ref.K, h_vec=ref.h.reshape(-1, 1), g_val=ref.g, var_names=list(nms))
        elif how == "quotient":
            o = gen.gaussian_params(rng, nms, lo=0.2, hi=0.6)
            g, ref = gen.make_gaussian(rng, ref, cov, mean, lw).divide(gen.make_gaussian(rng, o[3], *o[:3])), ref.div(o[3])
        else:  # a factor of fewer variables, extended by a vacuous one
            extra = [e for e in gen.names(rng, dim + 1) if e not in nms][:1] or ["extra_variable"]
            g = gen.make_gaussian(rng, ref, cov, mean, lw).multiply(Gaussian.make_vacuous(extra))
            ref = ref.mul(refs.GRef(extra, np.zeros((1, 1)), np.zeros(1), 0.0))
        return g, ref, False, state + "-" + how
    cov, mean, lw, ref = gen.gaussian_params(rng, nms, scale)
    form = str(rng.choice(gen.FORMS))
    g = gen.make_gaussian(rng, ref, cov, mean, lw, form)
    if state == "derived":
        for _ in range(int(rng.integers(1, 3))):
            how = str(rng.choice(["mul", "norm", "copy", "marg", "reduce", "reorder"]))
            nms = list(ref.names)
            if how == "mul":
                o = gen.gaussian_params(rng, gen.perm(rng, gen.subset(rng, nms, 1)), scale)
                g, ref = g.multiply(gen.make_gaussian(rng, o[3], *o[:3])), ref.mul(o[3])
            elif how == "norm":
                g, ref = g.normalize(), refs.GRef(ref.names, ref.K, ref.h, ref.g - ref.log_mass())
            elif how == "copy":
                g = g.copy()
            elif how == "marg" and len(nms) > 1 and dim != 2 and not proper:
                keep = gen.perm(rng, gen.subset(rng, nms, 1, len(nms) - 1))
                g, ref = g.marginalize(keep, keep=True), ref.marg(keep)
            elif how == "reduce" and len(nms) > 1 and not proper:
                obs = gen.subset(rng, nms, 1, len(nms) - 1)
                ev = {v: float(rng.normal()) for v in obs}
                g, ref = g.reduce(list(ev), list(ev.values())), ref.reduce(ev)
            elif how == "reorder" and len(nms) > 1:
                k = gen.perm(rng, nms)
                g = g.marginalize(k, keep=True)
            if rng.random() < 0.4:
                (g.get_prec if rng.random() < 0.5 else g.get_cov)()
        form += " derived"
    return g, ref, False, form


def unchanged(ctx, before, f, what, info):
    ctx.count("unchanged")
    ctx.check(zoo.same(before, zoo.snapshot(f)), what + "-changed-factor", info)


def print_gaussian(ctx):
    g, ref, vacuous, state = some_gaussian(ctx)

    def info():
        return f"{state} {refs.gfmt(ref)}"
    big = refs.gfmt(ref)
    before = zoo.snapshot(g)
    for view in gen.perm(ctx.rng, ["repr", "show", "str"][: int(ctx.rng.integers(1, 4))]):
        text = printed(g) if view == "show" else (repr(g) if view == "repr" else str(g))
        ctx.count("printed")
        b = blocks(text)
        if ctx.check(len(b) == 1, view + "-unreadable", lambda: info() + "\n" + text):
            ctx.check(list(b[0][0]) == list(g.var_names), view + "-variables", lambda: info() + "\n" + text)
            agree(ctx, b[0], ref, lambda: info() + "\n" + text, "show" if view == "show" else "repr", vacuous, full=view != "show")
    unchanged(ctx, before, g, "printing", info)
    if not vacuous and ref.proper():
        ctx.sig("print", state, big)
    ctx.sample(info())


def print_many(ctx):
    """Mixtures, factorised factors, non-linear Gaussians and cluster factors."""
    rng = ctx.rng
    kind = str(rng.choice(["gm", "ff", "nlg", "nlgm"], p=[.4, .3, .2, .1]))
    nms = gen.names(rng, 4)
    if kind == "gm":
        f, parts = zoo.make_gm(ctx, nms[: int(rng.integers(1, 4))])
    elif kind == "ff":
        f, parts = zoo.make_ff(ctx, nms[: int(rng.integers(1, 5))])
    else:
        cond, out = nms[: int(rng.integers(1, 3))], nms[2: 2 + int(rng.integers(1, 3))]
        if kind == "nlgm":
            f, _ = zoo.make_nlgm(ctx, cond, out)
        else:
            f, _ = zoo.make_nlg(ctx, cond, out)
            if rng.random() < 0.4:
                f = f.multiply(zoo.make_gaussian(ctx, gen.subset(rng, out, 1))[0])
        parts = None
    before = zoo.snapshot(f)
    text = printed(f)
    ctx.count("printed")
    b = blocks(text)

    def info():
        return f"{kind} {list(f.var_names)}\n{text}"
    if kind in ("gm", "ff"):
        order = None
        if ctx.check(len(b) == len(parts), kind + "-parts-shown", lambda: f"{len(b)} of {len(parts)}\n" + info()):
            if kind == "gm" or len(parts) == len(f.factors):
                order = list(parts)
        if order:
            left = list(b)
            for r in order:  # every part is shown once, in any order
                hit = next((x for x in left if sorted(x[0]) == sorted(r.names) and matches(x, r)), None)
                if ctx.check(hit is not None, kind + "-part-missing", lambda: refs.gfmt(r) + "\n" + info()):
                    left.remove(hit)
                    agree(ctx, hit, r, info, kind)
    else:
        nlgs = f.nlgs if kind == "nlgm" else [f]
        texts = text.split("Non-linear Gaussian")[1:]
        if ctx.check(len(texts) == len(nlgs), kind + "-parts-shown", info):
            for t, nl in zip(texts, nlgs):
                nlg_text(ctx, t, nl, info)
    unchanged(ctx, before, f, "printing", info)
    ctx.sig("printmany", kind, tuple(f.var_names), text[:300])


def matches(block, r):
    r = r.order(list(block[0]))
    s = block[1]
    want = {"prec": r.K, "h": r.h, "cov": r.covariance(), "mean": r.mean()}
    for k, w in want.items():
        if k in s:
            w = w.reshape(-1)
            if len(s[k]) != len(w) or np.abs(np.array(s[k]) - w).max(initial=0) > 1e-3 * (1 + np.abs(w).max(initial=0)):
                return False
    return True


def nlg_text(ctx, text, nl, info):
    def after(label):
        m = re.search(re.escape(label) + r"\s*(\[.*\])", text)
        return ast.literal_eval(m.group(1)) if m else None
    ctx.check(after("conditioning variables:") == list(nl.conditioning_vars), "nlg-conditioning-variables", info)
    ctx.check(after("conditional variables:") == list(nl.conditional_vars), "nlg-conditional-variables", info)
    m = re.search(r"noise covariance =\s*((?:\s*\[.*\]+\s*\n)+)", text)
    ok = False
    if m:
        got = [float(x) for x in NUMBER.findall(m.group(1))]
        want = np.asarray(nl.noise_cov, float).reshape(-1)
        ok = len(got) == len(want) and np.abs(np.array(got) - want).max() < 1e-3
    ctx.check(ok, "nlg-noise", info)
    shown = re.split(r"joint_distribution =|conditional update distribution =|conditioning distribution =", text)
    if not ctx.check(len(shown) == 4, "nlg-sections", info):
        return
    for i, (name, part) in enumerate((("joint", None), ("update", nl.conditional_update_factor), ("conditioning", nl.conditioning_factor))):
        b = blocks(shown[i + 1])
        if name == "joint":
            ref = refs.gref_of(nl.joint_distribution)
            if b:  # may be omitted
                agree(ctx, b[0], ref, info, "nlg-joint")
        elif part is None:
            ctx.check(not b, "nlg-" + name, info)
        elif ctx.check(len(b) == 1, "nlg-" + name, info):
            agree(ctx, b[0], refs.gref_of(part), info, "nlg-" + name)


# --------------------------------------------------------------------------------------------------------------------- plots
def at(refs_, xs):
    """log of the sum of one dimensional references at the points xs."""
    return refs.lse(np.array([-0.5 * r.K[0, 0] * xs ** 2 + r.h[0] * xs + r.g for r in refs_]), axis=0)


def near_curve(y, want_log, log, scale):
    """A drawn curve against log values."""
    tol = 1e-8 * (1.0 + scale)
    if log:
        return bool(np.all(np.abs(y - want_log) <= tol + 1e-9 * np.abs(want_log)))
    want = np.exp(want_log)
    return bool(np.all(np.abs(y - want) <= tol * want + 1e-300 + 1e-9 * want.max() * 1e-3))


def curve(ctx, mixture):
    import matplotlib.pyplot as plt
    from veroku.factors.experimental.gaussian_mixture import GaussianMixture

    rng = ctx.rng
    if mixture:
        nms = gen.names(rng, 1)
        parts = []
        for _ in range(int(rng.integers(1, 5))):
            cov, mean, lw, ref = gen.gaussian_params(rng, nms, float(rng.choice([1.0, 8.0])))
            lw2 = lw + float(rng.choice([0.0, -3.0, 2.0]))
            ref = refs.GRef(nms, ref.K, ref.h, ref.g + lw2 - lw)
            parts.append((gen.make_gaussian(rng, ref, cov, mean, lw2), ref))
        f, rs = GaussianMixture([p[0] for p in parts]), [p[1] for p in parts]
        if rng.random() < 0.3:
            g, r, _, _ = proper_1d(ctx, nms)
            f, rs = f.multiply(g), [x.mul(r) for x in rs]
    else:
        f, r, _, _ = some_gaussian(ctx, dim=1, proper=True)
        rs = [r]
    log = bool(rng.random() < 0.5)
    if log and not mixture and rng.random() < 0.4:  # potentials that under- or overflow
        from veroku.factors.gaussian import Gaussian

        shift = float(rng.choice([-1.0, 1.0]) * rng.uniform(740, 3000))
        f = f.multiply(Gaussian(prec=np.zeros((1, 1)), h_vec=np.zeros((1, 1)), g_val=shift, var_names=list(f.var_names))) if rng.random() < 0.3 \
            else Gaussian(prec=f.get_prec(), h_vec=f.get_h(), g_val=f.get_g() + shift, var_names=list(f.var_names))
        rs = [refs.GRef(r.names, r.K, r.h, r.g + shift)]
        ctx.count("extreme_weights")
    each = bool(mixture and rng.random() < 0.5)
    kw = {}
    if log or rng.random() < 0.5:
        kw["log"] = log
    if each:
        kw["show_individual_components"] = True
    xlim = None
    if rng.random() < 0.45:
        r = rs[int(rng.integers(len(rs)))]
        a = float(r.mean()[0] + rng.normal(0, 2) * np.sqrt(r.covariance()[0, 0]))
        xlim = [a, a + float(rng.uniform(0.2, 6))]
        kw["xlim"] = xlim
        ctx.count("limits_given")
    before = zoo.snapshot(f)
    plt.close("all")
    f.plot(**kw)
    lines = [(np.asarray(x.get_xdata(), float).reshape(-1), np.asarray(x.get_ydata(), float).reshape(-1)) for a in plt.gcf().axes for x in a.get_lines()]
    plt.close("all")

    def info():
        return f"plot({kw}) of " + "\n".join(refs.gfmt(r) for r in rs) + f"\ndrew {[(len(x), x[:3], x[-2:], y[:3]) for x, y in lines]}"
    ctx.count("log_plots", int(log))
    what = "mixture-curve" if mixture else "curve"
    if ctx.check(len(lines) >= 1 and all(len(x) == len(y) >= 10 for x, y in lines), what + "-missing", info):
        scale = max(abs(r.g) + r.h[0] ** 2 / abs(r.K[0, 0]) for r in rs)

        def drawn(group):
            return any(near_curve(y, at(group, x), log, scale) for x, y in lines)
        ctx.count("curves")
        ctx.count("curve_points", sum(len(x) for x, _ in lines))
        ctx.check(drawn(rs), what + "-values", info)
        if each:
            for r in rs:
                ctx.count("components_drawn")
                ctx.check(drawn([r]), what + "-component", info)
        # every drawn curve is the function or one of its components
        for x, y in lines:
            ctx.check(near_curve(y, at(rs, x), log, scale) or (each and any(near_curve(y, at([r], x), log, scale) for r in rs)), what + "-foreign", info)
            if xlim is not None:
                span = xlim[1] - xlim[0]
                ctx.check(abs(x.min() - xlim[0]) < 0.02 * span and abs(x.max() - xlim[1]) < 0.02 * span, what + "-limits", info)
            else:
                for r in rs:
                    m, s = r.mean()[0], np.sqrt(r.covariance()[0, 0])
                    ctx.check(x.min() <= m - 1.5 * s and x.max() >= m + 1.5 * s, what + "-default-limits", info)
    unchanged(ctx, before, f, "plotting", info)
    ctx.sig(what, log, each, xlim is None, tuple(np.round([r.g for r in rs], 6)))


def proper_1d(ctx, nms):
    cov, mean, lw, ref = gen.gaussian_params(ctx.rng, nms)
    return gen.make_gaussian(ctx.rng, ref, cov, mean, lw), ref, False, ""


@contextlib.contextmanager
def surfaces(out):
    """Record what is handed to matplotlib's surface plots."""
    from matplotlib.axes import Axes

    saved = {n: getattr(Axes, n) for n in ("contourf", "contour", "pcolormesh")}

    def wrap(orig):
        def f(self, *args, **kw):
            if len(args) >= 3 and self.get_label() != "<colorbar>":
                out.append((self, np.array(args[0], float), np.array(args[1], float), np.array(args[2], float)))
            return orig(self, *args, **kw)
        return f
    try:
        for n, o in saved.items():
            setattr(Axes, n, wrap(o))
        yield
    finally:
        for n, o in saved.items():
            setattr(Axes, n, o)


def check_surface(ctx, out, names, rs, log, lims, info, what):
    if not ctx.check(len(out) == 1, what + "-missing", lambda: f"{len(out)} surfaces\n" + info()):
        return
    ax, x, y, z = out[0]
    lx, ly = ax.get_xlabel(), ax.get_ylabel()
    if not ctx.check(sorted([lx, ly]) == sorted(names), what + "-labels", lambda: f"labels {lx!r} {ly!r}\n" + info()):
        return
    if x.ndim == 1:
        x, y = np.meshgrid(x, y)
    if not ctx.check(x.shape == y.shape == z.shape and z.size >= 100, what + "-shape", info):
        return
    pts = np.stack([x.reshape(-1), y.reshape(-1)])
    vals = []
    for r in rs:
        r = r.order([lx, ly])
        vals.append(-0.5 * np.einsum("in,ij,jn->n", pts, r.K, pts) + r.h @ pts + r.g)
    want = refs.lse(np.array(vals), axis=0)
    scale = max(abs(r.g) + r.h @ np.linalg.solve(r.K, r.h) for r in rs)
    ctx.count("surfaces")
    ctx.count("surface_points", z.size)
    ctx.check(near_curve(z.reshape(-1), want, log, scale), what + "-values", info)
    for arr, lab, k in ((x, lx, 0), (y, ly, 1)):
        if lims is not None and lims[k] is not None:
            lim = lims[k]
            span = lim[1] - lim[0]
            ctx.check(abs(arr.min() - lim[0]) < 0.03 * span and abs(arr.max() - lim[1]) < 0.03 * span, what + "-limits", info)
        else:
            for r in rs:
                m, s = r.mean()[r.names.index(lab)], np.sqrt(r.covariance()[r.names.index(lab)][r.names.index(lab)])
                ctx.check(arr.min() <= m - 1.5 * s and arr.max() >= m + 1.5 * s, what + "-default-limits", info)


def surface(ctx):
    import matplotlib.pyplot as plt

    rng = ctx.rng
    if rng.random() < 0.5:
        f, r, _, _ = some_gaussian(ctx, dim=2, proper=True)
        rs = [r]
        what = "surface"
    else:
        f, rs = zoo.make_gm(ctx, gen.names(rng, 2))
        what = "mixture-surface"
    if any(len(r.names) != 2 for r in rs):
        return
    log = bool(rng.random() < 0.5)
    kw = {"log": log}
    lims = None
    if rng.random() < 0.5:
        names = list(f.var_names)
        lims = []
        for v in names:
            m, s = rs[0].mean()[rs[0].names.index(v)], np.sqrt(rs[0].marg([v]).covariance()[0, 0])
            a = float(m + rng.normal() * s)
            lims.append([a, a + float(rng.uniform(0.5, 5) * s)])
        if rng.random() < 0.5:
            # a mixture makes both limits itself if only one is given
            one = int(rng.integers(2))
            kw[("xlim", "ylim")[one]] = lims[one]
            lims[1 - one] = None
            lims = lims if what == "surface" else None
            ctx.count("one_limit_given")
        else:
            kw.update(xlim=lims[0], ylim=lims[1])
        ctx.count("limits_given")
    before = zoo.snapshot(f)
    plt.close("all")
    out = []
    with surfaces(out):
        f.plot(**kw)

    def info():
        return f"plot({kw}) of {list(f.var_names)} " + "\n".join(refs.gfmt(r) for r in rs)
    ctx.count("log_plots", int(log))
    check_surface(ctx, out, list(f.var_names), rs, log, lims, info, what)
    plt.close("all")
    unchanged(ctx, before, f, "plotting", info)
    ctx.sig(what, log, lims is None, tuple(np.round([r.g for r in rs], 6)))


def nlg_views(ctx):
    """The picture of a non-linear Gaussian (mixture) shows its joint."""
    import matplotlib.pyplot as plt

    rng = ctx.rng
    cond, out = (lambda n: (n[:1], n[1:]))(gen.names(rng, 2))
    many = bool(rng.random() < 0.4)
    f = zoo.make_nlgm(ctx, cond, out)[0] if many else zoo.make_nlg(ctx, cond, out)[0]
    rs = [refs.gref_of(n.joint_distribution) for n in (f.nlgs if many else [f])]
    if min(np.linalg.eigvalsh(r.K)[0] for r in rs) < 1e-6:
        return
    before = zoo.snapshot(f)
    if rng.random() < 0.5:  # a joint which is up to date or not
        f.joint_distribution
        if not many and rng.random() < 0.5:
            f.sample(2)
    plt.close("all")
    shown = []
    with surfaces(shown):
        f.plot()

    def info():
        return f"plot of non-linear Gaussian {cond} -> {out}\n" + "\n".join(refs.gfmt(r) for r in rs)
    ctx.count("nlg_plots")
    check_surface(ctx, shown, list(f.var_names), rs, False, None, info, "nlg-surface")
    plt.close("all")
    unchanged(ctx, before, f, "plotting", info)
    ctx.sig("nlg", many, tuple(np.round([r.g for r in rs], 6)))


def vis(ctx):
    """The picture of the parameters: a heat map of the covariance and bars of the mean."""
    import matplotlib.pyplot as plt

    f, ref, _, state = some_gaussian(ctx, proper=True)
    names = list(f.var_names)
    r = ref.order(names)
    before = zoo.snapshot(f)
    plt.close("all")
    f.show_vis()

    def info():
        return f"show_vis of {state} {refs.gfmt(r)}"
    heat, bars = None, None
    for ax in plt.gcf().axes:
        for c in ax.collections:
            arr = c.get_array()
            if arr is not None and np.size(arr) == len(names) ** 2 and [t.get_text() for t in ax.get_xticklabels()] and ax.get_label() != "<colorbar>":
                if len(ax.get_yticklabels()) == len(names):
                    heat = (np.asarray(arr, float).reshape(len(names), len(names)), [t.get_text() for t in ax.get_xticklabels()],
                            [t.get_text() for t in ax.get_yticklabels()], [t.get_text() for t in ax.texts])
        if ax.patches and ax.containers:
            bars = ([p.get_height() for p in ax.patches], [t.get_text() for t in ax.get_xticklabels()])
    plt.close("all")
    ctx.count("heatmaps")
    cov, mean = r.covariance(), r.mean()
    if ctx.check(heat is not None, "heatmap-missing", info):
        arr, xl, yl, texts = heat
        if ctx.check(sorted(xl) == sorted(names) and sorted(yl) == sorted(names), "heatmap-labels", lambda: f"{xl} {yl}\n" + info()):
            want = np.array([[cov[names.index(b), names.index(a)] for a in xl] for b in yl])
            ctx.check(bool(np.all(np.abs(arr - want) <= 1e-7 * (1 + np.abs(want).max()))), "heatmap-values", lambda: f"{arr}\n" + info())
            if len(texts) == arr.size:
                got = np.array([float(t.replace("\u2212", "-")) for t in texts]).reshape(arr.shape)
                ctx.check(bool(np.all(np.abs(got - want) <= 0.06 * np.abs(want) + 1e-6)), "heatmap-annotation", lambda: f"{got}\n" + info())
    if ctx.check(bars is not None, "bars-missing", info):
        hs, labels = bars
        if ctx.check(sorted(labels) == sorted(names) and len(hs) == len(names), "bar-labels", lambda: f"{labels}\n" + info()):
            want = np.array([mean[names.index(v)] for v in labels])
            ctx.check(bool(np.all(np.abs(np.array(hs) - want) <= 1e-7 * (1 + np.abs(want).max()))), "bar-values", lambda: f"{hs}\n" + info())
    unchanged(ctx, before, f, "show_vis", info)
    ctx.sig("vis", state, refs.gfmt(r))
