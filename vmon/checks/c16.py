"""C16: non-linear Gaussian factors match the sigma-point model and are exact if linear."""
import itertools

import numpy as np

from vmon import gen, models, refs, zoo

NUM = 16
RULE = ("random programs (absorb, cancel, observe, copy, weight, mixture splits) on real non-linear Gaussians next to a reference that "
        "keeps the absorbed factors and evidence and recomputes the equal-weight sigma-point joint (and, for linear transforms, the exact "
        "linear-Gaussian joint) after every operation; plus message passing in graphs of linear NLGs against batch inference; "
        "non-trivial: at least one operation on a conditioned factor; distinct by program, scopes and transform")
COUNTS = {"quick": 1300, "thorough": 60000}
REQUIRED = {"ops": 4000, "joints": 2000, "linear_exact": 500, "vacuous_joints": 400, "observed_conditioning": 400, "observed_conditional": 400,
            "multi_dim_conditioning": 500, "marginals": 1000, "mixtures": 200, "graphs": 60, "cancelled": 60, "named_transforms": 300,
            "fully_observed_conditioning": 150}


def _keep(rng, f, keep):
    if len(keep) == 1 and rng.random() < 0.2:
        return f.marginalize(list(keep)[0])
    return f.marginalize(list(keep)) if rng.random() < 0.3 else f.marginalize(list(keep), keep=True)


class Named:
    """A transform that looks its inputs up by name, and records whether names and rows agree in number."""

    def __init__(self, inner, names):
        self.inner, self.names, self.kind = inner, list(names), inner.kind
        self.bad = 0

    def __call__(self, x, var_names):
        x = np.asarray(x, float)
        if sorted(var_names) != sorted(self.names) or x.shape[0] != len(self.names):
            self.bad += 1
        return self.inner.raw(x[[list(var_names).index(v) for v in self.names], :])

    def raw(self, x):
        return self.inner.raw(x)

    def __deepcopy__(self, memo):
        return self


class State:
    """What a non-linear Gaussian should represent."""

    def __init__(self, cond, out, tr, noise):
        self.cond, self.out, self.tr, self.noise = list(cond), list(out), tr, noise
        self.lw = 0.0
        self.C = None
        self.U = None
        self.ev = {}

    def copy(self):
        s = State(self.cond, self.out, self.tr, self.noise)
        s.lw, s.C, s.U, s.ev = self.lw, self.C, self.U, dict(self.ev)
        return s

    def mul(self, ref, sign):
        s = self.copy()
        slot = "U" if set(ref.names) <= set(s.out) else "C"
        old = getattr(s, slot)
        if old is None:
            old = refs.GRef(ref.names, np.zeros_like(ref.K), np.zeros_like(ref.h), 0.0)
        setattr(s, slot, old.mul(ref) if sign > 0 else old.div(ref))
        return s

    def kind(self):
        """vacuous, proper, or None (outside of the domain)."""
        c = [] if self.C is None else self.C.names
        if set(c) | (set(self.ev) & set(self.cond)) != set(self.cond):
            return "vacuous"
        if c:
            r = self.C.reduce({v: self.ev[v] for v in c if v in self.ev})
            if r.names:
                low = np.linalg.eigvalsh(r.K)[0]
                if 0 < np.abs(r.K).max() < 1e-9:  # rounding noise of a cancelled precision: neither vacuous nor meaningful
                    return None
                if abs(low) <= 1e-13 * np.abs(r.K).max():
                    return "vacuous"
                if low < 0.02:
                    return None
        return "proper"

    def joints(self):
        """The joints for every variable order in which the sigma points may be laid out (all equal if linear)."""
        c = None
        if self.C is not None:
            c = self.C.reduce({v: self.ev[v] for v in self.C.names if v in self.ev})
        free = [v for v in self.cond if v not in self.ev]
        res = []
        for order in itertools.permutations(free):
            order = list(order)
            if order:
                cov, mean = c.order(order).covariance(), c.order(order).mean()
                low = np.linalg.cholesky(cov)
                k = np.sqrt(len(order) + 0.5)
                pts = np.stack([mean + s * k * low[:, i] for i in range(len(order)) for s in (-1, 1)] + [mean], axis=1)
            else:
                pts = np.zeros((0, 1))
            full = np.stack([pts[order.index(v)] if v in order else np.full(pts.shape[1], float(self.ev[v])) for v in self.cond])
            y = self.tr.raw(full)
            z = np.concatenate([full[[self.cond.index(v) for v in order]], y]) if order else y
            m = z.mean(axis=1)
            d = z - m[:, None]
            cov = d @ d.T / z.shape[1]
            n = len(order)
            cov[n:, n:] += self.noise
            lw = self.lw + (c.log_mass() if c is not None else 0.0)
            res.append(self.update(refs.GRef.cov(order + self.out, cov, m, lw)))
            if self.tr.kind == "linear":
                break
        return res

    def update(self, joint):
        if self.U is not None:
            joint = joint.mul(self.U)
        obs = {v: self.ev[v] for v in self.out if v in self.ev}
        return joint.reduce(obs) if obs else joint

    def exact(self):
        """The exact joint of a linear transform."""
        inner = self.tr.inner if isinstance(self.tr, Named) else self.tr
        a, b = inner.a, inner.b.ravel()
        lin = models.linear_gaussian_ref(a, self.noise, self.cond, self.out)
        n = len(self.cond)
        shift = np.concatenate([np.zeros(n), b])  # y - b
        lin = refs.GRef(lin.names, lin.K, lin.K @ shift, lin.g - 0.5 * shift @ lin.K @ shift + self.lw)
        if self.C is not None:
            lin = lin.mul(self.C)
        if self.U is not None:
            lin = lin.mul(self.U)
        return lin.reduce(self.ev) if self.ev else lin

    def describe(self):
        parts = [f"{self.cond} -> {self.out} {self.tr.kind} evidence {self.ev} weight {self.lw}"]
        for n, x in (("conditioning", self.C), ("update", self.U)):
            if x is not None:
                parts.append(n + " " + refs.gfmt(x))
        return "\n".join(parts)


def make(ctx, linear=None, pool=None):
    from veroku.factors.experimental.nonlinear_gaussian import NonLinearGaussian, NonLinearGaussianTemplate

    rng = ctx.rng
    nx, ny = int(rng.integers(1, 4)), int(rng.integers(1, 3))
    if pool is None and rng.random() < 0.05:
        nx, ny = int(rng.integers(4, 7)), int(rng.integers(1, 5))
    nms = gen.names(rng, nx + ny, pool)
    cond, out = nms[:nx], nms[nx:]
    kind = "linear" if linear or rng.random() < 0.35 else str(rng.choice(["sin", "square", "abs", "tanh"]))
    tr = zoo.Transform(kind, rng.normal(0, 1, (ny, nx)), rng.normal(0, 1, ny))
    if rng.random() < 0.5:
        tr = Named(tr, cond)
        ctx.count("named_transforms")
    noise = gen.spd(rng, ny)
    if rng.random() < 0.15 and not any("{" in v or "}" in v for v in nms):
        t = NonLinearGaussianTemplate(["{}".join(["", ""]) and v for v in cond], list(out), tr, noise.copy())
        f = t.make_factor(format_dict={}) if rng.random() < 0.5 else t.make_factor(conditioning_vars=list(cond), conditional_vars=list(out))
    else:
        f = NonLinearGaussian(list(cond), list(out), tr, noise.copy())
    return f, State(cond, out, tr, noise)


def potential(ctx, scope, width=1.0):
    rng = ctx.rng
    cov, mean, lw, _ = gen.gaussian_params(rng, scope, mean_scale=2.0)
    cov = cov * width
    ref = refs.GRef.cov(scope, cov, mean, lw)
    return gen.make_gaussian(rng, ref, cov, mean, lw), ref


def random_op(ctx, f, st, hist):
    """Apply one operation to the real factor and the reference."""
    from veroku.factors.gaussian import Gaussian

    rng = ctx.rng
    op = str(rng.choice(["mul-c", "mul-c", "mul-c-full", "mul-u", "mul-u", "div-c", "div-u", "cancel", "reduce-c", "reduce-u", "reduce", "copy",
                         "weight", "vacuous"]))
    if op in ("mul-c", "mul-u", "mul-c-full"):
        side = st.out if op == "mul-u" else st.cond
        scope = gen.subset(rng, side, 1) if op != "mul-c-full" else gen.perm(rng, side)
        g, ref = potential(ctx, scope)
        how = str(rng.choice(["multiply", "absorb", "mul"]))
        f2 = f * g if how == "mul" else getattr(f, how)(g)
        hist.append((g, ref))
        return op, f2, st.mul(ref, 1)
    if op in ("div-c", "div-u"):
        base = st.C if op == "div-c" else st.U
        if base is None and op == "div-c":
            return None
        side = base.names if base is not None else st.out
        g, ref = potential(ctx, gen.subset(rng, side, 1), width=40.0)
        if st.mul(ref, -1).kind() is None:
            return None
        return op, _div(rng, f, g), st.mul(ref, -1)
    if op == "cancel":
        if not hist:
            return None
        i = int(rng.integers(len(hist)))
        if st.mul(hist[i][1], -1).kind() is None:
            return None
        g, ref = hist.pop(i)
        ctx.count("cancelled")
        return op, _div(rng, f, g), st.mul(ref, -1)
    if op.startswith("reduce"):
        side = {"reduce-c": st.cond, "reduce-u": st.out, "reduce": st.cond + st.out}[op]
        side = [v for v in side if v not in st.ev]
        if not side:
            return None
        vrs = gen.subset(rng, side, 1)
        vals = [float(x) for x in rng.normal(0, 1.5, len(vrs))]
        s = st.copy()
        s.ev.update(zip(vrs, vals))
        f2 = getattr(f, str(rng.choice(["reduce", "observe"])))(list(vrs), list(vals))
        return op, f2, s
    if op == "copy":
        return op, f.copy(), st
    if op == "vacuous":
        v = Gaussian.make_vacuous(gen.subset(rng, st.cond if rng.random() < 0.5 else st.out, 1))
        return op, (f.multiply(v) if rng.random() < 0.5 else f.divide(v)), st
    f2, s = f.copy(), st.copy()
    w = float(rng.normal())
    f2.add_log_weight(w)
    s.lw += w
    return op, f2, s


def _div(rng, f, g):
    how = str(rng.choice(["divide", "cancel", "div"]))
    return f / g if how == "div" else getattr(f, how)(g)


def case(ctx):
    u = ctx.rng.random()
    if u < 0.12:
        return graph_case(ctx)
    if u < 0.3:
        return mixture_case(ctx)
    rng = ctx.rng
    f, st = make(ctx)
    program, hist = [], []
    effective = 0
    for _ in range(int(rng.integers(3, 9))):
        res = random_op(ctx, f, st, hist)
        if res is None:
            continue
        op, f, st = res
        program.append(op)
        ctx.count("ops")
        k = check(ctx, f, st, program)
        if k is False:
            return
        effective += k == "proper"
    if effective:
        ctx.sig(tuple(program), st.tr.kind, tuple(st.cond), tuple(st.out))
    ctx.sample(f"{program} {st.describe()}")


def tol_of(ref, st):
    kk = max([1.0] + [float(np.abs(x.K).max(initial=0)) for x in (st.C, st.U) if x is not None])
    cond = np.linalg.cond(ref.K) if ref.names else 1.0
    return cond, kk


def domain(ref):
    return not ref.names or (np.linalg.eigvalsh(ref.K)[0] > 0.02 and np.linalg.cond(ref.K) < 1e6)


def close(a, b):
    return refs.grefs_close(a, b, rtol=1e-8, atol=1e-7)


def check(ctx, f, st, program):
    rng = ctx.rng

    def info():
        return f"{program}\n{st.describe()}"
    if not ctx.check(list(f.var_names) == st.cond + st.out, "scope", info):
        return False
    kind = st.kind()
    if kind is None:
        ctx.count("outside_domain")
        return None
    joint = f.joint_distribution
    if kind == "vacuous":
        ctx.count("vacuous_joints")
        ok = (set(joint.var_names) == set(f.var_names) and bool(joint._is_vacuous) and np.all(joint.get_prec() == 0) and
              np.all(joint.get_h() == 0))
        if not ctx.check(ok, "insufficiently-conditioned", info):
            return False
        return vacuous_marginals(ctx, f, st, info)
    want = st.joints()
    if not all(domain(w) for w in want):
        ctx.count("outside_domain")
        return None
    got = refs.gref_of(joint) if joint.var_names else None
    if got is None:
        got = refs.GRef([], np.zeros((0, 0)), np.zeros(0), float(joint.get_g()) if joint.canform else float(joint.get_log_weight()))
    ctx.count("joints")
    obs_c = [v for v in st.cond if v in st.ev]
    ctx.count("observed_conditioning", bool(obs_c))
    ctx.count("observed_conditional", any(v in st.ev for v in st.out))
    ctx.count("fully_observed_conditioning", len(obs_c) == len(st.cond))
    ctx.count("multi_dim_conditioning", len(st.cond) - len(obs_c) > 1)
    ctx.seen("configurations", st.tr.kind, len(st.cond), len(st.out), len(obs_c), len(st.ev), st.C is not None, st.U is not None)
    match = [w for w in want if close(got, w)]
    if not ctx.check(bool(match), "joint", lambda: info() + f"\nis {refs.gfmt(got)}\nexpected {refs.gfmt(want[0])}"):
        return False
    want = match[0]
    if st.tr.kind == "linear":
        ctx.count("linear_exact")
        if not ctx.check(close(got, st.exact()), "linear-exact", lambda: info() + f"\nis {refs.gfmt(got)}\nexpected {refs.gfmt(st.exact())}"):
            return False
    if isinstance(st.tr, Named):
        if not ctx.check(st.tr.bad == 0, "transform-arguments", info):
            return False
    if want.names:
        return accessors(ctx, f, st, want, info) and "proper"
    return "proper"


def accessors(ctx, f, st, want, info):
    rng = ctx.rng
    names = list(f.joint_distribution.var_names)
    w = want.order(names)
    scale = max(1.0, float(np.abs(w.K).max()), float(np.abs(w.h).max()), abs(w.g))
    c = f.copy()
    tol = 1e-7 * scale
    ok = (np.all(np.abs(c.get_prec() - w.K) <= tol) and np.all(np.abs(np.ravel(c.get_h()) - w.h) <= tol) and abs(c.get_g() - w.g) <= tol)
    if not ctx.check(bool(ok), "canonical-accessors", info):
        return False
    cov, mean = w.covariance(), w.mean()
    tol = 1e-7 * max(1.0, np.abs(cov).max(), np.abs(mean).max()) * 10
    ok = (np.all(np.abs(c.get_cov() - cov) <= tol) and np.all(np.abs(np.ravel(c.get_mean()) - mean) <= tol) and
          abs(c.get_log_weight() - w.log_mass()) <= 1e-6 * scale)
    if not ctx.check(bool(ok), "covariance-accessors", info):
        return False
    keep = gen.subset(rng, names, 1)
    ctx.count("marginals")
    if rng.random() < 0.6:
        m = _keep(rng, f, keep)
    else:
        m = f.marginalize(gen.perm(rng, [v for v in f.var_names if v not in keep]), keep=False)
    if not ctx.check(close(refs.gref_of(m), w.marg(keep)), "marginal", lambda: info() + f"\nto {keep}\nis {refs.gfmt(refs.gref_of(m))}\n"
                     f"expected {refs.gfmt(w.marg(keep))}"):
        return False
    if rng.random() < 0.5:
        n = refs.gref_of(f.normalize())
        if not ctx.check(close(n, refs.GRef(w.names, w.K, w.h, w.g - w.log_mass())), "normalize", info):
            return False
    if rng.random() < 0.5 and abs(w.log_mass()) < 1.5:
        ctx.count("equality")
        other = f.copy()
        other.add_log_weight(0.05)
        if not ctx.check(f.equals(f.copy()) and not f.equals(other), "equals", info):
            return False
    return True


def vacuous_marginals(ctx, f, st, info):
    """Marginals of what has been absorbed on either side are available before the joint is."""
    rng = ctx.rng
    for side, ref in ((st.cond, st.C), (st.out, st.U)):
        if any(v in st.ev for v in st.cond + st.out):
            continue
        if ref is not None and np.abs(ref.K).max() > 1e-7:
            if np.linalg.eigvalsh(ref.K)[0] < 0.02:
                continue
            keep = gen.subset(rng, ref.names, 1)
            m = refs.gref_of(_keep(rng, f, keep))
            w = ref.marg(keep)
            ctx.count("absorbed_marginals")
            ok = set(m.names) == set(keep) and refs.arr_close(m.order(keep).K, w.K, 1e-7, 1e-7) and refs.arr_close(m.order(keep).h, w.h, 1e-7,
                                                                                                              1e-7)
            if not ctx.check(ok, "marginal-of-absorbed-factor", lambda: info() + f"\nto {keep} is {refs.gfmt(m)} expected {refs.gfmt(w)}"):
                return False
        elif ref is None:
            keep = gen.subset(rng, side, 1)
            m = _keep(rng, f, keep)
            if not ctx.check(bool(m._is_vacuous) and set(m.var_names) == set(keep), "marginal-of-nothing", info):
                return False
    return "vacuous"


# -------------------------------------------------------------------------------------------------------------------- mixtures
def mixture_case(ctx):
    from veroku.factors.experimental.gaussian_mixture import GaussianMixture
    from veroku.factors.experimental.nonlinear_gaussian import NonLinearGaussianMixture

    rng = ctx.rng
    f, st = make(ctx)
    program = []
    split = bool(rng.random() < 0.6)
    for _ in range(int(rng.integers(0, 3))):
        res = random_op(ctx, f, st, [])
        if res is not None:
            op, f, st = res
            program.append(op)
    if rng.random() < 0.25:
        gs = [potential(ctx, st.cond) for _ in range(int(rng.integers(2, 4)))]
        f = f.multiply(GaussianMixture([g for g, _ in gs]))
        program.append("nlg*gm")
        if not ctx.check(isinstance(f, NonLinearGaussianMixture), "nlg-times-mixture", str(type(f))):
            return
        states = [st.mul(r, 1) for _, r in gs]
        split = f.split_singles_before_absorb
    else:
        n = int(rng.integers(1, 3))
        f = NonLinearGaussianMixture([f] * n, split_singles_before_absorb=split) if not split or rng.random() < 0.5 else \
            NonLinearGaussianMixture([f] * n)
        states = [st] * n
        program.append(f"nlgm x{n} split={split}")
    for _ in range(int(rng.integers(1, 5))):
        op = str(rng.choice(["g-c", "g-c-full", "gm-c", "g-u", "gm-u", "div-g", "div-gm", "reduce", "copy"]))
        program.append(op)
        s0 = states[0]
        if op in ("g-c", "g-u", "gm-c", "gm-u", "g-c-full"):
            side = s0.out if op.endswith("-u") else s0.cond
            scope = gen.subset(rng, side, 1) if op != "g-c-full" else gen.perm(rng, side)
            m = 1 if op.startswith("g-") else int(rng.integers(1, 3))
            if len(states) * (3 if m == 1 else m) > 12:
                continue
            gs = [potential(ctx, scope) for _ in range(m)]
            factor = gs[0][0] if op.startswith("g-") else GaussianMixture([g for g, _ in gs])
            parts = [r for _, r in gs]
            if m == 1 and split and len(scope) == 1:
                parts = split3(parts[0])
                ctx.count("splits")
            f = f.multiply(factor) if rng.random() < 0.7 else f * factor
            states = [s.mul(r, 1) for r in parts for s in states]
        elif op in ("div-g", "div-gm"):
            if any(s.C is None for s in states):
                continue
            scope = gen.subset(rng, s0.C.names, 1)
            gs = [potential(ctx, scope, width=60.0) for _ in range(1 if op == "div-g" else 2)]
            factor, ref = gs[0]
            if op == "div-gm":
                factor = GaussianMixture([g for g, _ in gs])
                ref = moment_match([r for _, r in gs])
            if any(s.mul(ref, -1).kind() is None for s in states):
                continue
            f = _div(rng, f, factor)
            states = [s.mul(ref, -1) for s in states]
        elif op == "reduce":
            side = [v for v in s0.cond + s0.out if v not in s0.ev]
            if len(side) < 2:
                continue
            vrs = gen.subset(rng, side, 1, 1)
            vals = [float(rng.normal())]
            f = f.reduce(list(vrs), gen.values(rng, vals))
            new = []
            for s in states:
                s = s.copy()
                s.ev.update(zip(vrs, vals))
                new.append(s)
            states = new
        else:
            f = f.copy()
        ctx.count("ops")
        if not ctx.check(f.split_singles_before_absorb == split, "split-option", str(program)):
            return
        if not check_mixture(ctx, f, states, program):
            return
    ctx.count("mixtures")
    ctx.sig("mixture", tuple(program), len(states), states[0].tr.kind)


def split3(ref):
    """Three equal components at mean and mean +- sd, with the variance of the whole."""
    v, m, lw = float(ref.covariance()[0, 0]), float(ref.mean()[0]), ref.log_mass()
    return [refs.GRef.cov(ref.names, [[v / 3]], [m + d * np.sqrt(v)], lw + np.log(1 / 3)) for d in (-1, 0, 1)]


def moment_match(parts):
    lw = np.array([p.log_mass() for p in parts])
    w = np.exp(lw - refs.lse(lw))
    names = parts[0].names
    ms = [p.order(names).mean() for p in parts]
    mean = sum(a * m for a, m in zip(w, ms))
    cov = sum(a * (p.order(names).covariance() + np.outer(m - mean, m - mean)) for a, p, m in zip(w, parts, ms))
    return refs.GRef.cov(names, cov, mean, refs.lse(lw))


def check_mixture(ctx, f, states, program):
    rng = ctx.rng

    def info():
        return f"{program}\n" + "\n--\n".join(s.describe() for s in states[:4])
    if not ctx.check(len(f.nlgs) == len(states), "mixture-components", lambda: info() + f"\n{len(f.nlgs)} expected {len(states)}"):
        return False
    kinds = {s.kind() for s in states}
    if kinds != {"proper"}:
        ctx.count("mixture_not_proper")
        return True
    options = [s.joints() for s in states]
    if not all(domain(w) for o in options for w in o) or not options[0][0].names:
        ctx.count("outside_domain")
        return True
    joint = f.joint_distribution
    left = list(options)
    chosen = []
    for comp in joint.components:
        got = refs.gref_of(comp)
        hit = next(((i, w) for i, o in enumerate(left) for w in o if close(got, w)), None)
        if not ctx.check(hit is not None, "mixture-joint", lambda: info() + f"\nunexpected component {refs.gfmt(got)}\nexpected one of "
                         + "\n".join(refs.gfmt(w) for o in left for w in o)[:2000]):
            return False
        left.pop(hit[0])
        chosen.append(hit[1])
    ctx.count("mixture_joints")
    keep = gen.subset(rng, chosen[0].names, 1)
    m = _keep(rng, f, keep)
    want = [w.marg(keep) for w in chosen]
    got = [refs.gref_of(c) for c in m.components]
    ok = len(got) == len(want)
    for g in got:
        hit = next((i for i, w in enumerate(want) if close(g, w)), None)
        if hit is None:
            ok = False
            break
        want.pop(hit)
    return ctx.check(ok, "mixture-marginal", lambda: info() + f"\nto {keep}")


# ---------------------------------------------------------------------------------------------------------------------- graphs
def graph_case(ctx):
    """Trees of linear NLGs with observations, by message passing, against batch inference."""
    from veroku.cluster_graph import ClusterGraph
    from veroku.factors.experimental.nonlinear_gaussian import NonLinearGaussian

    rng = ctx.rng
    nms = iter(gen.names(rng, 20))
    blocks = [[next(nms) for _ in range(int(rng.integers(1, 3)))]]
    g, ref = potential(ctx, blocks[0])
    facs, grefs, ev = [g], [ref], {}
    for _ in range(int(rng.integers(1, 4))):
        x = blocks[int(rng.integers(len(blocks)))]
        y = [next(nms) for _ in range(int(rng.integers(1, 3)))]
        blocks.append(y)
        link(ctx, NonLinearGaussian, x, y, facs, grefs)
        if rng.random() < 0.7:
            z = [next(nms)]
            link(ctx, NonLinearGaussian, y, z, facs, grefs)
            if rng.random() < 0.8:
                ev[z[0]] = float(rng.normal(0, 2))
    order = gen.perm(rng, range(len(facs)))
    joint = grefs[0]
    for r in grefs[1:]:
        joint = joint.mul(r)
    post = joint.reduce(ev) if ev else joint
    cg = ClusterGraph([facs[i] for i in order], evidence=dict(ev) or None, disable_tqdm=True)
    cg.process_graph(tol=1e-13, max_iter=20)
    ctx.count("graphs")
    ctx.count("graph_observations", len(ev))
    cov, mean = post.covariance(), post.mean()
    for b in blocks:
        m = cg.get_marginal(list(b))
        i = post.idx(list(m.var_names))
        ok = (refs.arr_close(np.ravel(m.get_mean()), mean[i], 1e-6, 1e-6) and refs.arr_close(m.get_cov(), cov[np.ix_(i, i)], 1e-6, 1e-6))
        ctx.check(ok, "graph-marginal", lambda: f"{b} evidence {ev}\nmean {np.ravel(m.get_mean())} expected {mean[i]}\ncov {m.get_cov()}\n"
                  f"expected {cov[np.ix_(i, i)]}")
    ctx.sig("graph", len(facs), tuple(len(b) for b in blocks), len(ev))


def link(ctx, cls, x, y, facs, grefs):
    rng = ctx.rng
    a = rng.normal(0, 1, (len(y), len(x)))
    a[np.diag_indices(min(a.shape))] += 0.7
    b = rng.normal(0, 1, len(y))
    tr = zoo.Transform("linear", a, b)
    noise = gen.spd(rng, len(y), 0.3, 1.5)
    facs.append(cls(list(x), list(y), tr, noise))
    s = State(x, y, tr, noise)
    grefs.append(s.exact())
