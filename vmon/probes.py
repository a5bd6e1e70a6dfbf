"""
Probes: hooks on the public methods of the real factor classes, installed at run time while real cluster graph inference
executes. Each hooked call is checked against the reference models from the operand values captured before the call.
"""
import contextlib

import numpy as np

from . import refs

TOL = dict(rtol=1e-9, atol=1e-8)


@contextlib.contextmanager
def hooked(cls, methods):
    """methods: {name: wrapper(original) -> function}. Only methods defined on cls itself are replaced."""
    saved = {}
    try:
        for name, wrap in methods.items():
            if name in cls.__dict__:
                saved[name] = cls.__dict__[name]
                setattr(cls, name, wrap(saved[name]))
        yield
    finally:
        for name, orig in saved.items():
            setattr(cls, name, orig)


def _same_operands(ctx, before, factors, what):
    for b, f in zip(before, factors):
        now = refs.tab_of(f)
        ctx.check(now.names == b.names and refs.logs_close(now.logs, b.logs, rtol=0, atol=0), f"probe:{what}:operand-changed",
                  lambda: f"before {refs.fmt(b)}\nafter {refs.fmt(now)}")


def discrete_probe(ctx, which, loss=None):
    """Hook tables for a discrete factor class. which: set of method names to be observed.

    loss: log-domain drop below which values are rounding noise relative to the largest value (marginals)."""

    def binary(name, op):
        def wrap(orig):
            def f(self, factor, *args, **kwargs):
                a, b = refs.tab_of(self), refs.tab_of(factor)
                res = orig(self, factor, *args, **kwargs)
                ctx.count(f"probe_{name}")
                got, want = refs.tab_of(res), op(a, b)
                ctx.seen("probe_shapes", name, tuple(a.logs.shape), tuple(b.logs.shape),
                         tuple(b.names.index(n) if n in b.names else -1 for n in a.names))
                ctx.check(refs.tabs_close(got, want, **TOL), f"probe:{name}",
                          lambda: f"{refs.fmt(a)}\n{name} {refs.fmt(b)}\n= {refs.fmt(got)}\nexpected {refs.fmt(want)}")
                _same_operands(ctx, (a, b), (self, factor), name)
                return res
            return f
        return wrap

    def marg(orig):
        def f(self, vrs, keep=True):
            a = refs.tab_of(self)
            vrs_given = list(vrs) if not isinstance(vrs, str) else [vrs]
            res = orig(self, vrs, keep)
            ctx.count("probe_marginalize")
            kept = vrs_given if keep else [n for n in a.names if n not in vrs_given]
            got, want = refs.tab_of(res), a.marg(kept)
            ctx.seen("probe_shapes", "marg", tuple(a.logs.shape), tuple(a.names.index(n) for n in kept))
            ctx.check(refs.tabs_close(got, want, **TOL), "probe:marginalize",
                      lambda: f"{refs.fmt(a)}\nto {kept}\n= {refs.fmt(got)}\nexpected {refs.fmt(want)}")
            _same_operands(ctx, (a,), (self,), "marginalize")
            return res
        return f

    def red(orig):
        def f(self, vrs, values):
            a = refs.tab_of(self)
            ev = dict(zip(vrs, values))
            res = orig(self, vrs, values)
            ctx.count("probe_reduce")
            got, want = refs.tab_of(res), a.reduce(ev)
            ctx.seen("probe_shapes", "reduce", tuple(a.logs.shape), tuple(a.names.index(n) for n in ev))
            ctx.check(refs.tabs_close(got, want, **TOL), "probe:reduce",
                      lambda: f"{refs.fmt(a)}\nat {ev}\n= {refs.fmt(got)}\nexpected {refs.fmt(want)}")
            _same_operands(ctx, (a,), (self,), "reduce")
            return res
        return f

    table = {
        "multiply": binary("multiply", lambda a, b: a.mul(b)),
        "cancel": binary("cancel", lambda a, b: a.cancel(b)),
        "marginalize": marg,
        "reduce": red,
    }
    return {k: v for k, v in table.items() if k in which}


def gaussian_probe(ctx, which, tol=None):
    tol = tol or dict(rtol=1e-7, atol=1e-7)

    def readable(f):
        try:
            return refs.gref_of(f)
        except Exception:  # covariance form without an inverse etc.: outside the domain
            return None

    def binary(name, op):
        def wrap(orig):
            def f(self, factor, *args, **kwargs):
                a, b = readable(self), readable(factor) if hasattr(factor, "get_prec") else None
                res = orig(self, factor, *args, **kwargs)
                if a is not None and b is not None and hasattr(res, "get_prec"):
                    ctx.count(f"probe_{name}")
                    got, want = refs.gref_of(res), op(a, b)
                    ctx.seen("probe_shapes", name, len(a.names), len(b.names),
                             tuple(b.names.index(n) if n in b.names else -1 for n in a.names),
                             self.covform, self.canform, factor.covform, factor.canform)
                    ctx.check(refs.grefs_close(got, want, **tol), f"probe:{name}",
                              lambda: f"{refs.gfmt(a)}\n{name} {refs.gfmt(b)}\n= {refs.gfmt(got)}\nexpected {refs.gfmt(want)}")
                return res
            return f
        return wrap

    def marg(orig):
        def f(self, vrs, keep=True):
            a = readable(self)
            vrs_given = list(vrs) if not isinstance(vrs, str) else [vrs]
            res = orig(self, vrs, keep)
            if a is None or np.allclose(a.K, 0.0):
                return res
            kept = vrs_given if keep else [n for n in a.names if n not in vrs_given]
            out = [n for n in a.names if n not in kept]
            y = a.idx(out)
            kyy = a.K[np.ix_(y, y)]
            # well posed only
            if out and (np.linalg.eigvalsh(kyy)[0] <= 1e-6 * max(1.0, np.abs(a.K).max())):
                return res
            ctx.count("probe_marginalize")
            got, want = refs.gref_of(res), a.marg(kept)
            ctx.check(refs.grefs_close(got, want, **tol), "probe:marginalize",
                      lambda: f"{refs.gfmt(a)}\nto {kept}\n= {refs.gfmt(got)}\nexpected {refs.gfmt(want)}")
            return res
        return f

    def red(orig):
        def f(self, vrs, values):
            a = readable(self)
            ev = dict(zip(vrs, np.array(values, float).ravel()))
            res = orig(self, vrs, values)
            if a is None:
                return res
            ctx.count("probe_reduce")
            got, want = refs.gref_of(res), a.reduce(ev)
            ctx.check(refs.grefs_close(got, want, **tol), "probe:reduce",
                      lambda: f"{refs.gfmt(a)}\nat {ev}\n= {refs.gfmt(got)}\nexpected {refs.gfmt(want)}")
            return res
        return f

    table = {
        "multiply": binary("multiply", lambda a, b: a.mul(b)),
        "divide": binary("divide", lambda a, b: a.div(b)),
        "marginalize": marg,
        "reduce": red,
    }
    return {k: v for k, v in table.items() if k in which}
