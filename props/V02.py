"""V02: the objective of the univariate models is the Gaussian likelihood of the data."""
import math

import numpy as np
from hypothesis import strategies as st

from ref import garch as ref
from vf.core import Discard, Facet, Violation
from vf.garchgen import VARIANTS, any_series, bounds_spec, ex, long_series, make_bounds, model_cls, var_params
from vf.gen import fl, logfl


@st.composite
def ll_case(draw, src=any_series(2, 250)):
    kind = draw(st.sampled_from(["garch", "gjr"]))
    return {"kind": kind, "returns": draw(src), "zero_mean": draw(st.booleans()),
            "mu": draw(st.one_of(fl(-3, 3), st.sampled_from([0.0, "mean", 10.0]))), "params": draw(var_params(kind, 1.0)),
            "unit": draw(st.booleans()), "bc": draw(st.one_of(st.none(), logfl(1e-6, 1e4), st.just(0.0))), "bounds": draw(bounds_spec()),
            "shift": draw(fl(-20, 20)), "c": draw(st.one_of(logfl(1e-3, 1e3), logfl(1e-3, 1e3).map(lambda v: -v)))}


def close_ll(got, want, scale, what, sig):
    """Log-likelihoods are compared relative to the size of the sum's terms."""
    if not (math.isfinite(got) and abs(got - want) <= 1e-9 * scale):
        raise Violation(f"{what}: got {got!r}, expected {want!r} (scale {scale:.3g})", sig=sig)


def run_ll(case, ctx):
    x = ex(case["returns"])
    zm, kind = case["zero_mean"], case["kind"]
    gjr = kind == "gjr"
    mu = 0.0 if zm else float(np.mean(x)) if case["mu"] == "mean" else case["mu"] * (np.std(x) + 1e-3)
    e = x - mu
    if np.max(np.abs(e)) < 1e-9:
        raise Discard("no variation")
    om, rest = case["params"][0], case["params"][1:]
    vp = [om * (ref.backcast(e) + 1e-6) if case["unit"] else om, *rest]
    bc = ref.backcast(e) if case["bc"] is None else case["bc"]
    b = make_bounds(case["bounds"], e)
    s2 = ref.variance(vp, e, bc, b, gjr)
    if not (np.all(s2 > 1e-250) and np.all(s2 < 1e250)):
        raise Discard("variance not positive")
    want = -ref.normal_ll(e, s2)
    scale = float(np.sum(np.abs(np.log(s2)) + e**2 / s2)) + len(e)
    params = vp if zm else [mu, *vp]
    ctx.nt(len(x) > 2 and (e[:-1] < 0).any() and (e[:-1] > 0).any())
    ctx.label(kind, "zero mean" if zm else "mean")
    for v in VARIANTS:
        m = model_cls(ctx.variant(v), kind)(x.copy(), zero_mean=zm)
        f = m.loglikelihood_model(np.array(params), bc, b.copy(), zm)
        close_ll(f, want, scale, f"{v} {kind} objective", "objective")
        close_ll(-m.loglikelihood(e.copy(), s2.copy()), want, scale, f"{v} loglikelihood", "loglikelihood")
        if not zm:
            d = case["shift"]
            m2 = model_cls(ctx.variant(v), kind)(x + d, zero_mean=False)
            f2 = m2.loglikelihood_model(np.array([mu + d, *vp]), bc, b.copy(), False)
            e2 = (x + d) - (mu + d)
            want2 = -ref.normal_ll(e2, ref.variance(vp, e2, bc, b, gjr))
            if np.array_equal(e2 < 0, e < 0):
                close_ll(f2, want2, scale, f"{v} {kind} objective of shifted returns", "shift")
                # tolerance: the drift of the exact values themselves under rounding, plus the usual
                close_ll(f2, f, scale + 2e9 * abs(want2 - want), f"{v} {kind} shift invariance", "shift")
        c = case["c"]
        if not gjr or c > 0:
            m3 = model_cls(ctx.variant(v), kind)(x * c, zero_mean=zm)
            p3 = [vp[0] * c * c, *vp[1:]]
            bb = b * c * c
            # the compression of variances above their bound adds log(s/hi), which has no scale
            hit = np.any(s2[1:] > b[1:, 1])
            if not hit:
                f3 = m3.loglikelihood_model(np.array(p3 if zm else [mu * c, *p3]), bc * c * c, bb, zm)
                close_ll(f3, want + len(x) * math.log(abs(c)), scale + len(x) * abs(math.log(abs(c))) + 1,
                         f"{v} {kind} scale law", "scale")
                ctx.label("scaled")


SCALE = 4  # quick-tier case counts are multiplied by this
FACETS = [Facet("objective", ll_case, run_ll, "returns on both sides of the mean", 3000, 60000, shards=6, tshards=8, variants=VARIANTS),
          Facet("long", lambda: ll_case(long_series()), run_ll, "returns on both sides of the mean, at least 400 days", 40, 1500, shards=4, tshards=8, variants=VARIANTS)]
ASSUMPTIONS = ["the scale law is judged where no variance is compressed above its upper bound (log-compression is not scale-free)"]
