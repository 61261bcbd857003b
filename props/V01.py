"""V01: conditional variances follow the documented recursion."""
import numpy as np
from hypothesis import strategies as st

from ref import garch as ref
from vf.core import Facet, Violation
from vf.garchgen import LAM, VARIANTS, any_series, bounds_spec, ex, expect, long_series, make_bounds, model_cls, var_params
from vf.gen import SEEDS, fl, logfl

KINDS = st.sampled_from(["garch", "gjr"])


@st.composite
def variance_case(draw, src=any_series):
    kind = draw(KINDS)
    s = draw(src())
    return {"kind": kind, "resids": s, "params": draw(var_params(kind)), "bc": draw(st.one_of(st.none(), logfl(1e-8, 1e4), st.just(0.0))),
            "bounds": draw(bounds_spec())}


def run_variance(case, ctx):
    e = ex(case["resids"])
    gjr = case["kind"] == "gjr"
    bc = ref.backcast(e) if case["bc"] is None else case["bc"]
    b = make_bounds(case["bounds"], e)
    want = ref.variance(case["params"], e, bc, b, gjr)
    free = ref.variance(case["params"], e, bc, np.tile([0.0, np.inf], (len(e), 1)), gjr)
    ctx.label("lower" if np.any(want[1:] == b[1:, 0]) else "nolower")
    ctx.label("upper" if np.any(want[1:] > b[1:, 1]) else "noupper")
    if np.isinf(free).any():
        ctx.label("overflow")
    ctx.nt(len(e) > 2 and (e[:-1] < 0).any() and (e[:-1] > 0).any())
    for v in VARIANTS:
        cls = model_cls(ctx.variant(v), case["kind"])
        got = cls.compute_variance(case["params"], e.copy(), bc, b.copy())
        expect(got, want, f"{v} {case['kind']} variance")
        # parameters may come as an array, too
        got = cls.compute_variance(np.array(case["params"]), e.copy(), bc, b.copy())
        expect(got, want, f"{v} {case['kind']} variance from array parameters")


def run_bounds(case, ctx):
    e = ex(case["resids"])
    want_bc = ref.backcast(e)
    want_b = ref.variance_bounds(e)
    ctx.nt(len(e) > 1 and len(set(np.abs(e))) > 1)
    ctx.label("T>75" if len(e) > 75 else "T<=75")
    if len(e) > 1 and (want_b[:, 0] * 1e6 <= np.var(e) / 1e8 * 1.0000001).any():
        ctx.label("global lower")
    # the global lower bound has the rounding error of a variance
    atol = 1e-13 * (np.max(np.abs(e)) ** 2 / 1e14)
    for v in VARIANTS:
        for kind in ("garch", "gjr"):
            cls = model_cls(ctx.variant(v), kind)
            expect(cls.backcast(e.copy()), want_bc, f"{v} backcast")
            got = cls.variance_bounds(e.copy())
            expect(got[:, 0], want_b[:, 0], f"{v} lower bounds", atol=atol)
            expect(got[:, 1], want_b[:, 1], f"{v} upper bounds", atol=atol * 1e12)
            expect(cls.ewma(e.copy(), case["init"], case["lam"]), ref.ewma(e, case["init"], case["lam"]), f"{v} ewma")
            expect(cls.ewma(e.copy(), case["init"]), ref.ewma(e, case["init"]), f"{v} ewma default decay")


def run_check(case, ctx):
    lo, hi, s = case["lo"], case["lo"] * case["ratio"], case["s"]
    if case["inf"]:
        s = float("inf")
    want = ref.bound(s, lo, hi)
    ctx.nt(want != s)
    ctx.label("inf" if case["inf"] else "low" if s < lo else "high" if s > hi else "inside")
    for v in VARIANTS:
        got = ctx.variant(v).alg.GARCHModel.bounds_check(s, np.array([lo, hi]))
        expect(got, want, f"{v} bounds_check", rtol=1e-12)


@st.composite
def zero_case(draw):
    return {"resids": draw(any_series()), "params": draw(var_params("garch")), "bc": draw(logfl(1e-8, 1e4)), "bounds": draw(bounds_spec())}


def run_zero(case, ctx):
    e, b = ex(case["resids"]), None
    b = make_bounds(case["bounds"], e)
    om, al, be = case["params"]
    ctx.nt(len(e) > 2 and (e[:-1] < 0).any())
    for v in VARIANTS:
        ns = ctx.variant(v)
        g = ns.alg.GARCHModel.compute_variance([om, al, be], e, case["bc"], b)
        j = ns.alg.GJRGARCHModel.compute_variance([om, al, 0.0, be], e, case["bc"], b)
        expect(j, g, f"{v} GJR with zero leverage", rtol=1e-12)


@st.composite
def forecast_case(draw):
    return {"resids": draw(any_series()), "params": draw(var_params("gjr")), "v0": draw(st.one_of(logfl(1e-8, 1e4), logfl(1e-8, 1e4), st.just(0.0))), "mu": draw(fl(-1, 1))}


def run_forecast(case, ctx):
    e = ex(case["resids"])
    om, al, ga, be = case["params"]
    want = [case["v0"]]
    for t in range(1, len(e)):
        want.append(om + al * e[t - 1] ** 2 + be * want[-1] + (ga * e[t - 1] ** 2 if e[t - 1] < 0 else 0.0))
    ctx.nt(len(e) > 2 and (e[:-1] < 0).any() and (e[:-1] > 0).any())
    for v in VARIANTS:
        ns = ctx.variant(v)
        p = ns.alg.GJRGARCHModel.Parameters(case["mu"], om, al, ga, be)
        got = ns.alg.GJRGARCHModel.forecast_variance(p, e.copy(), case["v0"])
        expect(got, np.array(want[1:]), f"{v} forecast")


def run_model(case, ctx):
    """The state a model prepares before a fit is built from the demeaned (or raw) returns."""
    x = ex(case["returns"])
    e = x if case["zero_mean"] else x - np.mean(x)
    ctx.nt(len(x) > 2)
    ctx.label("zero mean" if case["zero_mean"] else "mean")
    sc = max(1e-300, float(np.max(np.abs(x))) ** 2)
    for v in VARIANTS:
        for kind in ("garch", "gjr"):
            m = model_cls(ctx.variant(v), kind)(x.copy(), zero_mean=case["zero_mean"])
            m.preparation()
            want = ref.variance_bounds(e)
            expect(m.backcast_value, ref.backcast(e), f"{v} {kind} model backcast", atol=1e-14 * sc)
            expect(m.var_bounds[:, 0], want[:, 0], f"{v} {kind} model lower bounds", atol=1e-14 * sc / 1e6)
            expect(m.var_bounds[:, 1], want[:, 1], f"{v} {kind} model upper bounds", atol=1e-14 * sc * 1e6)


@st.composite
def long_case(draw):
    return dict(draw(variance_case(long_series)), init=draw(logfl(1e-8, 1e4)), lam=draw(LAM), mu=draw(fl(-1, 1)))


def run_long(case, ctx):
    """The same on thousands of days."""
    run_variance(case, ctx)
    run_bounds(case, ctx)
    if case["kind"] == "gjr":
        run_forecast(dict(case, v0=case["init"]), ctx)


def D(**kw):
    return st.fixed_dictionaries(kw)


SCALE = 2  # quick-tier case counts are multiplied by this
FACETS = [
    Facet("variance", variance_case, run_variance, "residuals of both signs, at least 3 days", 2400, 40000, shards=3, tshards=8,
          variants=VARIANTS, weight=3,
          probes=({"kind": "garch", "resids": {"kind": "explicit", "values": [1.0, -2.0, 3.0]}, "params": [1e308, 10.0, 1e308], "bc": 1e300, "bounds": {"how": "model"}},
                  {"kind": "gjr", "resids": {"kind": "explicit", "values": [1.0, -2.0, 3.0]}, "params": [1e308, 10.0, 1.0, 1e308], "bc": 1e300, "bounds": {"how": "model"}},
                  {"kind": "garch", "resids": {"kind": "explicit", "values": [1.0]}, "params": [0.1, 0.1, 0.8], "bc": 2.0, "bounds": {"how": "model"}})),
    Facet("long", long_case, run_long, "residuals of both signs and sizes, at least 400 days", 60, 1500, shards=4, tshards=8, variants=VARIANTS, weight=2),
    Facet("bounds", lambda: D(resids=any_series(1, 300), init=logfl(1e-8, 1e4), lam=LAM), run_bounds,
          "at least two distinct sizes of residuals", 800, 12000, shards=2, tshards=4, variants=VARIANTS, weight=2),
    Facet("bounds_check", lambda: D(s=st.one_of(logfl(1e-12, 1e12), st.just(0.0)), lo=logfl(1e-9, 1e6), ratio=logfl(1, 1e6), inf=st.sampled_from([False, False, False, True])),
          run_check, "the variance lies outside its bounds", 800, 8000, variants=VARIANTS),
    Facet("zero_leverage", zero_case, run_zero, "a negative residual drives a later variance", 600, 8000, variants=VARIANTS),
    Facet("forecast", forecast_case, run_forecast, "residuals of both signs", 800, 8000, variants=VARIANTS),
    Facet("model_state", lambda: D(returns=any_series(2, 200), zero_mean=st.booleans()), run_model, "at least 3 returns", 240, 3000,
          variants=VARIANTS, weight=2),
]
ASSUMPTIONS = ["the reference is a scalar transcription of docs/algorithms/garch.md and gjr-garch.md with math.fsum",
               "relative tolerance 1e-9 absorbs the order of floating-point operations"]
