"""M01: the constant-correlation likelihood is the bivariate normal likelihood."""
import math

import numpy as np
from hypothesis import strategies as st

from ref import garch as ref
from vf.core import Discard, Facet, Violation
from vf.garchgen import VARIANTS, any_series, ex, long_series, var_params
from vf.gen import SEEDS, fl, logfl

RHO = st.one_of(fl(-0.999, 0.999), st.sampled_from([0.0, 0.5, -0.5, 0.99, -0.99]))


def cmp(got, want, scale, what, sig):
    if not (math.isfinite(got) and abs(got - want) <= 1e-9 * scale):
        raise Violation(f"{what}: got {got!r}, expected {want!r}", sig)


def joined(a, b):
    x, y = ex(a), ex(b)
    n = min(len(x), len(y))
    return x[:n], y[:n]


def D(**kw):
    return st.fixed_dictionaries(kw)


def run_ll(case, ctx):
    e1, e2 = joined(case["e1"], case["e2"])
    n, rho = len(e1), case["rho"]
    r = np.random.RandomState(case["seed"])
    s1 = case["v1"] * np.exp(case["spread"] * r.standard_normal(n))
    s2 = case["v2"] * np.exp(case["spread"] * r.standard_normal(n))
    want = ref.bivariate_ll(e1, s1, e2, s2, rho)
    scale = float(np.sum(np.abs(np.log(s1)) + np.abs(np.log(s2)) + (e1**2 / s1 + e2**2 / s2) / (1 - rho**2))) + n * (1 + abs(math.log(1 - rho**2)))
    ctx.nt(n > 1 and rho != 0 and np.any(e1 * e2 != 0))
    m = ctx.native.alg.GARCHModel_CCC(e1.copy(), e2.copy())
    f = m.loglikelihood
    cmp(f(e1, s1, e2, s2, rho), want, scale, "likelihood", "ll")
    cmp(f(e2, s2, e1, s1, rho), want, scale, "swapped assets", "swap")
    cmp(f(-e1, s1, e2, s2, -rho), want, scale, "first asset's sign", "sign")
    cmp(f(e1, s1, -e2, s2, -rho), want, scale, "second asset's sign", "sign")
    cmp(f(e1, s1, e2, s2, 0.0), ref.normal_ll(e1, s1) + ref.normal_ll(e2, s2), scale, "zero correlation", "zero")
    u = ctx.native.alg.GARCHModel(e1.copy())
    cmp(f(e1, s1, e2, s2, 0.0), u.loglikelihood(e1, s1) + u.loglikelihood(e2, s2), scale, "zero correlation vs univariate", "zero")


@st.composite
def objective_case(draw, src=any_series(2, 200)):
    return {"x1": draw(src), "x2": draw(src), "p1": draw(var_params("garch")), "p2": draw(var_params("garch")),
            "mu1": draw(fl(-2, 2)), "mu2": draw(fl(-2, 2)), "rho": draw(RHO), "bc": draw(logfl(1e-3, 1e3))}


def run_objective(case, ctx):
    x1, x2 = joined(case["x1"], case["x2"])
    n, rho = len(x1), case["rho"]
    mu1, mu2 = case["mu1"] * (np.std(x1) + 1e-3), case["mu2"] * (np.std(x2) + 1e-3)
    e1, e2 = x1 - mu1, x2 - mu2
    if np.max(np.abs(e1)) < 1e-8 or np.max(np.abs(e2)) < 1e-8:
        raise Discard("no variation")
    s1 = ref.variance(case["p1"], e1, ref.backcast(e1), ref.variance_bounds(e1), False)
    s2 = ref.variance(case["p2"], e2, ref.backcast(e2), ref.variance_bounds(e2), False)
    if min(s1.min(), s2.min()) < 1e-150 or max(s1.max(), s2.max()) > 1e150:
        raise Discard("variance not positive")
    want = -ref.bivariate_ll(e1, s1, e2, s2, rho)
    scale = float(np.sum(np.abs(np.log(s1)) + np.abs(np.log(s2)) + (e1**2 / s1 + e2**2 / s2) / (1 - rho**2))) + n * (1 + abs(math.log(1 - rho**2)))
    ctx.nt(n > 2 and case["p1"] != case["p2"] and rho != 0)
    for v in VARIANTS:
        m = ctx.variant(v).alg.GARCHModel_CCC(x1.copy(), x2.copy())
        q = np.array([mu1, *case["p1"], mu2, *case["p2"], rho])
        # what the fit hands over: the starting values and bounds at the sample means
        d1, d2 = x1 - x1.mean(), x2 - x2.mean()
        f = m.loglikelihood_model(q, ref.backcast(d1), ref.backcast(d2), ref.variance_bounds(d1), ref.variance_bounds(d2))
        cmp(f, want, scale, f"{v} objective", "objective")
        w = ctx.variant(v).alg.GARCHModel_CCC(x2.copy(), x1.copy())
        q = np.array([mu2, *case["p2"], mu1, *case["p1"], rho])
        f = w.loglikelihood_model(q, ref.backcast(d2), ref.backcast(d1), ref.variance_bounds(d2), ref.variance_bounds(d1))
        cmp(f, want, scale, f"{v} objective of swapped assets", "objective swap")


SCALE = 3  # quick-tier case counts are multiplied by this
FACETS = [
    Facet("likelihood", lambda: D(e1=any_series(1, 150), e2=any_series(1, 150), v1=logfl(1e-3, 1e3), v2=logfl(1e-3, 1e3), spread=fl(0, 2),
                                  rho=RHO, seed=SEEDS), run_ll, "two days or more, correlation not zero", 3200, 40000, shards=4, tshards=8),
    Facet("objective", objective_case, run_objective, "three days or more, different margins, correlation not zero", 2400, 30000, shards=4, tshards=8,
          variants=VARIANTS),
    Facet("long", lambda: objective_case(long_series(400, 8000)), run_objective, "at least 400 days, different margins, correlation not zero", 30, 1000, shards=4, tshards=8,
          variants=VARIANTS),
]
ASSUMPTIONS = ["the reference sums log densities of N(0, [[s1, c],[c, s2]]) with the explicit determinant and inverse"]
