"""R02: contingent claim analysis recovers the put of the firm that generated the equity data."""
import math

import numpy as np
from hypothesis import strategies as st
from scipy.special import ndtr

from vf.core import Discard, Facet, Violation
from vf.gen import fl, logfl


@st.composite
def firm(draw):
    return {"D": draw(st.one_of(logfl(1e-3, 1e9), logfl(0.5, 500))), "lev": draw(st.one_of(fl(0.05, 1.2), logfl(0.01, 3))), "s": draw(st.one_of(fl(0.05, 1.0), logfl(0.01, 2.5))),
            "r": draw(st.one_of(fl(0, 0.12), fl(-0.05, 0.15), st.just(0.0))), "T": draw(st.one_of(fl(0.1, 20), st.sampled_from([1.0, 5.0]), logfl(0.02, 50))), "spread": draw(st.one_of(st.just(0.0), fl(0, 1000), fl(0, 10), logfl(1000, 1e5))),
            "up": draw(fl(0, 500)), "c": draw(logfl(1e-3, 1e3))}


def truth(f):
    A, v = f["D"] / f["lev"], f["s"] * math.sqrt(f["T"])
    X = f["D"] * math.exp(-f["r"] * f["T"])
    d1 = math.log(A / X) / v + v / 2
    E = A * ndtr(d1) - X * ndtr(d1 - v)
    if E < 2e-3 * A:
        raise Discard("hardly any equity")
    put = X * ndtr(v - d1) - A * ndtr(-d1)
    vol = ndtr(d1) * f["s"] * A / E
    return E, vol, put, X


def contribution(f, put, X, spread):
    debt = X - put
    return put - X * (1 - math.exp(-spread / 10000 * (f["D"] / debt - 1) * f["T"]))


def run(case, ctx):
    f = case
    E, vol, put, X = truth(f)
    M = ctx.native.measures
    est = lambda spread, c=1.0: M.ContingentClaimAnalysis.estimate(E * c, vol, f["r"], f["D"] * c, f["T"], spread)
    tol = 2e-6 * f["D"]
    # how an error of the put carries over to the contribution put - X (1 - exp(-k)), k = spread (D / debt - 1) T
    debt, w = X - put, f["spread"] / 10000 * f["T"]
    drift = 4 * tol * w * f["D"] / debt ** 2 + 1e-12 * w
    k = w * (f["D"] / debt - 1)
    judged = drift < 0.1
    slope = 2 + X * math.exp(min(drift - k, 600)) * drift / tol
    ctx.nt(put > 1e-4 * f["D"])
    ctx.label("spread" if f["spread"] else "no spread", "put" if put > 1e-4 * f["D"] else "tiny put",
              "negative rate" if f["r"] < 0 else "rate")

    def eq(got, want, what, t=tol):
        if not abs(got - want) <= t:
            raise Violation(f"{what}: {got!r}, expected {want!r}; firm {f}, equity {E!r}, volatility {vol!r}", what)
    got = est(f["spread"])
    eq(got[0], put, "put")
    if judged:
        eq(got[1], contribution(f, put, X, f["spread"]), "contribution", tol * slope)
    # relations, to rounding only: they hold for whatever root was found
    zero = est(0.0)
    if not abs(zero[1] - zero[0]) <= 1e-12 * f["D"]:
        raise Violation(f"a zero spread leaves {zero[1]!r} of the put {zero[0]!r}", "zero spread")
    eq(got[0], zero[0], "put under another spread", 1e-12 * f["D"])
    more = est(f["spread"] + f["up"])
    if X - got[0] < f["D"] and more[1] > got[1] + 1e-12 * f["D"]:  # debt above its face value (negative rates) turns the sign
        raise Violation(f"a higher spread raises the contribution from {got[1]!r} to {more[1]!r}; {f}", "monotone in spread")
    big = est(f["spread"], f["c"])
    eq(big[0], got[0] * f["c"], "scaled put", 2 * tol * f["c"])
    if judged:
        eq(big[1], got[1] * f["c"], "scaled contribution", 2 * tol * f["c"] * slope)
    again = M.ContingentClaimAnalysis().estimate(equity=E, volatility=vol, risk_free_rate=f["r"], default_barrier=f["D"], time_to_maturity=f["T"], cds_spread=f["spread"])
    if again != got:
        raise Violation(f"keyword call on an instance gives {again}, not {got}", "keywords")


SCALE = 2  # quick-tier case counts are multiplied by this
FACETS = [Facet("firms", firm, run, "the put is worth at least 0.01 % of the debt", 4800, 60000, shards=6, tshards=8)]
ASSUMPTIONS = ["firms are generated from their asset value (debt 1 % to 300 % of assets), asset volatility 1 % to 250 %, rate -5 to 15 %, maturity of a week to 50 years and equity at least 0.2 % of assets; "
               "outside that range the equations are too flat for the solver and are not judged",
               "the solver's default tolerance is absorbed by 2e-6 of the face value of debt"]
