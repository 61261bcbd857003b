"""Generators of fitted states for the long-run MES checks."""
import numpy as np
from hypothesis import strategies as st

from ref import garch as gref
from vf.core import Discard
from vf.gen import SEEDS, fl, logfl


@st.composite
def asset(draw):
    p = draw(st.one_of(fl(0, 0.999), st.just(1.0), st.just(0.0)))
    al = draw(fl(0, 1)) * p
    ga = draw(st.one_of(fl(0, 1), st.just(0.0))) * 2 * (p - al)
    v = draw(logfl(0.05, 30.0))
    return {"mu": draw(fl(-1.5, 1.5)), "omega": v * max(1 - p, 1e-3), "alpha": al, "gamma": ga, "beta": max(0.0, p - al - ga / 2), "v": v}


@st.composite
def fitted(draw, max_T=60):
    t, s = draw(fl(0, 1)), draw(st.one_of(fl(0, 1), st.sampled_from([0.0, 1.0])))
    return {"T": draw(st.integers(4, max_T)), "i": draw(asset()), "m": draw(asset()), "rho": draw(st.one_of(fl(-0.95, 0.95), fl(-0.999, 0.999), fl(-0.95, 0.95), st.sampled_from([1.0, -1.0]))), "a": 0.5 * t * s, "b": s - 0.5 * t * s,
            "seed": draw(SEEDS), "fat": draw(st.booleans()), "spread": draw(fl(0, 1))}


def state(case):
    """resids and variances of both assets in a fitted state."""
    r = np.random.RandomState(case["seed"])
    T = case["T"]
    z = r.standard_t(3, (2, T)) if case["fat"] else r.standard_normal((2, T))
    zm = z[1]
    zi = case["rho"] * zm + np.sqrt(1 - case["rho"] ** 2) * z[0]
    si = case["i"]["v"] * np.exp(case["spread"] * r.standard_normal(T))
    sm = case["m"]["v"] * np.exp(case["spread"] * r.standard_normal(T))
    if np.std(zi) < 1e-3 or np.std(zm) < 1e-3:
        raise Discard("constant residuals")
    q = [1.0, 1.0]
    for x, y in zip(zi, zm):
        q = [(1 - case["a"] - case["b"]) + case["a"] * x * x + case["b"] * q[0], (1 - case["a"] - case["b"]) + case["a"] * y * y + case["b"] * q[1]]
        if min(q) < 1e-4:
            raise Discard("vanishing variance of the correlation process")
    return zi * np.sqrt(si), si, zm * np.sqrt(sm), sm


def inject(ns, case):
    """A LongRunMarginalExpectedShortfall whose models are in the given fitted state."""
    ei, si, em, sm = state(case)
    o = ns.measures.LongRunMarginalExpectedShortfall(np.expm1(ei / 300), np.expm1(em / 300))
    for m, e, s, p in ((o.firm_model, ei, si, case["i"]), (o.market_model, em, sm, case["m"])):
        m.resids, m.sigma2 = e.copy(), s.copy()
        m.parameters = type(m).Parameters(p["mu"], p["omega"], p["alpha"], p["gamma"], p["beta"], gref.normal_ll(e, s))
        m.estimation_success = True
    d = o.dcc_model
    i, m = case["i"], case["m"]
    d.parameters = type(d).Parameters(i["mu"], i["omega"], i["alpha"], i["gamma"], i["beta"], m["mu"], m["omega"], m["alpha"], m["gamma"], m["beta"],
                                      case["a"], case["b"], -1.0)
    d.estimation_success = True
    return o, (ei, si, em, sm)


def perfect(case):
    """Whether the firm's shocks are the market's, which leaves no residual; and the tolerance in that case."""
    return abs(case["rho"]) == 1.0


def tol(case):
    return 1e-6 if perfect(case) else 1e-8


def pars(case):
    return {"i": case["i"], "m": case["m"]}
