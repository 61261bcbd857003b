"""R06: Z-score and Kyle's lambda equal their formulas."""
import math

import numpy as np
from hypothesis import strategies as st

from vf.core import Discard, Facet, Violation
from vf.gen import SEEDS, fl, length, logfl, val


@st.composite
def z_case(draw):
    if draw(st.booleans()):
        past = draw(st.lists(val(-2, 2), min_size=2, max_size=12))
    else:
        past = {"n": draw(length(2, 200, 5000)), "seed": draw(SEEDS), "scale": draw(logfl(1e-4, 10))}
    return {"past": past, "roa": draw(fl(-1, 1)), "cap": draw(fl(0, 1)), "shift": draw(fl(-3, 3)), "c": draw(logfl(1e-3, 1e3)), "perm": draw(SEEDS), "list": draw(st.booleans())}


def run_z(case, ctx):
    p = case["past"]
    x = np.array(p, float) if isinstance(p, list) else np.random.RandomState(p["seed"]).standard_normal(p["n"]) * p["scale"]
    m = math.fsum(x) / len(x)
    sd = math.sqrt(math.fsum((v - m) ** 2 for v in x) / len(x))
    if sd < 1e-6 * (1 + np.max(np.abs(x))):
        raise Discard("constant past")
    want = (case["roa"] + case["cap"]) / sd
    ctx.nt(len(x) > 2 and abs(want) > 1e-6)
    z = ctx.native.measures.z_score

    def eq(got, what, tol=1e-9):
        if not abs(got - want) <= tol * (abs(want) + (abs(case["roa"]) + case["cap"]) * 1e-6 / sd + 1e-9):
            raise Violation(f"{what}: {got!r}, expected {want!r}", what)
    eq(z(case["roa"], case["cap"], x.tolist() if case["list"] else x.copy()), "z-score")
    eq(z(roa=case["roa"], capital_ratio=case["cap"], past_roas=x.copy()), "keywords")
    eq(z(case["roa"], case["cap"], x[np.random.RandomState(case["perm"]).permutation(len(x))]), "reordered past")
    eq(z(case["roa"], case["cap"], x + case["shift"]), "shifted past", 1e-9 + 1e-12 * abs(case["shift"]) / sd)
    eq(z(case["roa"] * case["c"], case["cap"] * case["c"], x * case["c"]), "rescaled")
    eq(-z(-case["roa"], -case["cap"], -x), "sign")


@st.composite
def k_case(draw):
    if draw(st.booleans()):
        n = draw(st.integers(1, 10))
        return {"x": draw(st.lists(val(-1e6, 1e6), min_size=n, max_size=n)), "y": draw(st.lists(val(-1, 1), min_size=n, max_size=n)), "c": draw(logfl(1e-3, 1e3)), "lam": draw(fl(-1e-3, 1e-3)),
                "perm": draw(SEEDS), "list": draw(st.booleans())}
    return {"n": draw(length(1, 300, 5000)), "seed": draw(SEEDS), "vol": draw(logfl(1, 1e9)), "r2": draw(fl(0, 1)), "lam": draw(fl(-1e-3, 1e-3)), "c": draw(logfl(1e-3, 1e3)), "mean": draw(fl(-2, 2)),
            "perm": draw(SEEDS), "list": draw(st.booleans())}


def run_k(case, ctx):
    if "x" in case:
        x, y = np.array(case["x"], float), np.array(case["y"], float)
    else:
        r = np.random.RandomState(case["seed"])
        x = (r.standard_normal(case["n"]) + case["mean"]) * case["vol"]
        y = case["lam"] / case["vol"] * x + (1 - case["r2"]) * r.standard_normal(case["n"]) * 0.01 + case["mean"] * 0.002
    xx = math.fsum(v * v for v in x)
    if xx == 0:
        raise Discard("no volume")
    want = math.fsum(a * b for a, b in zip(x, y)) / xx * 1e6
    scale = math.hypot(*y) / math.hypot(*x) * 1e6  # squares of tiny returns would vanish
    tol = 1e-9 * scale + 1e-290
    ctx.nt(len(x) > 1 and abs(want) > 1e-6 * scale and len(set(x.tolist())) > 1)
    k = ctx.native.measures.kyle_lambda

    def eq(got, exp, what, t=tol):
        if np.ndim(got) != 0 or not abs(got - exp) <= t:
            raise Violation(f"{what}: {got!r}, expected {exp!r}", what)
    eq(k(y.tolist(), x.tolist()) if case["list"] else k(y.copy(), x.copy()), want, "lambda")
    eq(k(returns=y.copy(), signed_dollar_volume=x.copy()), want, "keywords")
    e = y - want / 1e6 * x
    got = k(e, x.copy())  # what is left has no slope
    eq(got, 0.0, "orthogonal residuals", 1e-8 * scale)
    lam = case["lam"] / max(1.0, float(np.max(np.abs(x))))
    eq(k(lam * x, x.copy()), lam * 1e6, "noiseless slope", 1e-9 * abs(lam) * 1e6 + 1e-290)
    eq(k(y * case["c"], x.copy()), want * case["c"], "scaled returns", tol * case["c"])
    eq(k(y.copy(), x * case["c"]), want / case["c"], "scaled volume", tol / case["c"])
    p = np.random.RandomState(case["perm"]).permutation(len(x))
    eq(k(y[p], x[p]), want, "reordered")


SCALE = 4  # quick-tier case counts are multiplied by this
FACETS = [Facet("z_score", z_case, run_z, "more than two past values and a nonzero score", 3000, 40000, shards=2, tshards=8),
          Facet("kyle", k_case, run_k, "at least two different volumes and a nonzero slope", 3000, 40000, shards=3, tshards=8)]
ASSUMPTIONS = ["past returns on assets are not constant and some volume is not zero"]
