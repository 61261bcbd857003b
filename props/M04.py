"""M04: dynamic-correlation likelihood and two-step fit are consistent."""
import math

import numpy as np
from hypothesis import strategies as st

from props.M03 import ab, corr_case, dcc, margins
from ref import garch as ref
from vf.core import Discard, Facet, Violation
from vf.garchgen import VARIANTS, model_cls, pair_regime, simulate_pair
from vf.gen import fl

UNI = ["mu", "omega", "alpha", "gamma", "beta"]


def clipped_ll(e1, s1, e2, s2, a, b):
    rho = np.clip(ref.dcc_rho(a, b, e1 / np.sqrt(s1), e2 / np.sqrt(s2)), -0.99, 0.99)
    return ref.bivariate_ll(e1, s1, e2, s2, rho)


def size(e1, s1, e2, s2):
    return float(np.sum(np.abs(np.log(s1)) + np.abs(np.log(s2)) + (e1**2 / s1 + e2**2 / s2) / 0.02)) + 8 * len(e1)


def run_ll(case, ctx):
    z1, z2, s1, s2 = margins(case)
    a, b = case["ab"]
    e1, e2 = z1 * np.sqrt(s1), z2 * np.sqrt(s2)
    q = [1.0, 1.0]
    for x, y in zip(z1[:-1], z2[:-1]):
        q = [(1 - a - b) + a * x * x + b * q[0], (1 - a - b) + a * y * y + b * q[1]]
        if min(q) < 1e-6:
            raise Discard("vanishing variance of the correlation process")
    rho = ref.dcc_rho(a, b, z1, z2)
    want = ref.bivariate_ll(e1, s1, e2, s2, np.clip(rho, -0.99, 0.99))
    ctx.nt(len(z1) > 3 and np.ptp(rho) > 1e-3)
    if np.max(np.abs(rho)) > 0.99:
        ctx.label("correlation limited")
    for v in VARIANTS:
        m = dcc(ctx.variant(v), case["gjr"], e1, s1, e2, s2)
        got = -m.loglikelihood_model(np.array([a, b]))
        if not abs(got - want) <= 1e-8 * size(e1, s1, e2, s2):
            raise Violation(f"{v}: log-likelihood {got!r}, expected {want!r} at a={a}, b={b}", "ll")


# ------------------------------------------------------------------ fits
WAYS = st.sampled_from(["array", "fresh", "fitted"])


@st.composite
def fit_case(draw):
    return {"pair": draw(pair_regime(80, 300)), "gjr": draw(st.booleans()), "ways": [draw(WAYS), draw(WAYS)],
            "zero_mean": draw(st.sampled_from([[False, False], [False, False], [True, True], [True, False], [False, True]])), "variant": draw(st.sampled_from(["native", "native", "native", "pure"]))}


def make(ns, case, ways, x, y):
    out = []
    for r, w, zm in zip((x, y), ways, case["zero_mean"]):
        if w == "array":
            out.append(r.copy())
            continue
        m = model_cls(ns, "gjr" if case["gjr"] else "garch")(r.copy(), zero_mean=zm)
        if w == "fitted":
            m.fit()
        out.append(m)
    return (ns.alg.GJRGARCHModel_DCC if case["gjr"] else ns.alg.GARCHModel_DCC)(*out), out


def run_fit(case, ctx):
    ns = ctx.variant(case["variant"])
    x, y = simulate_pair(case["pair"], 0)
    ways = ["fresh" if zm and w == "array" else w for w, zm in zip(case["ways"], case["zero_mean"])]
    d, given = make(ns, case, ways, x, y)
    P = d.fit()
    m1, m2 = d.model1, d.model2
    if not (m1.estimation_success and m2.estimation_success):
        ctx.label("margin not converged")
        return
    if not d.estimation_success:
        ctx.label("not converged")
        return
    ctx.nt()
    ctx.label(*ways, "gjr" if case["gjr"] else "garch", case["variant"])
    what = f"{case['variant']} {'gjr' if case['gjr'] else 'garch'} {ways}"
    if P != d.parameters:
        raise Violation(f"{what}: fit returned {P}, the model keeps {d.parameters}", "kept")
    # margins: the same numbers as a univariate fit, reported under their own names
    names = UNI if case["gjr"] else [n for n in UNI if n != "gamma"]
    for i, (m, r, zm) in enumerate(((m1, x, case["zero_mean"][0]), (m2, y, case["zero_mean"][1])), 1):
        u = model_cls(ns, "gjr" if case["gjr"] else "garch")(r.copy(), zero_mean=zm)
        U = u.fit()
        for n in names:
            got, want = getattr(P, f"{n}{i}"), getattr(U, n)
            if not abs(got - want) <= 1e-6 * (abs(want) + 1e-3):
                raise Violation(f"{what}: {n}{i}={got!r}, the univariate fit has {want!r}", "margins")
            if got != getattr(m.parameters, n):
                raise Violation(f"{what}: {n}{i} is not the margin's {n}", "margins")
    a, b = P.a, P.b
    if not (-1e-9 <= a <= 1 + 1e-9 and -1e-9 <= b <= 1 + 1e-9 and a + b <= 1 + 1e-4):
        raise Violation(f"{what}: a={a!r}, b={b!r} not admissible", "feasible")
    st8 = (m1.resids, m1.sigma2, m2.resids, m2.sigma2)
    want = clipped_ll(*st8, a, b)
    tol = 1e-7 * size(*st8)
    if not abs(P.loglikelihood - want) <= tol:
        raise Violation(f"{what}: reported log-likelihood {P.loglikelihood!r}, {want!r} at (a, b)=({a}, {b})", "ll")
    grid = [(p, q) for p in np.linspace(0.01, 0.5, 10) for q in np.linspace(0.6, 0.95, 10) if p + q < 1]
    lls = [clipped_ll(*st8, p, q) for p, q in grid]
    start = [float(s) for s in d.starting_values()]
    dist = [abs(start[0] - p) + abs(start[1] - q) for p, q in grid]
    k = int(np.argmin(dist))
    if dist[k] > 1e-9:
        raise Violation(f"{what}: start {start} is not on the documented grid", "grid")
    if lls[k] < max(lls) - tol:
        raise Violation(f"{what}: starts from {start} ({lls[k]!r}), the best grid point is {grid[int(np.argmax(lls))]} ({max(lls)!r})", "argmax")
    if not P.loglikelihood >= max(lls) - 1e-3 - tol:
        raise Violation(f"{what}: fit ends at {P.loglikelihood!r}, grid point {grid[int(np.argmax(lls))]} has {max(lls)!r}", "grid optimum")
    if case["variant"] == "native":
        e, _ = make(ns, case, ["fresh", "fresh"], x, y)
        Q = e.fit()
        if not (e.estimation_success and abs(Q.loglikelihood - P.loglikelihood) <= 1e-3 + tol and abs(Q.a - P.a) + abs(Q.b - P.b) < 1e-3):
            raise Violation(f"{what}: {P}, but {Q} when both margins are fresh models", "ways")


@st.composite
def batch_case(draw):
    return {"pair": draw(pair_regime(100, 300)), "gjr": draw(st.booleans()), "n": 6}


def run_batch(case, ctx):
    """Over a regime, fits are not improvable by a small change of a or b."""
    ns, bad, ok = ctx.native, [], 0
    for k in range(case["n"]):
        x, y = simulate_pair(case["pair"], k)
        d = (ns.alg.GJRGARCHModel_DCC if case["gjr"] else ns.alg.GARCHModel_DCC)(x, y)
        P = d.fit()
        if not (d.estimation_success and d.model1.estimation_success and d.model2.estimation_success):
            continue
        ok += 1
        near = [(a, b) for h in (0.02, -0.02, 0.1, -0.1) for a, b in ((P.a + h, P.b), (P.a, P.b + h), (P.a + h, P.b - h))
                if 0 <= a and 0 <= b and a + b <= 1]
        best = max(-d.loglikelihood_model([a, b]) for a, b in [*near, (0.0, 0.0)])
        if not P.loglikelihood >= best - 0.05:
            bad.append((k, P.a, P.b, P.loglikelihood, best))
    ctx.nt(ok >= case["n"] // 2)
    ctx.label(f"bad={len(bad)}")
    if len(bad) > 2:
        raise Violation(f"{len(bad)} of {case['n']} fits are improvable: {bad}", "improvable")


SCALE = 2  # quick-tier case counts are multiplied by this
FACETS = [
    Facet("likelihood", corr_case, run_ll, "correlations that move", 3000, 50000, shards=4, tshards=8, variants=VARIANTS, weight=2),
    Facet("fit", fit_case, run_fit, "margins and correlation fit report success", 240, 6000, shards=8, tshards=8, variants=VARIANTS, weight=4),
    Facet("batch", batch_case, run_batch, "at least half of the batch converged", 60, 1600, shards=4, tshards=8, weight=3),
]
ASSUMPTIONS = ["an estimation that does not report success is outside the property (counted)"]
