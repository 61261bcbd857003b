"""V03: fitted univariate models are feasible, self-consistent and no worse than their starts."""
import math

import numpy as np
from hypothesis import strategies as st
from scipy.optimize import minimize

from ref import garch as ref
from vf.core import Discard, Facet, Violation
from vf.garchgen import (BOUNDS, VARIANTS, any_series, ex, expect, model_cls, param_list, persistence, regime, simulate,
                         slack_moves)
from vf.gen import fit_series, series

KIND = st.sampled_from(["garch", "gjr"])


def D(**kw):
    return st.fixed_dictionaries(kw)


# ------------------------------------------------------------------ start
def run_start(case, ctx):
    x, kind, zm = ex(case["returns"]), case["kind"], case["zero_mean"]
    if np.std(x) < 1e-6 * max(1.0, np.max(np.abs(x))):
        raise Discard("constant returns")
    e = x if zm else x - np.mean(x)
    bc, b = ref.backcast(e), ref.variance_bounds(e)
    grid = ref.grid(float(np.var(x)), kind == "gjr")
    with np.errstate(all="ignore"):
        lls = []
        for p in grid:
            s2 = ref.variance(p, e, bc, b, kind == "gjr")
            if not np.all(s2 > 0):
                raise Discard("zero variance")
            lls.append(ref.normal_ll(e, s2))
    if not np.all(np.isfinite(lls)):
        raise Discard("no likelihood")
    ctx.label(kind, "zero mean" if zm else "mean")
    ctx.nt(len(set(lls)) > 4)
    for v in VARIANTS:
        m = model_cls(ctx.variant(v), kind)(x.copy(), zero_mean=zm)
        start = [float(q) for q in m.preparation()]
        if not zm:
            if abs(start[0] - np.mean(x)) > 1e-12 * (1 + np.max(np.abs(x))):
                raise Violation(f"{v} {kind}: the mean starts at {start[0]}, not at the sample mean {np.mean(x)}", "start mean")
            start = start[1:]
        dist = [max(abs(a - c) / (1e-12 + abs(c)) for a, c in zip(start, g)) if len(g) == len(start) else np.inf for g in grid]
        k = int(np.argmin(dist))
        if dist[k] > 1e-7:
            raise Violation(f"{v} {kind}: start {start} is not a point of the documented grid (nearest {grid[k]})", "grid")
        if lls[k] < max(lls) - 1e-9 * (abs(max(lls)) + len(x)):
            raise Violation(f"{v} {kind}: started from {start} with log-likelihood {lls[k]}, the grid has {max(lls)} "
                            f"at {grid[int(np.argmax(lls))]}", "argmax")


# ------------------------------------------------------------------ one fit
def run_fit(case, ctx):
    kind, zm = case["kind"], case["zero_mean"]
    x = simulate(case["returns"], 0) if "p" in case["returns"] else ex(case["returns"])
    v = case["variant"]
    m = model_cls(ctx.variant(v), kind)(x.copy(), zero_mean=zm)
    P = m.fit()
    if not m.estimation_success:
        ctx.label("not converged")
        return
    ctx.nt()
    ctx.label(kind, "zero mean" if zm else "mean", v)
    q = param_list(kind, P, zm)
    if zm and P.mu != 0.0:
        raise Violation(f"{v} {kind}: zero-mean model has mean {P.mu}", "mu")
    for val, (lo, hi), name in zip(q, BOUNDS[kind][1 if zm else 0:], ["mu", "omega"][1 if zm else 0:] + ["coefficient"] * 3):
        if not (lo - 1e-9 * 1e-6 <= val <= hi + 1e-9):
            raise Violation(f"{v} {kind}: {name}={val!r} outside [{lo}, {hi}]: {P}", "bounds")
    if not persistence(kind, q) <= 1 + 1e-4:
        raise Violation(f"{v} {kind}: persistence {persistence(kind, q)!r} above one: {P}", "persistence")
    e0 = x if zm else x - np.mean(x)
    bc, b = ref.backcast(e0), ref.variance_bounds(e0)
    e = x - P.mu
    vp = q if zm else q[1:]
    s2 = ref.variance(vp, e, bc, b, kind == "gjr")
    want = ref.normal_ll(e, s2)
    scale = float(np.sum(np.abs(np.log(s2)) + e**2 / s2)) + len(e)
    if not abs(P.loglikelihood - want) <= 1e-8 * scale:
        raise Violation(f"{v} {kind}: reported log-likelihood {P.loglikelihood!r}, likelihood at the reported parameters {want!r}", "ll")
    if not np.allclose(m.resids, e, rtol=0, atol=1e-12 * (1 + np.max(np.abs(x)))):
        raise Violation(f"{v} {kind}: residuals left are not returns minus the mean parameter", "resids")
    expect(m.sigma2, s2, f"{v} {kind} variances left by the fit", rtol=1e-7)
    if m.parameters != P:
        raise Violation("fit returned other parameters than the model keeps", "parameters")


# ------------------------------------------------------------------ batches
def run_batch(case, ctx):
    """In a batch of data sets of one regime, fits that end below a known feasible point are rare
    (the optimiser itself breaks down in about one fit of 500, on any version of the code)."""
    kind, zm, n = case["kind"], case["zero_mean"], case["n"]
    ns = ctx.variant("native")
    bad, ok = [], 0
    for k in range(n):
        x = simulate(case["regime"], k)
        m = model_cls(ns, kind)(x.copy(), zero_mean=zm)
        P = m.fit()
        if not m.estimation_success:
            ctx.label("not converged")
            bad.append((k, "no convergence"))
            continue
        ok += 1
        q = param_list(kind, P, zm)
        e = x if zm else x - np.mean(x)
        bc, b = ref.backcast(e), ref.variance_bounds(e)
        o = model_cls(ns, kind)(x.copy(), zero_mean=zm)

        def f(p):
            return o.loglikelihood_model(np.array(p, float), bc, b, zm)

        grid = [p if zm else [float(np.mean(x)), *p] for p in ref.grid(float(np.var(x)), kind == "gjr")]
        vals = [f(p) for p in grid]
        s0 = grid[int(np.argmin(vals))]
        best, where = -min(vals), "grid point"
        r = minimize(f, s0, method="SLSQP", bounds=BOUNDS[kind][1 if zm else 0:],
                     constraints={"type": "ineq", "fun": lambda p: 1 - persistence(kind, p)})
        if r.success and persistence(kind, r.x) <= 1 + 1e-4 and -r.fun > best:
            best, where = -r.fun, f"reference optimum {r.x.tolist()}"
        for p in slack_moves(kind, q, zm):
            u = -f(p)
            if u > best:
                best, where = u, f"neighbour {p}"
        if not P.loglikelihood >= best - 0.02:
            bad.append((k, f"{where} has log-likelihood {best:.4f}, the fit {P.loglikelihood:.4f} at {q}"))
    ctx.nt(ok >= n // 2)
    ctx.label(kind, "zero mean" if zm else "mean", f"bad={len(bad)}")
    if len(bad) > case["allow"]:
        raise Violation(f"{len(bad)} of {n} fits of one regime end below a known feasible point: {bad[:4]}", "optimal")


@st.composite
def batch_case(draw):
    return {"kind": draw(KIND), "zero_mean": draw(st.booleans()), "regime": draw(regime()), "n": 16, "allow": 5}


def fit_returns():
    return st.one_of(fit_series(60, 400), regime(60, 400), series(40, 300, scales=(0.1, 20.0), explicit=False))


SCALE = 2  # quick-tier case counts are multiplied by this
FACETS = [
    Facet("start", lambda: D(returns=any_series(2, 120), kind=KIND, zero_mean=st.booleans()), run_start,
          "more than four distinct grid likelihoods", 360, 6000, shards=3, tshards=8, variants=VARIANTS, weight=2),
    Facet("fit", lambda: D(returns=fit_returns(), kind=KIND, zero_mean=st.booleans(), variant=st.sampled_from(["native", "native", "native", "pure"])),
          run_fit, "the fit reports success", 600, 12000, shards=4, tshards=8, variants=VARIANTS, weight=3),
    Facet("batch", batch_case, run_batch, "at least half of the batch converged", 64, 1600, shards=5, tshards=8, weight=4),
]
ASSUMPTIONS = ["an estimation that does not report success is outside the property (counted, label 'not converged')",
               "optimality is judged over batches of 16 data sets of one regime: at most 5 may end more than 0.02 below a known feasible point, "
               "because SLSQP itself breaks down in about one fit of 500"]
