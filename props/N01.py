"""N01: the compiled extensions and the pure-Python code give the same answers."""
import numpy as np
from hypothesis import strategies as st

from props.M03 import corr_case, dcc, margins
from ref import garch as ref
from ref import lrmes as lref
from vf.core import Discard, Facet, Violation
from vf.garchgen import LAM, VARIANTS, any_series, bounds_spec, ex, long_series, make_bounds, model_cls, pair_regime, regime, simulate, simulate_pair, var_params
from vf.gen import close, fl, logfl, maxrel
from vf.lrmesgen import fitted, inject, pars


def same(a, b, what, rtol=1e-9, atol=0.0):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if not close(a, b, rtol=rtol, atol=atol):
        raise Violation(f"{what}: compiled against pure Python: {maxrel(a, b)}", what)


@st.composite
def func_case(draw, src=any_series()):
    kind = draw(st.sampled_from(["garch", "gjr"]))
    return {"kind": kind, "resids": draw(src), "params": draw(var_params(kind)), "bc": draw(st.one_of(st.none(), logfl(1e-8, 1e4), st.just(0.0))),
            "bounds": draw(bounds_spec()), "lam": draw(LAM), "init": draw(logfl(1e-8, 1e4)), "s": draw(st.one_of(logfl(1e-12, 1e12), st.just(0.0), st.just("inf"))),
            "mu": draw(fl(-1, 1)), "zero_mean": draw(st.booleans())}


def run_func(case, ctx):
    e = ex(case["resids"])
    kind, p = case["kind"], case["params"]
    N, P = model_cls(ctx.native, kind), model_cls(ctx.pure, kind)
    if case["bounds"]["how"] == "model" and not np.any(e):
        raise Discard("a series of zeros")
    bc = ref.backcast(e) if case["bc"] is None else case["bc"]
    b = make_bounds(case["bounds"], e)
    ctx.nt(len(e) > 2 and len(set(np.abs(e))) > 1)
    ctx.label(kind)
    same(N.backcast(e.copy()), P.backcast(e.copy()), "backcast")
    same(N.ewma(e.copy(), case["init"], case["lam"]), P.ewma(e.copy(), case["init"], case["lam"]), "ewma")
    sc = float(np.max(np.abs(e))) ** 2
    for k in (0, 1):
        same(N.variance_bounds(e.copy())[:, k], P.variance_bounds(e.copy())[:, k], "bounds", atol=1e-27 * sc * (1e12 if k else 1))
    s = float(case["s"])
    same(N.bounds_check(s, b[0].copy()), P.bounds_check(s, b[0].copy()), "bounds check", rtol=1e-12)
    v, w = N.compute_variance(list(p), e.copy(), bc, b.copy()), P.compute_variance(list(p), e.copy(), bc, b.copy())
    same(v, w, f"{kind} variances")
    ll, lw = N.loglikelihood(e, np.asarray(v)), P.loglikelihood(e, np.asarray(w))
    if np.all(np.asarray(w) > 0):
        with np.errstate(all="ignore"):
            t = 1e-8 * float(np.sum(np.abs(np.log(w)) + e * e / w) + len(e))
        if np.isfinite(t) and not abs(ll - lw) <= t:
            raise Violation(f"{kind} log-likelihood: compiled {ll!r}, pure Python {lw!r}", "ll")
    if len(e) < 2:
        return
    q = [*p] if case["zero_mean"] else [case["mu"], *p]
    n, m = N(e.copy(), zero_mean=case["zero_mean"]), P(e.copy(), zero_mean=case["zero_mean"])
    r = e if case["zero_mean"] else e - np.mean(e)
    if not np.any(r) or np.std(e) < 1e-4 * np.max(np.abs(e)):
        return
    lb = ref.variance_bounds(r)
    n.loglikelihood_model(np.array(q), bc, lb.copy(), case["zero_mean"])
    m.loglikelihood_model(np.array(q), bc, lb.copy(), case["zero_mean"])
    same(n.sigma2, m.sigma2, f"{kind} model variances", rtol=1e-8)


def run_corr(case, ctx):
    z1, z2, s1, s2 = margins(case)
    a, b = case["ab"]
    e1, e2 = z1 * np.sqrt(s1), z2 * np.sqrt(s2)
    q = [1.0, 1.0]
    for x, y in zip(z1[:-1], z2[:-1]):
        q = [(1 - a - b) + a * x * x + b * q[0], (1 - a - b) + a * y * y + b * q[1]]
        if min(q) < 1e-6:
            raise Discard("vanishing variance of the correlation process")
    n, p = dcc(ctx.native, case["gjr"], e1, s1, e2, s2), dcc(ctx.pure, case["gjr"], e1, s1, e2, s2)
    u, v = np.asarray(n.conditional_correlations(a, b)), np.asarray(p.conditional_correlations(a, b))
    if not np.all(np.isfinite(v)):
        raise Discard("0/0")
    ctx.nt(len(v) > 3 and np.ptp(v) > 1e-3)
    ctx.label("gjr" if case["gjr"] else "garch")
    same(u, v, "correlations", rtol=0, atol=1e-8)
    x, y = n.loglikelihood_model([a, b]), p.loglikelihood_model([a, b])
    t = 1e-7 * float(np.sum(np.abs(np.log(s1)) + np.abs(np.log(s2)) + (z1**2 + z2**2) / 0.02) + 8 * len(z1))
    if not abs(x - y) <= t:
        raise Violation(f"dynamic-correlation likelihood: compiled {x!r}, pure Python {y!r}", "dcc ll")


@st.composite
def mes_case(draw):
    return {"fit": draw(fitted()), "h": draw(st.integers(1, 30)), "S": draw(st.integers(1, 60)), "C": draw(st.one_of(fl(-0.4, 0.3), st.sampled_from([-0.1, 0.0, 1e9]))),
            "seed": draw(st.integers(0, 10**6))}


def run_mes(case, ctx):
    f = case["fit"]
    (n, s), (p, _) = inject(ctx.native, f), inject(ctx.pure, f)
    try:
        want, k = lref.estimate(*s, pars(f), f["a"], f["b"], case["h"], case["S"], case["C"], case["seed"])
    except lref.Tie:
        raise Discard("a path within rounding of the threshold")
    ctx.nt(0 < k < case["S"])
    x, y = n.estimate(case["h"], case["S"], case["C"], case["seed"]), p.estimate(case["h"], case["S"], case["C"], case["seed"])
    if not abs(x - y) <= 1e-7 * (1 + abs(y)):
        raise Violation(f"LRMES: compiled {x!r}, pure Python {y!r}", "lrmes")


@st.composite
def fit_case(draw):
    k = draw(st.sampled_from(["garch", "gjr", "garch", "gjr", "ccc", "dcc", "gjr dcc"]))
    n = 8 if k in ("garch", "gjr") else 5
    return {"kind": k, "n": n, "zero_mean": draw(st.booleans()), "data": draw(regime(100, 250)) if n == 8 else draw(pair_regime(100, 200))}


def run_fit(case, ctx):
    """Over a regime, estimations of both kinds converge to the same likelihood; the optimiser amplifies rounding, so a
    minority of the batch may end elsewhere."""
    k, n = case["kind"], case["n"]
    bad, ok = [], 0
    for i in range(n):
        out = []
        for v in VARIANTS:
            ns = ctx.variant(v)
            if k in ("garch", "gjr"):
                m = model_cls(ns, k)(simulate(case["data"], i), zero_mean=case["zero_mean"])
            else:
                m = {"ccc": ns.alg.GARCHModel_CCC, "dcc": ns.alg.GARCHModel_DCC, "gjr dcc": ns.alg.GJRGARCHModel_DCC}[k](*simulate_pair(case["data"], i))
            P = m.fit()
            out.append(P.loglikelihood if m.estimation_success else None)
        ok += None not in out
        if (out[0] is None) != (out[1] is None) or (None not in out and not abs(out[0] - out[1]) <= 0.02):
            bad.append((i, *out))
    ctx.nt(ok >= n - 2)
    ctx.label(k, f"different={len(bad)}")
    if len(bad) > 2:
        raise Violation(f"{k}: {len(bad)} of {n} estimations differ between compiled and pure Python: {bad}", "fit")


# infinite residuals and parameters are left out: the same formula in another order is inf - inf or 0 * inf
SPECIAL = st.one_of(
    st.tuples(st.sampled_from(["resid", "resid", "bound", "param", "start", "decay"]), st.integers(0, 200), st.integers(0, 1), st.just("nan")),
    st.tuples(st.sampled_from(["bound", "start"]), st.integers(0, 200), st.integers(0, 1), st.sampled_from(["inf", "-inf"])))


@st.composite
def odd_case(draw):
    kind = draw(st.sampled_from(["garch", "gjr"]))
    return {"kind": kind, "resids": draw(any_series(2, 40)), "params": draw(var_params(kind)), "bc": draw(logfl(1e-4, 1e2)), "lam": draw(LAM), "bounds": draw(bounds_spec()),
            "odd": [list(o) for o in draw(st.lists(SPECIAL, min_size=1, max_size=3))]}


def run_odd(case, ctx):
    """Missing numbers, and infinite bounds and starting values, go through both implementations alike."""
    e = ex(case["resids"])
    if not np.any(e):
        raise Discard("a series of zeros")
    kind, p, bc, lam = case["kind"], list(case["params"]), case["bc"], case["lam"]
    b = make_bounds(case["bounds"], e)
    for where, i, j, v in case["odd"]:
        v = float(v)
        if where == "resid":
            e[i % len(e)] = v
        elif where == "bound":
            b[i % len(b), j] = v
        elif where == "param":
            p[i % len(p)] = v
        elif where == "start":
            bc = v
        else:
            lam = v
    ctx.label(*(f"{o[0]} {o[3]}" for o in case["odd"]))
    ctx.nt(len(e) > 2)
    N, P = model_cls(ctx.native, kind), model_cls(ctx.pure, kind)
    sc = float(np.max(np.abs(np.where(np.isfinite(e), e, 0)))) ** 2
    for what, f, tol in ((f"{kind} variances", lambda M: M.compute_variance(list(p), e.copy(), bc, b.copy()), 0), ("ewma", lambda M: M.ewma(e.copy(), bc, lam), 0),
                         ("backcast", lambda M: M.backcast(e.copy()), 0), ("bounds", lambda M: M.variance_bounds(e.copy()), 1e-14 * sc),
                         ("bounds check", lambda M: [M.bounds_check(s, b[i % len(b)].copy()) for i, s in enumerate((float("nan"), float("inf"), bc, 0.0))], 0)):
        x, y = np.asarray(f(N), float), np.asarray(f(P), float)
        if what == "ewma":
            x, y = np.where(np.isfinite(x), x, np.nan), np.where(np.isfinite(y), y, np.nan)
        if x.shape != y.shape or not np.allclose(x, y, rtol=1e-9, atol=tol, equal_nan=True):
            raise Violation(f"{what} with {case['odd']}: compiled {x.ravel()[:8].tolist()}, pure Python {y.ravel()[:8].tolist()}", f"odd {what}")


FACETS = [Facet("nonfinite", odd_case, run_odd, "at least 3 days", 1500, 40000, shards=2, tshards=4, variants=VARIANTS),
          Facet("functions", func_case, run_func, "residuals of different sizes on at least 3 days", 2400, 40000, shards=3, tshards=8, variants=VARIANTS),
          Facet("long", lambda: func_case(long_series()), run_func, "residuals of different sizes on at least 400 days", 60, 1500, shards=4, tshards=8, variants=VARIANTS),
          Facet("correlations", corr_case, run_corr, "correlations that move", 2400, 40000, shards=3, tshards=8, variants=VARIANTS),
          Facet("lrmes", mes_case, run_mes, "some but not all paths are systemic", 900, 20000, shards=4, tshards=8, variants=VARIANTS),
          Facet("fits", fit_case, run_fit, "at most two of the batch did not converge", 90, 1600, shards=8, tshards=8, variants=VARIANTS, weight=4)]
ASSUMPTIONS = ["agreement up to the order of floating-point operations (1e-9 relative); whole estimations are compared in batches by their likelihood, since the optimiser amplifies rounding",
               "the pure variant is the same tree without its compiled extensions, as the code's own fallback"]
