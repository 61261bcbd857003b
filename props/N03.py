"""N03: the compiled code is memory-safe, whatever it is given.  AddressSanitizer, UBSan and checked containers watch
the compiled extensions; a report ends the process, which the driver turns into a violation on the case it was running.
Answers are compared with the pure-Python code (or, for the forest, judged by its invariants and the unsanitised build),
so uninitialised results show as well: fresh memory is filled with a pattern."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from props.M03 import corr_case, dcc, margins
from props.N01 import mes_case, same
from ref import garch as ref
from ref import iforest as iref
from ref import lrmes as lref
from vf.core import Discard, Facet, Violation
from vf.cpus import cpus, lib
from vf.garchgen import LAM, any_series, bounds_spec, ex, make_bounds, model_cls, simulate, simulate_pair, var_params
from vf.gen import SEEDS, fl, logfl
from vf.layouts import LAYOUTS, make
from vf.lrmesgen import inject, pars

V = ("asan", "pure")
lib()  # before the extensions are loaded


# --- GARCH functions ---------------------------------------------------------------------------------------------
@st.composite
def func_case(draw):
    kind = draw(st.sampled_from(["garch", "gjr"]))
    return {"kind": kind, "resids": draw(any_series(1, 120)), "params": draw(var_params(kind)), "bc": draw(st.one_of(logfl(1e-8, 1e4), st.just(0.0))),
            "bounds": draw(bounds_spec()), "lam": draw(LAM), "how": draw(st.sampled_from(LAYOUTS)), "howb": draw(st.sampled_from(LAYOUTS)),
            "misfit": draw(st.sampled_from(["none", "none", "params", "rows", "more rows", "columns", "empty", "flat", "deep", "pair"])),
            "k": draw(st.integers(0, 9))}


def attempt(f):
    try:
        return f()
    except Exception:
        return None


def run_func(case, ctx):
    e = ex(case["resids"])
    if not np.any(e):
        raise Discard("a series of zeros")
    kind, p = case["kind"], list(case["params"])
    A, P = model_cls(ctx.variant("asan"), kind), model_cls(ctx.pure, kind)
    b = make_bounds(case["bounds"], e)
    mis, k = case["misfit"], case["k"]
    ctx.label(kind, mis, case["how"])
    if mis == "none":
        r, _ = make(e, case["how"])
        q, _ = make(b, case["howb"])
        ctx.nt()
        same(A.compute_variance(p, r, case["bc"], q), P.compute_variance(p, e.copy(), case["bc"], b.copy()), f"{kind} variances")
        same(A.ewma(r, case["bc"], case["lam"]), P.ewma(e.copy(), case["bc"], case["lam"]), "ewma")
        sc = float(np.max(np.abs(e))) ** 2
        vb = A.variance_bounds(e.copy())
        for j in (0, 1):
            same(vb[:, j], P.variance_bounds(e.copy())[:, j], "bounds", atol=1e-27 * sc * (1e12 if j else 1))
        same(A.bounds_check(case["bc"], q[0]), P.bounds_check(case["bc"], b[0].copy()), "bounds check", rtol=1e-12)
        if len(e) > 1:
            for zm in (False, True):
                m, w = A(r, zero_mean=zm), P(e.copy(), zero_mean=zm)
                t = p if zm else [0.1, *p]
                m.loglikelihood_model(np.array(t), case["bc"], q, zm)
                w.loglikelihood_model(np.array(t), case["bc"], b.copy(), zm)
                same(m.sigma2, w.sigma2, "model variances")
        return
    # arguments that do not fit together: refused, or answered without touching foreign memory
    out = None
    if mis == "params":
        t = (p * 3)[:k]
        out = attempt(lambda: A.compute_variance(t, e, case["bc"], b))
        attempt(lambda: A(e).loglikelihood_model(np.array([0.1, *t]), case["bc"], b))
        if len(t) != len(p) and out is not None:
            raise Violation(f"{len(t)} parameters accepted by a {kind} variance recursion of {len(p)}", "params")
        ctx.nt(len(t) != len(p))
    elif mis == "rows":
        n = min(k, len(e) - 1)
        out = attempt(lambda: A.compute_variance(p, e, case["bc"], b[:n].copy()))
        if out is not None and n < len(e) - 1:
            raise Violation(f"{n} rows of bounds accepted for {len(e)} residuals", "rows")
        ctx.nt(n < len(e))
    elif mis == "more rows":
        out = attempt(lambda: A.compute_variance(p, e, case["bc"], np.vstack([b, b[:k]])))
        if out is not None:
            same(out, P.compute_variance(p, e.copy(), case["bc"], b.copy()), f"{kind} variances")
        ctx.nt(k > 0)
    elif mis == "columns":
        out = attempt(lambda: A.compute_variance(p, e, case["bc"], np.hstack([b, b])[:, : k % 5].copy()))
        ctx.nt(k % 5 != 2)
    elif mis == "empty":
        attempt(lambda: A.compute_variance(p, e[:0], case["bc"], b[:k]))
        attempt(lambda: A.ewma(e[:0], 1.0))
        attempt(lambda: A.ewma(np.float64(k), 1.0))
        attempt(lambda: A.variance_bounds(e[:0]))
        attempt(lambda: A(e[:0]).fit())
        ctx.nt()
    elif mis == "flat":
        attempt(lambda: A.compute_variance(p, e, case["bc"], b.ravel().copy()))
        attempt(lambda: A.compute_variance(p, np.float64(k), case["bc"], b))
        ctx.nt()
    elif mis == "deep":
        attempt(lambda: A.compute_variance(p, np.vstack([e, e]), case["bc"], b))
        attempt(lambda: A.ewma(np.vstack([e, e]), case["bc"]))
        attempt(lambda: A.compute_variance(p, e, case["bc"], np.stack([b, b])))
        ctx.nt()
    else:
        attempt(lambda: A.bounds_check(1.0, b[0][: k % 2].copy()))
        attempt(lambda: A.bounds_check(1.0, []))
        ctx.nt()


# --- correlations and long-run shortfall ----------------------------------------------------------------------------
def run_corr(case, ctx):
    z1, z2, s1, s2 = margins(case)
    a, b = case["ab"]
    e1, e2 = z1 * np.sqrt(s1), z2 * np.sqrt(s2)
    q = [1.0, 1.0]
    for x, y in zip(z1[:-1], z2[:-1]):
        q = [(1 - a - b) + a * x * x + b * q[0], (1 - a - b) + a * y * y + b * q[1]]
        if min(q) < 1e-6:
            raise Discard("vanishing variance of the correlation process")
    n, p = dcc(ctx.variant("asan"), case["gjr"], e1, s1, e2, s2), dcc(ctx.pure, case["gjr"], e1, s1, e2, s2)
    v = np.asarray(p.conditional_correlations(a, b))
    if not np.all(np.isfinite(v)):
        raise Discard("0/0")
    ctx.nt(len(v) > 3 and np.ptp(v) > 1e-3)
    same(n.conditional_correlations(a, b), v, "correlations", rtol=0, atol=1e-8)


def run_mes(case, ctx):
    f = case["fit"]
    n, s = inject(ctx.variant("asan"), f)
    try:
        want, k = lref.estimate(*s, pars(f), f["a"], f["b"], case["h"], case["S"], case["C"], case["seed"])
    except lref.Tie:
        raise Discard("a path within rounding of the threshold")
    ctx.nt(0 < k < case["S"])
    x = n.estimate(case["h"], case["S"], case["C"], case["seed"])
    if not abs(x - want) <= 1e-7 * (1 + abs(want)):
        raise Violation(f"LRMES: {x!r}, reference {want!r}", "lrmes")


# --- whole estimations over any series --------------------------------------------------------------------------------
@st.composite
def fit_case(draw):
    return {"kind": draw(st.sampled_from(["garch", "gjr", "ccc", "dcc", "gjr dcc", "mes"])), "a": draw(any_series(1, 60)), "b": draw(any_series(1, 60)),
            "cut": draw(st.booleans()), "zero_mean": draw(st.booleans()), "nan": draw(st.integers(0, 9)), "how": draw(st.sampled_from(LAYOUTS))}


def run_fit(case, ctx):
    """Estimations of anything: they may fail to converge or refuse, not touch foreign memory."""
    ns, k = ctx.variant("asan"), case["kind"]
    x, y = ex(case["a"]), ex(case["b"])
    if case["cut"]:
        x, y = x[: len(y)], y[: len(x)]
    if case["nan"] == 7:
        x[len(x) // 2] = np.nan
    if case["nan"] == 8:
        x[-1] = np.inf
    x, y = make(x, case["how"])[0], make(y, case["how"])[0]
    ctx.label(k, "matching" if len(x) == len(y) else "different lengths")
    ctx.nt(len(x) > 1)

    def go():
        if k in ("garch", "gjr"):
            m = model_cls(ns, k)(x, zero_mean=case["zero_mean"])
        elif k == "mes":
            m = ns.measures.LongRunMarginalExpectedShortfall(np.expm1(x / 1e3), np.expm1(y / 1e3))
            return m.estimate(5, 20)
        else:
            m = {"ccc": ns.alg.GARCHModel_CCC, "dcc": ns.alg.GARCHModel_DCC, "gjr dcc": ns.alg.GJRGARCHModel_DCC}[k](x, y)
        m.fit()
        return m

    try:
        go()
    except Exception as e:
        ctx.label(f"{k} refused: {str(e)[:40]}")


# --- isolation forest -----------------------------------------------------------------------------------------------
@st.composite
def forest_case(draw):
    n = draw(st.one_of(st.integers(0, 6), st.integers(0, 60)))
    cols = []
    for _ in range(draw(st.sampled_from([0, 1, 1, 1, 2, 2, 3, 4, 5]))):
        kind = draw(st.sampled_from(["f", "f", "t", "t", "full", "i", "b", "m", "e", "cat"]))
        cols.append([kind, draw(st.one_of(st.integers(1, 40), st.integers(1, 300))), draw(SEEDS)])
    return {"n": n, "cols": cols, "forest": draw(st.sampled_from([-2, 0] + [1] * 22)) * draw(st.one_of(st.integers(1, 12), st.integers(1, 90))),
            "tree": draw(st.sampled_from([-1, 0] + [1] * 22)) * draw(st.one_of(st.integers(1, 10), st.integers(1, 300), st.sampled_from([256, 2**20, 2**31 - 1]))),
            "seed": draw(st.one_of(st.integers(0, 2000), st.sampled_from([0, -1, 2**31 - 1, -(2**31)]))), "cpus": draw(st.one_of(st.integers(0, 8), st.integers(0, 40))), "dup": draw(st.booleans())}


def column(kind, w, seed, n):
    r = np.random.RandomState(seed)
    if kind == "f":
        return r.standard_normal(n).round(w % 4)
    if kind == "m":
        return np.where(r.rand(n) < 0.5, np.nan, r.randint(0, 3, n).astype(float))
    if kind == "i":
        return r.randint(-5, 5, n)
    if kind == "b":
        return r.rand(n) < 0.5
    ab = np.array(list("abcxyz ~"))
    if kind == "e":
        return np.array([""] * n, dtype=object)
    if kind == "cat":
        return pd.Categorical(["".join(r.choice(ab, 2)) for _ in range(n)])
    size = (lambda: w) if kind == "full" else (lambda: r.randint(0, w + 1))
    return np.array(["".join(r.choice(ab, size())) for _ in range(n)], dtype=object)


def run_forest(case, ctx):
    n = case["n"]
    d = pd.DataFrame({f"c{i}": column(k, w, s, n) for i, (k, w, s) in enumerate(case["cols"])}, index=range(n))
    if case["dup"] and n:
        d = pd.concat([d, d.iloc[: (n + 1) // 2]], ignore_index=True)
    usable = any(k in "fmi" or k in ("t", "full", "e") for k, _, _ in case["cols"])
    ctx.label(*{k for k, _, _ in case["cols"]}, "no column" if not usable else "columns")
    kw = dict(forest_size=case["forest"], tree_size=case["tree"], random_seed=case["seed"])
    good = case["forest"] >= 1 and case["tree"] >= 1 and usable
    try:
        with cpus(case["cpus"]):
            s = ctx.variant("asan").iforest.anomaly_scores(d.copy(), **kw)["AnomalyScore"].to_numpy()
    except Exception:
        if good:
            raise
        ctx.label("refused")
        ctx.nt()
        return
    if not good:
        return
    if s.shape != (len(d),):
        raise Violation(f"{len(s)} scores for {len(d)} rows", "shape")
    ctx.nt(len(d) > 1)
    if case["tree"] >= 3 and len(d):
        if not (np.all(s > 0) and np.all(s <= 1)):
            raise Violation(f"scores outside (0, 1]: {s[~((s > 0) & (s <= 1))][:3]}", "range")
        want = ctx.variant("native").iforest.anomaly_scores(d.copy(), **kw)["AnomalyScore"].to_numpy()
        if not np.allclose(s, want, rtol=1e-9, atol=0):
            k = int(np.argmax(np.abs(s - want)))
            raise Violation(f"row {k} scores {s[k]!r} in the sanitised build and {want[k]!r} in the plain one", "differs")
        if len(d) <= 7 and len(case["cols"]) <= 3:
            H = int(np.ceil(np.log2(case["tree"])))
            if H <= 31:
                lo = 2 ** (-(H + iref.c(max(2, len(d)))) / iref.c(case["tree"]))
                if not np.all(s >= lo - 1e-12):
                    raise Violation(f"a score of {s.min()!r} needs a path longer than the height limit allows ({lo!r})", "height")


# --- long inputs -----------------------------------------------------------------------------------------------------
@st.composite
def long_case(draw):
    return {"what": draw(st.sampled_from(["garch", "gjr", "ewma", "dcc", "path", "path", "rows", "columns", "texts", "trees"])), "n": draw(logfl(40, 6000)),
            "seed": draw(SEEDS), "cpus": draw(st.integers(1, 12))}


ASSET = {"mu": 0.0, "omega": 0.1, "alpha": 0.05, "gamma": 0.05, "beta": 0.8, "v": 1.0}
FIT = {"T": 20, "i": ASSET, "m": ASSET, "rho": 0.3, "a": 0.05, "b": 0.9, "seed": 1, "fat": False, "spread": 0.1}


def run_long(case, ctx):
    """Sizes far beyond the other facets (stack or fixed-size buffers): the sanitised build against the plain one."""
    n, w, r = int(case["n"]), case["what"], np.random.RandomState(case["seed"])
    ctx.label(w, "n>512" if n > 512 else "n<=512")
    ctx.nt(n > 512)

    def go(ns):
        if w in ("garch", "gjr"):
            m = model_cls(ns, w)(x)
            return m.compute_variance([0.1, 0.05, 0.9] if w == "garch" else [0.1, 0.05, 0.1, 0.8], x, 1.0, m.variance_bounds(x))
        if w == "ewma":
            return model_cls(ns, "garch").ewma(x, 1.0)
        if w == "dcc":
            return dcc(ns, False, x, np.ones(n), y, np.ones(n)).conditional_correlations(0.05, 0.9)
        if w == "path":
            return inject(ns, FIT)[0].estimate(n, 2, 1e9, case["seed"])
        with cpus(case["cpus"]):
            return ns.iforest.anomaly_scores(d, forest_size=n if w == "trees" else 3, tree_size=int(1 + r2.randint(2, 600)))["AnomalyScore"].to_numpy()

    x, y = r.standard_normal((2, n))
    if w == "rows":
        d = pd.DataFrame({"a": x, "b": r.randint(0, 9, n).astype(str)})
    elif w == "columns":
        d = pd.DataFrame(r.standard_normal((9, n // 4))).astype({i: object for i in range(0, n // 4, 3)})
        d = d.assign(**{f"t{i}": r.randint(0, 9, 9).astype(str) for i in range(n // 40)})
    elif w == "texts":
        d = pd.DataFrame({"t": ["".join(map(str, r.randint(0, 9, r.randint(0, n)))) for _ in range(9)]})
    elif w == "trees":
        d = pd.DataFrame({"a": r.standard_normal(12), "b": r.randint(0, 9, 12).astype(str)})
    out = []
    for v in ("asan", "native"):
        r2 = np.random.RandomState(case["seed"])
        out.append(go(ctx.variant(v)))
    same(*out, w, rtol=1e-7, atol=1e-7)


FACETS = [
    Facet("functions", func_case, run_func, "arguments of matching sizes, or of sizes that do not match", 1600, 40000, shards=2, tshards=4, variants=V, weight=2),
    Facet("correlations", corr_case, run_corr, "correlations that move", 400, 10000, variants=V),
    Facet("lrmes", mes_case, run_mes, "some but not all paths are systemic", 200, 6000, shards=1, tshards=2, variants=V),
    Facet("fits", fit_case, run_fit, "at least two days", 200, 4000, shards=2, tshards=6, variants=V, weight=2),
    Facet("long", long_case, run_long, "more than 512 days, rows, trees or characters", 240, 6000, shards=2, tshards=4, variants=("asan", "native"), weight=2),
    Facet("forest", forest_case, run_forest, "more than one row, or sizes that are refused", 900, 30000, shards=3, tshards=8, variants=("asan", "native"), weight=3),
]
ASSUMPTIONS = ["AddressSanitizer, UndefinedBehaviorSanitizer and libstdc++ assertions observe the compiled extensions only, not Python or numpy",
               "sanitisers see an access that leaves an allocation, not one that lands in another live allocation"]
