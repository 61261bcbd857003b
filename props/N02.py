"""N02: results depend on the numbers, not on how they are stored."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from ref import garch as gref
from vf import layouts
from vf.core import Discard, Facet, Violation
from vf.garchgen import pair_regime, regime, simulate, simulate_pair
from vf.gen import SEEDS, fl, logfl

BOTH = ("native", "pure")


def flat(x):
    """Any result as one vector of floats."""
    if x is None:
        return []
    if isinstance(x, (list, tuple)):
        return [v for y in x for v in flat(y)]
    if hasattr(x, "__dataclass_fields__"):
        return [v for n in x.__dataclass_fields__ for v in flat(getattr(x, n)) if not isinstance(v, str)]
    if isinstance(x, pd.DataFrame):
        x = x.to_numpy()
    if isinstance(x, str):
        return []
    return np.asarray(x, float).ravel().tolist()


class Gen:
    """Numbers of a subject: integers when wanted, else halves of small integers or plain doubles."""

    def __init__(self, case):
        self.r, self.n, self.kind = np.random.RandomState(case["seed"]), case["n"], case["numbers"]

    def _dress(self, x):
        return np.round(x) if self.kind == "whole" else np.round(x * 64) / 64 if self.kind == "single" else x

    def real(self, scale=3.0, shape=None):
        return self._dress(self.r.standard_normal(shape or self.n) * scale)

    def pos(self, lo, hi, shape=None):
        return self._dress(self.r.uniform(lo, hi, shape or self.n)) if self.kind != "whole" else self.r.randint(int(np.ceil(lo)), int(hi) + 1, shape or self.n).astype(float)


def cumulative(g):
    e = g.real()
    if not np.any(e):
        e[0] = 1.0
    return e


S = {}  # name -> (builder(gen, case) -> (arrays, call(ns, *arrays)), variants, containers allowed, single precision allowed)


def subject(name, variants=("native",), containers=(), f32=True):
    def reg(fn):
        S[name] = (fn, variants, containers, f32)
        return fn
    return reg


def _cls(ns, gjr):
    return ns.alg.GJRGARCHModel if gjr else ns.alg.GARCHModel


@subject("ewma", BOTH, (0,))
def _(g, c):
    return [cumulative(g)], lambda ns, e: ns.alg.GARCHModel.ewma(e, 1.3, 0.9)


@subject("variances", BOTH, (0,))
def _(g, c):
    e = cumulative(g)
    b = g.pos(1, 50)
    b = np.column_stack([b, b + g.pos(0, 30)])
    p = [1.0, 0.25, 0.5] if c["flag"] else [1.0, 0.25, 0.25, 0.5]
    return [e, b, np.array(p)], lambda ns, e, b, p: _cls(ns, not c["flag"]).compute_variance(p, e, 2.0, b)


@subject("variance bounds", BOTH, ())
def _(g, c):
    return [cumulative(g)], lambda ns, e: [ns.alg.GARCHModel.variance_bounds(e), ns.alg.GARCHModel.backcast(e)]


S["variance bounds"] = (*S["variance bounds"][:3], False)


@subject("bounds check", BOTH, ())
def _(g, c):
    lo = float(g.pos(1, 9, 1)[0])
    return [np.array([lo, lo + 4])], lambda ns, b: [ns.alg.GARCHModel.bounds_check(s, b) for s in (0.5, lo + 1, 1e3, 1e9)]


@subject("forecast", BOTH, (0,))
def _(g, c):
    return [cumulative(g)], lambda ns, e: ns.alg.GJRGARCHModel.forecast_variance(ns.alg.GJRGARCHModel.Parameters(0.1, 0.2, 0.1, 0.2, 0.5), e, 1.5)


@subject("model likelihood", BOTH, (0,))
def _(g, c):
    e = g.real() + g.real(1.0)
    if np.std(e) == 0:
        raise Discard("constant")
    b = gref.variance_bounds(e)

    def call(ns, e, b, p):
        m = _cls(ns, True)(e, zero_mean=c["flag"])
        v = m.loglikelihood_model(p, 2.0, b, c["flag"])
        return [v, m.sigma2, m.preparation(), m.var_bounds, m.backcast_value]
    return [e, b, np.array([0.5, 0.25, 0.125, 0.5] if c["flag"] else [0.25, 0.5, 0.25, 0.125, 0.5])], call


@subject("ccc likelihood", BOTH, (0, 1))
def _(g, c):
    x, y = g.real(), g.real()
    if np.std(x) == 0 or np.std(y) == 0:
        raise Discard("constant")
    p = [0.25, 0.5, 0.25, 0.5, -0.25, 0.5, 0.125, 0.5, 0.25]
    return [x, y, np.array(p)], lambda ns, x, y, p: ns.alg.GARCHModel_CCC(x, y).loglikelihood_model(p, 1.0, 1.0, None, None)


@subject("lrmes path", BOTH, ())
def _(g, c):
    q = 0.25

    def call(ns, inv, Q):
        o = ns.measures.LongRunMarginalExpectedShortfall(np.array([0.01, -0.02]), np.array([0.02, -0.01]))
        for m in (o.firm_model, o.market_model):
            m.parameters = type(m).Parameters(0.1, 0.2, 0.1, 0.1, 0.6, -1.0)
        return list(o.simulation(inv, 1e9, 1.5, 2.0, -0.5, 0.7, 0.1, 0.8, 0.3, Q))
    return [g.real(1.5, (g.n, 2)), np.array([[1.0, q], [q, 1.0]])], call


@subject("lrmes of returns", BOTH, (0, 1))
def _(g, c):
    """The models that long-run shortfall makes of the returns handed over."""
    x, y = (np.round(g.real(2.0) * 64) / 4096 for _ in "xy")
    if np.std(x) == 0 or np.std(y) == 0 or np.min([x, y]) < -0.9:
        raise Discard("constant or a total loss")

    def call(ns, x, y):
        o = ns.measures.LongRunMarginalExpectedShortfall(x, y)
        return [v for m in (o.firm_model, o.market_model) for v in (m.loglikelihood_model(np.array([0.05, 0.5, 0.25, 0.125, 0.5]), 2.0, np.array([[1e-6, 1e6]] * g.n)), m.sigma2)]
    return [x, y], call


@subject("absorption ratio")
def _(g, c):
    x = g.real(5.0, (max(2, g.n // 4), g.n))
    if np.any(np.std(x, axis=1) == 0):
        raise Discard("constant asset")
    return [x], lambda ns, x: [ns.measures.AbsorptionRatio(x).estimate(f) for f in (0.2, 0.5, 1.0)]


@subject("mes", f32=False)
def _(g, c):
    x, y = g.real(), g.real()
    return [x, y], lambda ns, x, y: ns.measures.MarginalExpectedShortfall(x, y).estimate(0.3)


@subject("ses", f32=False)
def _(g, c):
    n = max(6, g.n)
    return [g.pos(1, 30, n), g.pos(1, 30, n), g.pos(1, 30, n)], lambda ns, a, b, s: ns.measures.SystemicExpectedShortfall(a, b, s, 2.0, 3.0).estimate()


@subject("z-score", containers=(0,), f32=False)
def _(g, c):
    x = g.real()
    if np.std(x) == 0:
        raise Discard("constant")
    return [x], lambda ns, x: ns.measures.z_score(0.5, 0.25, x)


@subject("kyle", containers=(0, 1), f32=False)
def _(g, c):
    x = g.real(90.0)
    if not np.any(x):
        raise Discard("no volume")
    return [g.real(), x], lambda ns, y, x: ns.measures.kyle_lambda(y, x)


def trades(g, n):
    mid = g.pos(80, 120)
    p = mid + g._dress(g.r.uniform(-3, 3, g.n))
    return p, mid, [g.pos(80, 120) for _ in range(n)], g.pos(1, 100) * (0 if g.r.rand() < 0.15 else 1), np.where(g.r.rand(g.n) < 0.5, -1.0, 1.0)


@subject("quoted spread", containers=(0, 1))
def _(g, c):
    b = g.pos(50, 100)
    return [b, b + g.pos(0, 5)], lambda ns, b, a: ns.spread.quoted_spread(b, a, c["flag"])


@subject("effective spread", containers=(0, 1, 2, 3))
def _(g, c):
    p, m, _, v, d = trades(g, 0)
    return [p, m, v, d], lambda ns, p, m, v, d: [ns.spread.effective_spread(p, m, v, None, c["flag"]), ns.spread.effective_spread(p, m, v, d, c["flag"])]


@subject("realized spread", containers=(0, 1, 2, 3, 4))
def _(g, c):
    p, m, (l,), v, d = trades(g, 1)
    return [p, l, m, v, d], lambda ns, p, l, m, v, d: [ns.spread.realized_spread(p, l, m, v, None, c["flag"]), ns.spread.realized_spread(p, l, m, v, d, c["flag"])]


@subject("price impact", containers=(0, 1, 2, 3, 4))
def _(g, c):
    p, m, (l,), v, d = trades(g, 1)
    return [p, l, m, v, d], lambda ns, p, l, m, v, d: [ns.impact.simple_price_impact(p, l, m, v, None, c["flag"]), ns.impact.simple_price_impact(p, l, m, v, d, c["flag"])]


@subject("large trades", containers=(0, 1, 2))
def _(g, c):
    """Prices in ticks and volumes whose products exceed small integer types."""
    m = g.r.randint(900, 1100, g.n).astype(float) * 100
    return [m + g.r.randint(-50, 51, g.n), m, g.r.randint(1, 10**6, g.n).astype(float)], lambda ns, p, m, v: ns.spread.effective_spread(p, m, v, None, c["flag"])


@subject("order book")
def _(g, c):
    sz, az = g.pos(1, 200, (g.n, 5)), g.pos(1, 200, (g.n, 5))
    step = 1 + np.arange(5)
    pr = 100 - step[None, :] * (1 + g.pos(0, 1, (g.n, 1)))
    f = lambda ns, sz, az, pr, hi, lo, mid: [ns.lob.DGGW_ask_slope(az, hi, mid), ns.lob.DGGW_bid_slope(sz, lo, mid), ns.lob.DGGW_bid_side_slope_difference(sz, pr),
                                             ns.lob.DGGW_ask_side_slope_difference(az, pr), ns.lob.DGGW_scaled_depth_difference(sz, az)]
    return [sz, az, pr, 110 + g.pos(0, 9), 90 - g.pos(0, 9), np.full(g.n, 100.0)], f


@subject("pin likelihood")
def _(g, c):
    B, T = g.r.poisson(40, g.n).astype(float), g.r.poisson(30, g.n).astype(float)
    p = [0.4, 0.5, 30.0, 25.0, 20.0]
    return [B, T], lambda ns, B, T: [ns.measures.PIN(B, T).loglikelihood_EHO2010(p), ns.measures.PIN(B, T).loglikelihood_LK2011(p)]


@subject("distress premium")
def _(g, c):
    n = 2 + g.n % 4
    p = g.r.randint(1, 32, n) / 64
    q = g.r.randint(-1, 3) / 4
    R = np.full((n, n), max(q, 0.0)) + np.eye(n) * (1 - max(q, 0.0))
    return [p, R], lambda ns, p, R: ns.measures.DistressInsurancePremium(p, R).estimate(0.15, 3, 400, 30)


@subject("option prices", f32="numbers")
def _(g, c):
    return [g.pos(50, 150), g.pos(50, 150), g.pos(1, 9), np.round(g.r.uniform(1, 3, g.n))], lambda ns, s, k, t, v: list(ns.measures.blsprice(s, k, 0.05, t, v))


@subject("smoother")
def _(g, c):
    n = 2 * (g.n // 2) + 8
    return [g.real(3.0, n)], lambda ns, x: ns.fft.fftsmooth(x, 4)


@subject("loan payoff", f32="numbers")
def _(g, c):
    return [g.real(1.0)], lambda ns, f: ns.payoff.loan_payoff(1.5, f, 0.2, 0.5, 0.2, 5.0)


@subject("merton objective", f32="numbers")
def _(g, c):
    return [np.array([2.0, 1.0])], lambda ns, x: list(ns.merton.merton_solution(x, 1.0, 1.5, 0.01, 0.0, 5.0, 0.5))


@subject("modified merton", f32="numbers")
def _(g, c):
    N, n2 = 3, 40
    fs = np.array([-1.0, 0.0, 1.0])
    w = np.random.RandomState(c["seed"]).standard_normal((n2, 3 * N))
    p = np.array([0.01, 3.0, 1.0, 1.0, 0.75, 0.5, 0.625, 0.25, 0.005, 0.002, 0.5])
    f = lambda ns: (ns.mm.mod_merton_computation if c["flag"] else ns.mm1.mod_single_cohort_computation)
    return [fs, w, p], lambda ns, fs, w, p: [np.asarray(x)[..., :1] if np.ndim(x) else x for x in f(ns)(fs, p, N, n2, w)]


@st.composite
def case_(draw):
    name = draw(st.sampled_from(sorted(S)))
    return {"subject": name, "n": draw(st.one_of(st.integers(4, 12), st.integers(4, 120))), "numbers": draw(st.sampled_from(["whole", "single", "any"])), "seed": draw(SEEDS),
            "how": draw(st.lists(st.sampled_from(layouts.ALL), min_size=6, max_size=6)), "flag": draw(st.booleans())}


def outcome(call, ns, args):
    try:
        return flat(call(ns, *args)), None
    except (AssertionError, ValueError, TypeError, IndexError, AttributeError, ZeroDivisionError, np.linalg.LinAlgError, BufferError) as e:
        return None, e


def run(case, ctx):
    build, variants, containers, f32 = S[case["subject"]]
    arrays, call = build(Gen(case), case)
    hows = case["how"]
    if f32 == "numbers":  # documented for plain numbers: numpy's own elementwise functions of short integers have few digits
        hows, f32 = ["int32" if h in ("int8", "int16", "uint8", "uint16") else h for h in hows], False
    done = [layouts.make(a, h, i in containers, f32) for i, (a, h) in enumerate(zip(arrays, hows))]
    ctx.nt(any(d != "plain" for _, d in done))
    ctx.label(case["subject"], *(d for _, d in done))
    for v in variants:
        ns = ctx.variant(v)
        want, exc = outcome(call, ns, [a.copy() for a in arrays])
        if exc is not None:
            raise Violation(f"{v} {case['subject']} fails on plain arrays: {exc!r}", f"{case['subject']} plain")
        got, exc = outcome(call, ns, [a for a, _ in done])
        what = f"{v} {case['subject']} with arguments stored as {[d for _, d in done]}"
        if exc is not None:
            raise Violation(f"{what}: {exc!r}, plain arrays work", f"{case['subject']} fails")
        a, b = np.array(got), np.array(want)
        scale = np.max(np.abs(b[np.isfinite(b)])) if np.isfinite(b).any() else 1.0
        if a.shape != b.shape or not np.allclose(a, b, rtol=1e-9, atol=1e-11 * scale, equal_nan=True):
            raise Violation(f"{what}: {got[:8]}, plain arrays give {want[:8]}", case["subject"])


# ---- whole estimations ----
FITS = ["garch", "gjr", "ccc", "dcc", "gjr dcc", "lrmes", "srisk"]


@st.composite
def fit_case(draw):
    k = draw(st.sampled_from(FITS))
    return {"kind": k, "variant": "native" if k in ("lrmes", "srisk") else draw(st.sampled_from(["native", "native", "pure"])),
            "data": draw(regime(80, 200)) if k in ("garch", "gjr") else draw(pair_regime(80, 160)), "zero_mean": draw(st.booleans()),
            "how": draw(st.lists(st.sampled_from(layouts.ALL), min_size=2, max_size=2)), "whole": draw(st.booleans()), "n": 3}


def run_fit(case, ctx):
    ns, k = ctx.variant(case["variant"]), case["kind"]
    bad = []
    for i in range(case["n"]):
        xs = [simulate(case["data"], i)] if k in ("garch", "gjr") else list(simulate_pair(case["data"], i))
        if k in ("lrmes", "srisk"):
            xs = [np.round(np.expm1(np.clip(x, -60, 60) / 100) * 4096) / 4096 for x in xs]
        else:
            xs = [np.round(x * (8 if case["whole"] else 64)) / (1 if case["whole"] else 64) for x in xs]
        cont = k in ("garch", "gjr", "ccc", "lrmes")
        alt = [layouts.make(x, h, cont) for x, h in zip(xs, case["how"])]
        ctx.label(k, *(d for _, d in alt))
        ctx.nt(any(d != "plain" for _, d in alt))
        out = []
        for a in ([x.copy() for x in xs], [a for a, _ in alt]):
            if k in ("garch", "gjr"):
                m = _cls(ns, k == "gjr")(a[0], zero_mean=case["zero_mean"])
            elif k == "lrmes":
                m = None
                try:
                    out.append([ns.measures.LRMES(*a).estimate(4, 30, -0.01, 5)])
                except RuntimeError:
                    out.append(None)
            elif k == "srisk":
                m = None
                try:
                    out.append([ns.measures.SRISK(a[0], a[1], 2.0, 30.0).estimate(0.08, 4, 30, -0.01, 5)])
                except RuntimeError:
                    out.append(None)
            else:
                m = {"ccc": ns.alg.GARCHModel_CCC, "dcc": ns.alg.GARCHModel_DCC, "gjr dcc": ns.alg.GJRGARCHModel_DCC}[k](*a)
            if m is not None:
                P = m.fit()
                out.append([P.loglikelihood] if m.estimation_success else None)
        if (out[0] is None) != (out[1] is None) or (out[0] is not None and not np.allclose(out[0], out[1], rtol=1e-3 if k in ("lrmes", "srisk") else 0, atol=0.02)):
            bad.append(out)
    if len(bad) > 1:
        raise Violation(f"{case['variant']} {k} of returns stored as {case['how']}: {bad} (plain, stored so)", f"fit {k}")


BIG = st.one_of(st.integers(1, 2**31 - 1), st.integers(10**9, 2**31 - 1).map(lambda v: v | 1))


@st.composite
def big_case(draw):
    return {"data": draw(pair_regime(80, 120)), "W": draw(st.lists(BIG, min_size=2, max_size=2)), "D": draw(st.lists(BIG, min_size=2, max_size=2)),
            "dtype": draw(st.sampled_from(["int32", "uint32", "int64", ">i8"]))}


def run_big(case, ctx):
    """Equity and debt in currency units, as integers."""
    x, y = (np.expm1(np.clip(v, -60, 60) / 100) for v in simulate_pair(case["data"], 0))
    F = np.column_stack([x, 0.5 * x + 0.5 * y])
    ctx.nt(max(w + d for w, d in zip(case["W"], case["D"])) > 2**31)

    def f(t):
        return ctx.native.measures.SRISK(F, y, np.array(case["W"], dtype=t), np.array(case["D"], dtype=t)).estimate(0.08, 3, 20, 0.0, 1)
    try:
        want = f(float)
    except RuntimeError:
        raise Discard("estimation failed")
    got = f(case["dtype"])
    if not np.allclose(got, want, rtol=1e-9, equal_nan=True):
        raise Violation(f"SRISK of {case['dtype']} equity and debt: {got}, {want} in floating point", "srisk integers")


# ---- isolation forest ----
KINDS = ["float64", "float32", "int8", "int16", "int32", "int64", "uint8", "uint32", "object text", "Int64"]


@st.composite
def frame_case(draw):
    k = draw(st.integers(1, 4))
    return {"n": draw(st.integers(2, 30)), "cols": draw(st.lists(st.sampled_from(KINDS), min_size=k, max_size=k)), "build": draw(st.sampled_from(["c", "f", "slice", "reverse", "concat"])),
            "seed": draw(SEEDS), "trees": draw(st.integers(1, 20)), "size": draw(st.integers(2, 40))}


def run_frame(case, ctx):
    r, n = np.random.RandomState(case["seed"]), case["n"]
    plain, other = {}, {}
    for i, k in enumerate(case["cols"]):
        if k == "object text":
            plain[f"c{i}"] = other[f"c{i}"] = pd.Series([["a", "bb", "", "a b"][j] for j in r.randint(0, 4, n)], dtype=object)
            continue
        x = r.randint(0, 100, n).astype(float)
        plain[f"c{i}"] = pd.Series(x)
        other[f"c{i}"] = pd.Series(x).astype(k)
    a = pd.DataFrame(plain)
    b = pd.DataFrame(other)
    if case["build"] == "slice":
        b = pd.concat([b, b]).iloc[:n]
    elif case["build"] == "reverse":
        b = b.iloc[::-1].copy().iloc[::-1]
    elif case["build"] == "concat":
        b = pd.concat([b[[c]] for c in b.columns], axis=1)
    elif all(k != "object text" for k in case["cols"]):
        b = pd.DataFrame(np.array(a.to_numpy(), order=case["build"].upper()), columns=a.columns)
    f = ctx.native.iforest.anomaly_scores
    ctx.nt(len(set(case["cols"])) > 1 or case["build"] != "c")
    ctx.label(case["build"], *case["cols"])
    want, got = f(a, case["trees"], case["size"], None, 7), f(b, case["trees"], case["size"], None, 7)
    if not np.array_equal(want.to_numpy(), got.to_numpy()):
        raise Violation(f"scores of {case['cols']} built as {case['build']}: {got.to_numpy().ravel()[:6]}, {want.to_numpy().ravel()[:6]} as doubles", "frame")


SCALE = 2  # quick-tier case counts are multiplied by this
FACETS = [Facet("storage", case_, run, "an argument is not a plain contiguous double array", 9000, 150000, shards=4, tshards=8, variants=BOTH, weight=2),
          Facet("fits", fit_case, run_fit, "an argument is not a plain contiguous double array", 120, 3000, shards=6, tshards=8, variants=BOTH, weight=4),
          Facet("integers", big_case, run_big, "equity plus debt exceeds 32 bits", 60, 1000, shards=2),
          Facet("frames", frame_case, run_frame, "mixed column types or an unusual construction", 1200, 15000, shards=2)]
ASSUMPTIONS = ["results agree up to the order of floating-point sums (1e-9 relative); whole fits are compared by likelihood, one of three may differ since the optimiser amplifies rounding",
               "single-precision storage is used only where the code is documented or written to compute in double precision"]
