"""X03: arrays of inconsistent shapes, unknown methods and versions are refused."""
import numpy as np
from hypothesis import strategies as st

from vf.core import Facet, Violation
from vf.gen import SEEDS

V = ("native", "pure")


def pos(r, shape):
    return 1 + r.rand(*shape)


# name -> (number of array arguments, number of dimensions, shortest length, generator of one argument, call)
def table(ns):
    M, S = ns.measures, ns.spread

    def ret(r, shape):
        return r.standard_normal(shape) / 100

    def lrmes(*a):
        return M.LongRunMarginalExpectedShortfall(*a).estimate(2, 3)

    def corr(cls):
        return lambda *a: cls(*a).fit()

    def mixed(cls, un):
        return lambda a, b: cls(un(a), b).fit()

    def srisk(f, m, w, d):
        return M.SRISK(f, m, w, d).estimate(lrmes_h=2, lrmes_S=3)

    t = {
        "mes": (2, 1, ret, lambda a, b: M.MarginalExpectedShortfall(a, b).estimate(0.5)),
        "ses": (3, 1, pos, lambda a, b, c: M.SystemicExpectedShortfall(a, b, c, 0.1, 2.0).estimate()),
        "lrmes": (2, 1, ret, lrmes),
        "srisk one": (2, 1, ret, lambda a, b: srisk(a, b, 10.0, 20.0)),
        "ccc": (2, 1, ret, corr(ns.alg.GARCHModel_CCC)),
        "dcc": (2, 1, ret, corr(ns.alg.GARCHModel_DCC)),
        "gjr dcc": (2, 1, ret, corr(ns.alg.GJRGARCHModel_DCC)),
        "dcc mixed": (2, 1, ret, mixed(ns.alg.GARCHModel_DCC, ns.alg.GARCHModel)),
        "gjr dcc mixed": (2, 1, ret, mixed(ns.alg.GJRGARCHModel_DCC, ns.alg.GJRGARCHModel)),
        "pin": (2, 1, lambda r, s: r.poisson(20, s).astype(float), lambda a, b: M.PIN(a, b).estimate()),
        "kyle": (2, 1, ret, M.kyle_lambda),
        "side slope": (2, 2, pos, ns.lob.DGGW_bid_side_slope_difference),
        "ask side slope": (2, 2, pos, ns.lob.DGGW_ask_side_slope_difference),
        "depth": (2, 2, pos, ns.lob.DGGW_scaled_depth_difference),
    }
    for pct in (True, False):
        t[f"quoted {pct}"] = (2, 1, pos, lambda a, b, p=pct: S.quoted_spread(a, b, pct_spread=p))
        t[f"effective {pct}"] = (3, 1, pos, lambda *a, p=pct: S.effective_spread(*a, pct_spread=p))
        t[f"effective signed {pct}"] = (4, 1, pos, lambda *a, p=pct: S.effective_spread(*a, pct_spread=p))
        t[f"realized {pct}"] = (4, 1, pos, lambda *a, p=pct: S.realized_spread(*a, pct_spread=p))
        t[f"realized signed {pct}"] = (5, 1, pos, lambda *a, p=pct: S.realized_spread(*a, pct_spread=p))
        t[f"impact {pct}"] = (4, 1, pos, lambda *a, p=pct: ns.impact.simple_price_impact(*a, pct_spread=p))
        t[f"impact signed {pct}"] = (5, 1, pos, lambda *a, p=pct: ns.impact.simple_price_impact(*a, pct_spread=p))
    return t


FAST = ["mes", "ses", "kyle", "side slope", "ask side slope", "depth"] + [f"{k} {p}" for p in (True, False) for k in (
    "quoted", "effective", "effective signed", "realized", "realized signed", "impact", "impact signed")]
SLOW = ["lrmes", "srisk one", "ccc", "dcc", "gjr dcc", "dcc mixed", "gjr dcc mixed", "pin"]
WRONG1 = ("shorter", "longer", "one", "scalar", "column", "row", "twice", "square", "empty", "half")
WRONG2 = ("fewer quotes", "more quotes", "one quote", "fewer levels", "more levels", "one level", "transposed", "flat", "scalar", "row vector", "deeper")


def wrong1(how, n):
    return {"shorter": (n - 1,), "longer": (n + 1,), "one": (1,), "scalar": (), "column": (n, 1), "row": (1, n), "twice": (n, 2), "square": (n, n), "empty": (0,),
            "half": (n // 2,)}[how]


def wrong2(how, n, k):
    return {"fewer quotes": (n - 1, k), "more quotes": (n + 1, k), "one quote": (1, k), "fewer levels": (n, k - 1), "more levels": (n, k + 1), "one level": (n, 1),
            "transposed": (k, n), "flat": (n * k,), "scalar": (), "row vector": (k,), "deeper": (n, k, 1)}[how]


def refuse(f, what):
    try:
        v = f()
    except Exception:
        return
    raise Violation(f"{what}: accepted, with the answer {v!r}"[:600], what.split(":")[0])


@st.composite
def shape_case(draw, names):
    return {"name": draw(st.sampled_from(names)), "n": draw(st.integers(2, 12)), "k": draw(st.integers(5, 8)), "which": draw(st.integers(0, 30)), "how": draw(st.integers(0, 109)),
            "also": draw(st.integers(0, 4)), "seed": draw(SEEDS)}


def run_shape(case, ctx):
    ns = ctx.variant(V[case["seed"] % 2])
    nargs, dim, gen, call = table(ns)[case["name"]]
    r = np.random.RandomState(case["seed"])
    n, k = case["n"] + (20 if case["name"] in SLOW else 0), case["k"]
    base = (n,) if dim == 1 else (n, k)
    how = (WRONG1[case["how"] % len(WRONG1)] if dim == 1 else WRONG2[case["how"] % len(WRONG2)])
    bad = wrong1(how, n) if dim == 1 else wrong2(how, n, k)
    if case["name"] == "kyle" and len(bad) == 2:  # a table of returns is a regression for each of its columns
        return
    shapes = [base] * nargs
    w = case["which"] % nargs
    shapes[w] = bad
    if case["also"] == 0 and nargs > 2:  # two arguments wrong in the same way
        shapes[(w + 1) % nargs] = bad
    if len(set(shapes)) == 1:  # as when the transpose of a square table is the same shape
        ctx.label("same shape")
        return
    args = [np.asarray(gen(r, s)) for s in shapes]
    ctx.nt()
    ctx.label(case["name"].rsplit(" ", 1)[0] if case["name"].endswith("e") else case["name"], how)
    refuse(lambda: call(*args), f"{case['name']}: arguments of shapes {shapes}")


def run_same(case, ctx):
    """The same shapes are accepted (so that refusing everything is no way to hold the property)."""
    ns = ctx.variant(V[case["seed"] % 2])
    nargs, dim, gen, call = table(ns)[case["name"]]
    r = np.random.RandomState(case["seed"])
    n = case["n"] + 3
    call(*[np.asarray(gen(r, (n,) if dim == 1 else (n, case["k"]))) for _ in range(nargs)])
    ctx.nt()


@st.composite
def book_case(draw):
    return {"side": draw(st.sampled_from(["ask", "bid"])), "n": draw(st.integers(2, 9)), "k": draw(st.integers(2, 6)), "which": draw(st.sampled_from(["price", "mid", "both", "size"])),
            "how": draw(st.integers(0, 109)), "seed": draw(SEEDS)}


def run_book(case, ctx):
    """Slopes: sizes by quote and level, the other two by quote."""
    f = ctx.native.lob.DGGW_ask_slope if case["side"] == "ask" else ctx.native.lob.DGGW_bid_slope
    r = np.random.RandomState(case["seed"])
    n, k = case["n"], case["k"]
    shapes = [(n, k), (n,), (n,)]
    how = WRONG1[case["how"] % len(WRONG1)]
    bad = wrong1(how, n)
    if case["which"] == "size":
        how = WRONG2[case["how"] % len(WRONG2)]
        bad = wrong2(how, n, k)
        if len(bad) == 2 and bad[0] == n:
            return
        shapes[0] = bad
    if case["which"] in ("price", "both"):
        shapes[1] = bad
    if case["which"] in ("mid", "both"):
        shapes[2] = bad
    ctx.nt()
    ctx.label(case["which"], how)
    refuse(lambda: f(*[pos(r, s) + i for i, s in enumerate(shapes)]), f"{case['side']} slope: shapes {shapes}")


@st.composite
def multi_case(draw):
    return {"n": draw(st.integers(20, 30)), "f": draw(st.integers(2, 4)), "which": draw(st.sampled_from(["market", "W", "D", "both", "returns"])), "how": draw(st.integers(0, 109)), "seed": draw(SEEDS)}


def run_multi(case, ctx):
    """SRISK of several firms and the distress premium of several banks."""
    ns = ctx.variant(V[case["seed"] % 2])
    r = np.random.RandomState(case["seed"])
    n, f = case["n"], case["f"]
    how = WRONG1[case["how"] % len(WRONG1)]
    ret, mkt, W, D = r.standard_normal((n, f)) / 100, r.standard_normal(n) / 100, pos(r, (f,)), pos(r, (f,))
    ctx.label(case["which"], how)
    if case["which"] == "returns":
        p, c = 0.1 + 0.2 * r.rand(f), np.eye(f)
        d = ns.measures.DistressInsurancePremium
        b = r.rand(*wrong1(how, f)) * 0.3 + 0.05 if how != "scalar" else 0.1
        if how not in ("column", "twice", "square"):
            refuse(lambda: d(b, c).estimate(n_simulated_returns=50, n_simulations=20), f"distress premium: {np.shape(b)} probabilities and {c.shape} correlations")
        e = {0: np.eye(f + 1), 1: np.eye(f - 1), 2: np.ones((f, 1)), 3: np.ones((1, f)), 4: np.ones(f)}[case["how"] % 5]
        if e.shape != (f, f):
            refuse(lambda: d(p, e).estimate(n_simulated_returns=50, n_simulations=20), f"distress premium: {p.shape} probabilities and {e.shape} correlations")
        ctx.nt()
        return
    a = [ret, mkt, W, D]
    if case["which"] == "market":
        a[1] = r.standard_normal(wrong1(how, n)) / 100
    else:
        for i in ([2] if case["which"] == "W" else [3] if case["which"] == "D" else [2, 3]):
            a[i] = np.asarray(pos(r, wrong1(how, f)))
    if [np.shape(x) for x in a] == [(n, f), (n,), (f,), (f,)]:
        return
    ctx.nt()
    refuse(lambda: ns.measures.SRISK(*a).estimate(lrmes_h=2, lrmes_S=3), f"SRISK: shapes {[np.shape(x) for x in a]}")


WORDS = st.one_of(st.text(max_size=12), st.sampled_from(["", "EHO", "LK", "EHO2011", "LK2010", "eho2010", "lk2011", "EHO2010 ", " LK2011", "BFLV", "BFVL2012", "bflv2012", "APPR", "BFLV2012 ", "2012"]),
                  st.none(), st.integers(-3, 3), st.booleans())


@st.composite
def word_case(draw):
    return {"word": draw(WORDS), "q": draw(st.one_of(st.floats(1.0000001, 1e6), st.floats(-1e6, -1e-9))), "n": draw(st.integers(3, 20)), "seed": draw(SEEDS)}


def run_word(case, ctx):
    ns, w = ctx.native, case["word"]
    r = np.random.RandomState(case["seed"])
    n = case["n"]
    ctx.nt()
    if w not in ("EHO2010", "LK2011"):
        refuse(lambda: ns.measures.PIN(r.poisson(9, n).astype(float), r.poisson(9, n).astype(float)).estimate(method=w), f"PIN method: {w!r}")
    if w != "BFLV2012":
        refuse(lambda: ns.measures.SystemicExpectedShortfall(pos(r, (n,)), pos(r, (n,)), pos(r, (n,)), 0.1, 2.0).estimate(version=w), f"SES version: {w!r}")
    refuse(lambda: ns.measures.MarginalExpectedShortfall(r.standard_normal(n), r.standard_normal(n)).estimate(q=case["q"]), f"MES percentile: {case['q']!r}")


SCALE = 4  # quick-tier case counts are multiplied by this
FACETS = [
    Facet("fast", lambda: shape_case(FAST), run_shape, "shapes that do not match", 4000, 60000, shards=2, tshards=4, variants=V),
    Facet("models", lambda: shape_case(SLOW), run_shape, "shapes that do not match", 3000, 20000, shards=4, tshards=4, variants=V),
    Facet("books", book_case, run_book, "shapes that do not match", 1000, 20000, variants=V),
    Facet("several", multi_case, run_multi, "shapes that do not match", 500, 10000, variants=V),
    Facet("words", word_case, run_word, "an unknown method or version, a percentile outside the unit interval", 500, 10000, variants=V),
    Facet("accepted", lambda: shape_case(FAST), run_same, "matching shapes", 500, 10000, variants=V),
]
ASSUMPTIONS = ["refused means that constructing the object or estimating raises an exception of any kind; assertions are enabled"]
