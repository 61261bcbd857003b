"""S01: SRISK is the documented capital shortfall for one or many firms."""
import numpy as np
from hypothesis import strategies as st

from vf.core import Discard, Facet, Violation
from vf.garchgen import regime, simulate
from vf.gen import SEEDS, fl, logfl


KS = st.one_of(fl(0, 0.5), st.just(0.08), fl(0, 1), st.sampled_from([0.0, 1.0]))


@st.composite
def case_(draw):
    n = draw(st.integers(1, 4))
    T = draw(st.integers(80, 200))
    return {"firms": [dict(draw(regime()), T=T, load=draw(fl(-0.9, 0.9)), W=draw(logfl(0.1, 1e4)), lev=draw(st.one_of(logfl(0.1, 200), st.just(0.0))))
                      for _ in range(n)],
            "market": dict(draw(regime()), T=T), "k": draw(KS), "twin": draw(st.sampled_from([None, None, 0, 1, 2, 3])), "order": draw(st.sampled_from(["same", "reversed", "inner"])),
            "sim": [draw(st.integers(2, 30)), draw(st.integers(20, 200)), draw(st.sampled_from([-0.02, -0.05, -0.1, 0.0, 1e9])), draw(st.integers(0, 10**6))],
            "c": draw(logfl(0.01, 100)), "perm": draw(st.permutations(range(n))), "defaults": draw(st.booleans())}


def run(case, ctx):
    ns = ctx.native
    m = simulate(case["market"], 99)
    F = []
    for k, g in enumerate(case["firms"]):
        e = simulate(g, k)
        F.append(np.sqrt(1 - g["load"] ** 2) * e + g["load"] * m * e.std() / m.std())
    if case["twin"] is not None and len(F) > 1:  # two firms, or a firm and the market, with the same returns
        F[-1] = F[case["twin"]] if case["twin"] < len(F) - 1 else m.copy()
        if case["order"] == "reversed":  # the same returns on other days
            F[-1] = F[-1][::-1]
        elif case["order"] == "inner":  # the same first, last, sum and moments
            F[-1] = np.concatenate([F[-1][:5], F[-1][5:-5][::-1], F[-1][-5:]])
    F = np.expm1(np.clip(np.column_stack(F), -60, 60) / 100)
    m = np.expm1(np.clip(m, -60, 60) / 100)
    W, D = np.array([g["W"] for g in case["firms"]]), np.array([g["W"] * g["lev"] for g in case["firms"]])
    n, k = len(W), case["k"]
    h, S, C, seed = case["sim"]
    lr = []
    for i in range(n):
        try:
            lr.append(ns.measures.LongRunMarginalExpectedShortfall(F[:, i].copy(), m.copy()).estimate(h, S, C, seed))
        except RuntimeError:
            raise Discard("estimation failed")
    lr = np.array(lr)
    want = W * (k * (D + W) / W + (1 - k) * lr - 1)
    if not np.all(np.isfinite(want)):
        raise Discard("no finite shortfall")
    ctx.nt(np.any(lr != 0))
    ctx.label(f"{n} firms", "some positive" if (want > 0).any() else "none positive", "some negative" if (want < 0).any() else "none negative",
              "events" if np.any(lr) else "no events")
    kw = dict(lrmes_h=h, lrmes_S=S, lrmes_C=C, lrmes_random_seed=seed)
    tol = 1e-9 * (W + D)

    def eq(got, exp, what, t=1.0):
        got = np.asarray(got, float)
        if got.shape != np.shape(exp) or not np.all(np.abs(got - exp) <= tol[: got.size].max() * t + 1e-9 * np.abs(exp)):
            raise Violation(f"{what}: {got.tolist()}, expected {np.asarray(exp).tolist()}; LRMES {lr.tolist()}", what)

    for i in range(n):
        one = lambda: ns.measures.SRISK(F[:, i].copy(), m.copy(), float(W[i]), float(D[i]))
        eq(one().estimate(k, h, S, C, seed), want[i], "single firm")
        if i == 0:
            eq(one().estimate(k, h, S, C, seed, True), max(want[0], 0.0), "single firm aggregate")
            eq(ns.measures.SRISK(F[:, 0].copy(), m.copy(), float(W[0] * case["c"]), float(D[0] * case["c"])).estimate(k=k, **kw), want[0] * case["c"],
               "single firm scale", case["c"])
    if n == 1:
        return
    multi = ns.measures.SRISK(F.copy(), m.copy(), W.copy(), D.copy())
    eq(multi.estimate(k=k, **kw), want, "many firms")
    eq(multi.estimate(k=k, aggregate_srisk=True, **kw), np.sum(np.clip(want, 0, None)), "aggregate", n)
    p = list(case["perm"])
    eq(ns.measures.SRISK(F[:, p].copy(), m.copy(), W[p], D[p]).estimate(k=k, **kw), want[p], "column order")
    eq(ns.measures.SRISK(F.copy(), m.copy(), W * case["c"], D * case["c"]).estimate(k=k, **kw), want * case["c"], "scale", case["c"])
    if case["defaults"]:
        eq(multi.estimate(**kw), W * (0.08 * (D + W) / W + 0.92 * lr - 1), "default capital ratio")


def run_defaults(case, ctx):
    """The documented defaults: k = 8 %, 22 days, 10000 paths, a fall of 10 %, seed 42."""
    ns = ctx.native
    m, e = simulate(case["market"], 99) / 100, simulate(case["firm"], 1) / 100
    e = 0.5 * e + 0.5 * m
    try:
        lr = ns.measures.LongRunMarginalExpectedShortfall(e, m).estimate(22, 10000, -0.1, 42)
    except RuntimeError:
        raise Discard("estimation failed")
    W, D = case["W"], case["D"]
    ctx.nt(lr != 0)
    got = ns.measures.SRISK(e, m, W, D).estimate()
    want = W * (0.08 * (D + W) / W + 0.92 * lr - 1)
    if not abs(got - want) <= 1e-9 * (W + D):
        raise Violation(f"default call: {got!r}, expected {want!r}", "defaults")


@st.composite
def default_case(draw):
    T = draw(st.integers(100, 200))
    return {"market": dict(draw(regime()), T=T), "firm": dict(draw(regime()), T=T), "W": draw(logfl(0.1, 1e4)), "D": draw(logfl(0.1, 1e4))}


@st.composite
def many_case(draw):
    n, T = draw(st.integers(5, 14)), draw(st.integers(80, 110))
    g = draw(regime())
    return {"n": n, "firms": [dict(draw(regime()), T=T) for _ in range(3)], "market": dict(g, T=T), "seed": draw(st.integers(0, 10**6)), "k": draw(KS),
            "sim": [draw(st.integers(2, 20)), draw(st.integers(20, 100)), draw(st.sampled_from([-0.02, -0.05, 0.0])), draw(st.integers(0, 10**6))], "perm": draw(st.permutations(range(n)))}


def run_many(case, ctx):
    """More firms than anyone would type in: each column is what the firm gives alone."""
    ns, n = ctx.native, case["n"]
    r = np.random.RandomState(case["seed"])
    m = simulate(case["market"], 99)
    F = []
    for k in range(n):
        e, w = simulate(case["firms"][k % 3], k), r.uniform(-0.9, 0.9)
        F.append(np.sqrt(1 - w * w) * e + w * m * e.std() / m.std())
    F = np.expm1(np.clip(np.column_stack(F), -60, 60) / 100)
    m = np.expm1(np.clip(m, -60, 60) / 100)
    W = np.exp(r.uniform(-2, 9, n))
    D = W * np.exp(r.uniform(-2, 5, n)) * (r.rand(n) < 0.9)
    try:
        lr = np.array([ns.measures.LongRunMarginalExpectedShortfall(F[:, i].copy(), m.copy()).estimate(*case["sim"]) for i in range(n)])
    except RuntimeError:
        raise Discard("estimation failed")
    want = W * (case["k"] * (D + W) / W + (1 - case["k"]) * lr - 1)
    if not np.all(np.isfinite(want)):
        raise Discard("no finite shortfall")
    ctx.nt(np.any(lr != 0))
    ctx.label("some positive" if (want > 0).any() else "none positive")
    p = list(case["perm"])
    s = ns.measures.SRISK(F[:, p].copy(), m.copy(), W[p], D[p])
    got = np.asarray(s.estimate(case["k"], *case["sim"]), float)
    if got.shape != (n,) or not np.all(np.abs(got - want[p]) <= 1e-9 * (W + D)[p] + 1e-9 * np.abs(want[p])):
        raise Violation(f"{n} firms: {got.tolist()}, expected {want[p].tolist()}", "many firms")
    total = s.estimate(case["k"], *case["sim"], True)
    exp = float(np.clip(want, 0, None).sum())
    if not abs(total - exp) <= 1e-9 * (W + D).sum():
        raise Violation(f"aggregate of {n} firms: {total!r}, expected {exp!r}", "aggregate")


@st.composite
def crowd_case(draw):
    n, T = draw(st.integers(129, 300)), 80
    g = draw(regime())
    return {"n": n, "firms": [dict(draw(regime()), T=T) for _ in range(4)], "market": dict(g, T=T), "seed": draw(SEEDS), "k": draw(KS), "sim": [draw(st.integers(2, 10)), 30, draw(st.sampled_from([-0.01, 0.01, 0.0])), draw(st.integers(0, 10**6))]}


def run_crowd(case, ctx):
    """A whole market of firms, whose returns are one of four."""
    ns, n = ctx.native, case["n"]
    r = np.random.RandomState(case["seed"])
    m = simulate(case["market"], 99)
    base = np.expm1(np.clip(np.column_stack([simulate(g, k) * 0.8 + m * w for k, (g, w) in enumerate(zip(case["firms"], (0.9, -0.4, 0.5, 0.1)))]), -60, 60) / 100)
    m = np.expm1(np.clip(m, -60, 60) / 100)
    which = r.randint(0, 4, n)
    W = np.exp(r.uniform(-2, 9, n))
    D = W * np.exp(r.uniform(-2, 5, n))
    try:
        lr = np.array([ns.measures.LongRunMarginalExpectedShortfall(base[:, i].copy(), m.copy()).estimate(*case["sim"]) for i in range(4)])[which]
    except RuntimeError:
        raise Discard("estimation failed")
    want = W * (case["k"] * (D + W) / W + (1 - case["k"]) * lr - 1)
    if not np.all(np.isfinite(want)):
        raise Discard("no finite shortfall")
    ctx.nt(len(set(lr.tolist())) > 2)
    got = np.asarray(ns.measures.SRISK(base[:, which].copy(), m.copy(), W, D).estimate(case["k"], *case["sim"]), float)
    if got.shape != (n,) or not np.all(np.abs(got - want) <= 1e-9 * (W + D) + 1e-9 * np.abs(want)):
        raise Violation(f"{n} firms: {got.tolist()}, expected {want.tolist()}", "a whole market")


SCALE = 2  # quick-tier case counts are multiplied by this
FACETS = [Facet("many", many_case, run_many, "at least one firm with systemic events", 12, 200, shards=4, tshards=8, weight=3),
          Facet("crowd", crowd_case, run_crowd, "firms with different long-run shortfalls", 2, 30, shards=2, tshards=8, weight=2),
          Facet("defaults", default_case, run_defaults, "the firm has systemic events", 4, 40, shards=2), Facet("firms", case_, run, "at least one firm with systemic events", 140, 4000, shards=8, tshards=8)]
ASSUMPTIONS = ["the long-run shortfall of a firm is taken from the package itself (decided by L01 and L02)"]
