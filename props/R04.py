"""R04: the distress insurance premium is the documented simulation."""
from statistics import NormalDist

import numpy as np
from hypothesis import strategies as st

from vf.core import Facet, Violation
from vf.gen import SEEDS, fl, length, logfl

PD = st.one_of(logfl(1e-4, 0.3), fl(0.01, 0.99), st.sampled_from([0.5, 0.02, 0.999, 1e-9]))
TH = st.one_of(st.integers(0, 100).map(lambda k: k / 100), st.sampled_from([0.15, 0.29, 0.57, 0.58, 0.07, 0.14, 0.28, 0.55, 0.56, 1.0, 0.0]), fl(0, 1), st.just(1.2))


@st.composite
def banks(draw, max_n=6):
    n = draw(length(1, max_n, 40))
    return {"pd": draw(st.lists(PD, min_size=n, max_size=n)), "load": draw(st.lists(fl(-0.95, 0.95), min_size=n, max_size=n)), "mix": draw(fl(0, 1)), "rot": draw(SEEDS)}


def corr(b):
    """A valid correlation matrix: one factor plus a random second one."""
    n = len(b["pd"])
    L = np.column_stack([b["load"], np.random.RandomState(b["rot"]).uniform(-0.9, 0.9, n) * b["mix"]])
    C = L @ L.T + np.diag(np.full(n, 0.1) + np.clip(1 - (L**2).sum(axis=1), 0, None))
    s = np.sqrt(np.diag(C))
    C = C / s[:, None] / s
    np.fill_diagonal(C, 1.0)
    return C


def simulated(pd, C, th, seed, nr, ns):
    """The documented simulation, slot by slot, on the generator the docstring promises (RandomState)."""
    r = np.random.RandomState(seed)
    n = len(pd)
    cut = [NormalDist().inv_cdf(p) for p in pd]
    z = r.normal(0, 1, (nr, n))
    A = np.linalg.cholesky(C)
    x = sum(z[:, [j]] * A[:, j] for j in range(n))
    k = sum((x[:, i] < cut[i]).astype(int) for i in range(n))
    tie = np.any(np.abs(x - np.array(cut)) < 1e-12)
    freq = [np.count_nonzero(k == i) / nr for i in range(n + 1)]
    pct = int(np.floor(round(th * 100, 9)))
    total = 0.0
    for i in range(1, n + 1):
        loss = r.triangular(0.1, 0.55, 1, (i, ns)).sum(axis=0)
        slot = np.ceil(loss * 100)
        total += freq[i] * np.sum(slot[slot >= pct * n]) / ns
    return total / 100, tie, freq


@st.composite
def sim_case(draw):
    return {"b": draw(banks()), "th": draw(TH), "seed": draw(st.integers(0, 10**6)), "nr": draw(st.sampled_from([1, 50, 400, 400, 3000, 3000, 20000])), "ns": draw(st.sampled_from([1, 7, 60, 60, 200, 200, 3000])),
            "th2": draw(TH)}


def run_sim(case, ctx):
    b = case["b"]
    pd, C = np.array(b["pd"]), corr(b)
    want, tie, freq = simulated(pd, C, case["th"], case["seed"], case["nr"], case["ns"])
    n = len(pd)
    ctx.nt(want > 0 and n > 1 and sum(f > 0 for f in freq) > 2)
    ctx.label(f"{n} banks", "zero" if want == 0 else "positive", "all default" if freq[-1] else "not all")
    o = ctx.native.measures.DistressInsurancePremium(pd.copy(), C.copy())
    args = (case["th"], case["seed"], case["nr"], case["ns"])
    np.random.seed(case["seed"] % 1000)
    before = np.random.get_state()
    got = o.estimate(*args)
    after = np.random.get_state()
    if before[2] != after[2] or not np.array_equal(before[1], after[1]):
        raise Violation("the global random state changed", "global state")
    if not (np.isfinite(got) and got >= 0):
        raise Violation(f"premium {got!r} is not a non-negative number", "range")
    if not tie and not abs(got - want) <= 1e-9 * max(1, want):
        raise Violation(f"premium {got!r}, documented simulation gives {want!r}", "value")
    np.random.rand(3)
    again = o.estimate(default_threshold=case["th"], random_seed=case["seed"], n_simulated_returns=case["nr"], n_simulations=case["ns"])
    if again != got:
        raise Violation(f"the same seed gives {got!r}, then {again!r}", "reproducible")
    lo, hi = sorted((case["th"], case["th2"]))
    p = [o.estimate(t, case["seed"], case["nr"], case["ns"]) for t in (lo, hi)]
    if p[1] > p[0] + 1e-12:
        raise Violation(f"premium rises from {p[0]!r} to {p[1]!r} when the threshold goes from {lo} to {hi}", "monotone")
    if case["th"] > 1 and got != 0:
        raise Violation(f"losses above everything owed are worth {got!r}", "zero")


@st.composite
def crowd(draw):
    """More banks than any tuple of options: up to 400."""
    n = draw(st.one_of(st.integers(40, 140), st.integers(240, 400)))
    r = np.random.RandomState(draw(SEEDS))
    pd = np.exp(r.uniform(np.log(draw(st.one_of(logfl(1e-2, 0.5), fl(0.5, 0.95)))), np.log(draw(fl(0.5, 0.99))), n))
    return {"b": {"pd": pd.tolist(), "load": r.uniform(*sorted([draw(fl(-0.9, 0.9)), draw(fl(-0.9, 0.9))]), n).tolist(), "mix": draw(fl(0, 1)), "rot": draw(SEEDS)}, "th": draw(st.one_of(TH, fl(0, 0.4), fl(0, 0.4))),
            "seed": draw(st.integers(0, 10**6)), "nr": draw(st.sampled_from([1, 20, 200])), "ns": draw(st.sampled_from([1, 5, 20])), "th2": draw(TH)}


@st.composite
def exact_case(draw):
    n = draw(st.integers(1, 5))
    common = draw(st.one_of(st.just(0.0), st.just(0.0), fl(0.1, 0.8)))
    return {"pd": draw(st.lists(st.one_of(fl(0.02, 0.6), logfl(5e-3, 0.5)), min_size=n, max_size=n)), "rho": common, "th": draw(st.sampled_from([0.0, 0.05, 0.15, 0.3, 0.45, 0.6])),
            "seed": draw(st.integers(0, 10**6))}


def joint(pd, rho):
    """Exact distribution of the number of defaults for equal correlations, by quadrature over the common factor."""
    n = len(pd)
    cut = np.array([NormalDist().inv_cdf(p) for p in pd])
    if rho == 0:
        q, w = np.array(pd)[None, :], np.ones(1)
    else:
        from scipy.special import ndtr
        m, w = np.polynomial.hermite_e.hermegauss(80)
        w = w / w.sum()
        q = ndtr((cut - np.sqrt(rho) * m[:, None]) / np.sqrt(1 - rho))
    d = np.zeros((len(w), n + 1))
    d[:, 0] = 1
    for i in range(n):
        s = d[:, :-1] * q[:, [i]]
        d = d * (1 - q[:, [i]])
        d[:, 1:] += s
    return w @ d


def loss_moments(k, first_slot, cache):
    """Mean and standard deviation of the slot value (in units) of k losses, when at least first_slot."""
    if ("slots", k) not in cache:
        r = np.random.RandomState(977 + k)
        # inverse distribution function of the triangular law on [0.1, 1] with mode 0.55
        u = r.rand(400000, k)
        x = np.where(u < 0.5, 0.1 + np.sqrt(u * 0.9 * 0.45), 1 - np.sqrt((1 - u) * 0.9 * 0.45))
        cache["slots", k] = np.ceil(x.sum(axis=1) * 100)
    s = cache["slots", k]
    v = np.where(s >= first_slot, s, 0) / 100
    return v.mean(), v.std()


def run_exact(case, ctx):
    pd, rho, n = case["pd"], case["rho"], len(case["pd"])
    nr, ns = 40000, 4000
    p = joint(pd, rho)
    pct = int(np.floor(round(case["th"] * 100, 9)))
    m, s = np.array([(0.0, 0.0)] + [loss_moments(k, pct * n, ctx.cache) for k in range(1, n + 1)]).T
    want = float(p @ m)
    var_k = (p @ m**2 - want**2) / nr  # the number of defaults
    var_l = np.sum(p**2 * s**2) * (1 / ns + 1 / 400000)  # the losses, and their reference
    tol = 6 * np.sqrt(var_k + var_l) + 12.0 / nr * m.max() + 1e-9
    ctx.nt(want > 0 and n > 1)
    ctx.label("independent" if rho == 0 else "correlated", "zero" if want == 0 else "positive")
    C = np.full((n, n), rho)
    np.fill_diagonal(C, 1.0)
    got = ctx.native.measures.DistressInsurancePremium(np.array(pd), C).estimate(case["th"], case["seed"], nr, ns)
    if not abs(got - want) <= tol:
        raise Violation(f"premium {got!r}, exact expectation {want!r} +- {tol:.3g}", "expectation")


def run_default(case, ctx):
    pd, C = np.array(case["pd"]), corr(case)
    want, tie, freq = simulated(pd, C, 0.15, 0, 500000, 1000)
    ctx.nt(want > 0)
    got = ctx.native.measures.DistressInsurancePremium(pd, C).estimate()
    if not abs(got - want) <= 1e-9 * max(1, want) + (2e-5 if tie else 0):
        raise Violation(f"default call gives {got!r}, the documented defaults {want!r}", "defaults")


SCALE = 2  # quick-tier case counts are multiplied by this
FACETS = [
    Facet("simulation", sim_case, run_sim, "a positive premium of several banks with different numbers of joint defaults", 2400, 30000, shards=4, tshards=8),
    Facet("crowd", crowd, run_sim, "a positive premium of several banks with different numbers of joint defaults", 60, 1500, shards=2, tshards=8, weight=3),
    Facet("expectation", exact_case, run_exact, "a positive exact premium of several banks", 400, 5000, shards=3, tshards=8, weight=3),
    Facet("defaults", lambda: banks(4), run_default, "a positive premium", 8, 80, shards=1, tshards=4),
]
ASSUMPTIONS = ["the draw-by-draw reference consumes numpy's RandomState in the documented order (asset returns, then losses by number of defaults)",
               "thresholds are used in whole percents, rounded down",
               "sampling error of the exact-expectation facet is judged at 6 standard deviations plus a Poisson allowance"]
