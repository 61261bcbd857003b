"""M03: dynamic conditional correlations follow the documented recursion."""
import numpy as np
from hypothesis import strategies as st

from ref import garch as ref
from vf.core import Discard, Facet, Violation
from vf.garchgen import VARIANTS, any_series, ex, long_series
from vf.gen import SEEDS, fl, logfl


@st.composite
def ab(draw):
    mode = draw(st.sampled_from(["in", "in", "in", "zero", "a0", "b0", "edge"]))
    if mode == "zero":
        return [0.0, 0.0]
    t = draw(fl(0, 1))
    s = 1.0 if mode == "edge" else draw(fl(0, 1))
    if mode == "a0":
        return [0.0, s]
    if mode == "b0":
        return [s, 0.0]
    return [t * s, s - t * s]


@st.composite
def corr_case(draw, src=any_series(3, 200), together=False):
    z1, z2 = draw(src), draw(src)
    if together:
        z2 = dict(z2, T=z1["T"])
    return {"z1": z1, "z2": z2, "load": draw(fl(-0.99, 0.99)), "ab": draw(ab()),
            "v1": draw(logfl(1e-3, 1e3)), "v2": draw(logfl(1e-3, 1e3)), "spread": draw(fl(0, 1)), "seed": draw(SEEDS),
            "c1": draw(logfl(1e-3, 1e3)), "c2": draw(logfl(1e-3, 1e3)), "cut": draw(fl(0, 1)), "gjr": draw(st.booleans())}


def dcc(ns, gjr, e1, s1, e2, s2):
    """A dynamic-correlation model over margins in a given fitted state."""
    cls, un = (ns.alg.GJRGARCHModel_DCC, ns.alg.GJRGARCHModel) if gjr else (ns.alg.GARCHModel_DCC, ns.alg.GARCHModel)
    ms = []
    for e, s in ((e1, s1), (e2, s2)):
        m = un(e.copy())
        m.resids, m.sigma2 = e.copy(), s.copy()
        m.parameters.mu = 0.0
        m.parameters.loglikelihood = ref.normal_ll(e, s)
        m.estimation_success = True
        ms.append(m)
    return cls(ms[0], ms[1])


def margins(case):
    z1, z2 = ex(case["z1"]), ex(case["z2"])
    n = min(len(z1), len(z2))
    z1, z2 = z1[:n], z2[:n]
    for z in (z1, z2):
        if np.std(z) < 1e-4 * (np.max(np.abs(z)) + 1e-12):
            raise Discard("constant residuals")
    z1, z2 = z1 / np.sqrt(np.mean(z1**2)), z2 / np.sqrt(np.mean(z2**2))
    w = case["load"]
    z2 = np.sqrt(1 - w * w) * z2 + w * z1
    if np.std(z2) < 1e-4:
        raise Discard("constant residuals")
    r = np.random.RandomState(case["seed"])
    s1 = case["v1"] * np.exp(case["spread"] * r.standard_normal(n))
    s2 = case["v2"] * np.exp(case["spread"] * r.standard_normal(n))
    return z1, z2, s1, s2


def run(case, ctx):
    z1, z2, s1, s2 = margins(case)
    n = len(z1)
    a, b = case["ab"]
    e1, e2 = z1 * np.sqrt(s1), z2 * np.sqrt(s2)
    want = ref.dcc_rho(a, b, z1, z2)
    if not np.all(np.isfinite(want)):
        raise Discard("0/0")
    q11 = q22 = low = high = 1.0
    for x, y in zip(z1[:-1], z2[:-1]):
        q11, q22 = (1 - a - b) + a * x * x + b * q11, (1 - a - b) + a * y * y + b * q22
        low, high = min(low, q11, q22), max(high, q11, q22)
        if low < 1e-6:
            raise Discard("vanishing variance of the correlation process")
    tol = min(1e-8, 1e-11 + 1e-14 * n * high / low)
    ctx.nt(n > 3 and a > 0 and np.ptp(want) > 1e-3)
    ctx.label("a+b=1" if a + b >= 1 else "a+b<1", "gjr" if case["gjr"] else "garch")
    perm = np.random.RandomState(case["seed"]).permutation
    t = int(case["cut"] * n)
    idx = np.concatenate([np.arange(t), t + perm(n - t)]).astype(int)

    def eq(got, exp, what):
        got = np.asarray(got, float)
        if got.shape != exp.shape or not np.allclose(got, exp, rtol=0, atol=tol):
            k = int(np.nanargmax(np.abs(got - exp))) if got.shape == exp.shape else -1
            raise Violation(f"{what}: at {k} got {got[k]!r}, expected {exp[k]!r} (a={a}, b={b})", what.split(":")[0])

    for v in VARIANTS:
        ns = ctx.variant(v)
        rho = np.asarray(dcc(ns, case["gjr"], e1, s1, e2, s2).conditional_correlations(a, b), float)
        eq(rho, want, f"recursion: {v}")
        if not (np.max(np.abs(rho)) <= 1 + 1e-9):
            raise Violation(f"{v}: a correlation of {np.max(np.abs(rho))!r}", "range")
        if a == 0 and b == 0:
            eq(rho, np.full(n, np.corrcoef(z1, z2)[0, 1]), f"constant: {v}")
        eq(dcc(ns, case["gjr"], e2, s2, e1, s1).conditional_correlations(a, b), rho, f"swap: {v}")
        eq(dcc(ns, case["gjr"], -e1, s1, e2, s2).conditional_correlations(a, b), -rho, f"sign: {v}")
        c1, c2 = case["c1"], case["c2"]
        eq(dcc(ns, case["gjr"], c1 * e1, c1**2 * s1, c2 * e2, c2**2 * s2).conditional_correlations(a, b), rho, f"scale: {v}")
        later = np.asarray(dcc(ns, case["gjr"], e1[idx], s1[idx], e2[idx], s2[idx]).conditional_correlations(a, b), float)
        eq(later[: t + 1], rho[: t + 1], f"later observations: {v}")


SCALE = 3  # quick-tier case counts are multiplied by this
FACETS = [Facet("correlations", corr_case, run, "a > 0 and correlations that move", 4800, 60000, shards=8, tshards=8, variants=VARIANTS, weight=2),
          Facet("long", lambda: corr_case(long_series(400, 12000), True), run, "a > 0, correlations that move, at least 400 days", 30, 1000, shards=4, tshards=8, variants=VARIANTS)]
ASSUMPTIONS = ["models are put in a fitted state by setting resids, sigma2, parameters and estimation_success, the attributes fit sets",
               "cases whose correlation process divides zero by zero are outside the domain"]
