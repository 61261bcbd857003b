"""R03: the absorption ratio is the variance share of the top eigenvectors."""
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from vf.core import Discard, Facet, Violation
from vf.gen import SEEDS, fl, length, logfl


@st.composite
def returns(draw):
    return {"n": draw(length(2, 14, 80)), "days": draw(st.one_of(length(2, 60, 600), st.integers(2, 8))), "scale": draw(logfl(1e-4, 1e3)), "factor": draw(fl(0, 3)),
            "spread": draw(fl(0, 3)), "dup": draw(st.booleans()), "still": draw(st.one_of(st.none(), st.none(), st.none(), st.just(0.0), fl(-2, 2))), "seed": draw(SEEDS)}


def expand(g):
    r = np.random.RandomState(g["seed"])
    x = r.standard_normal((g["n"], g["days"])) * np.exp(g["spread"] * r.standard_normal((g["n"], 1)))
    x = x + g["factor"] * r.standard_normal((g["n"], 1)) * r.standard_normal(g["days"])
    if g["dup"] and g["n"] > 2:
        x[1] = -2 * x[0]  # a singular covariance
    if g.get("still") is not None and g["n"] > 2:
        x[-1] = g["still"]  # an asset that never moves
    return x * g["scale"]


@st.composite
def fraction(draw, n):
    k = draw(st.integers(0, n))
    return draw(st.one_of(fl(0, 1), st.just(k / n), st.just(min(1.0, (k + 0.5) / n)), st.sampled_from([0.0, 1.0, 0.2, 0.5, 0.25, 0.35, 0.75])))


@st.composite
def case_(draw):
    g = draw(returns())
    return {"g": g, "fractions": draw(st.lists(fraction(g["n"]), min_size=1, max_size=5)), "perm": draw(SEEDS), "c": draw(logfl(1e-3, 1e3)), "shift": draw(fl(-3, 3)),
            "neg": draw(st.booleans())}


def counts(frac, n):
    """Admissible numbers of eigenvectors: fraction times assets, half up."""
    exact = Fraction(repr(frac)) * n
    dist = abs(exact - int(exact) - Fraction(1, 2))
    k = int(exact + Fraction(1, 2))
    if dist == 0 and (frac * n) % 1 == 0.5:
        return {k}
    if dist < Fraction(1, 10**9):
        return {int(exact), int(exact) + 1}
    return {k}


def run(case, ctx):
    x = expand(case["g"])
    n = x.shape[0]
    lam = np.sort(np.linalg.svd(x - x.mean(axis=1, keepdims=True), compute_uv=False) ** 2)[::-1]
    lam = np.concatenate([lam, np.zeros(max(0, n - len(lam)))])[:n]
    share = np.concatenate([[0.0], np.cumsum(lam) / lam.sum()])
    ctx.nt(any(0 < min(counts(f, n)) < n for f in case["fractions"]) and share[1] < 0.999)
    ctx.label("more assets than days" if n > x.shape[1] else "more days", "half" if any((f * n) % 1 == 0.5 for f in case["fractions"]) else "no half")
    AR = ctx.native.measures.AbsorptionRatio
    o = AR(x.copy())
    got = []
    for f in case["fractions"]:
        v = o.estimate(f)
        if isinstance(v, complex) or not np.isrealobj(v) or not -1e-12 <= v <= 1 + 1e-12:
            raise Violation(f"absorption ratio {v!r} for fraction {f!r} is not a number in [0, 1]", "range")
        want = [share[k] for k in counts(f, n)]
        if not any(abs(v - w) <= 1e-9 for w in want):
            raise Violation(f"absorption ratio for fraction {f!r} of {n} assets is {v!r}, expected {want}; all shares {share.tolist()}", "value")
        got.append(float(v))
    order = np.argsort(case["fractions"], kind="stable")
    for a, b in zip(order, order[1:]):
        if got[b] < got[a] - 1e-12:
            raise Violation(f"ratio falls from {got[a]!r} to {got[b]!r} when the fraction grows from {case['fractions'][a]!r} to {case['fractions'][b]!r}", "monotone")
    if abs(o.estimate(0.0)) > 1e-12 or abs(o.estimate(1.0) - 1) > 1e-9:
        raise Violation(f"fractions 0 and 1 give {o.estimate(0.0)!r} and {o.estimate(1.0)!r}", "ends")
    # history: the same object again, in reverse, and fresh objects
    for f, v in reversed(list(zip(case["fractions"], got))):
        if abs(float(o.estimate(f)) - v) > 1e-12 or abs(float(AR(x.copy()).estimate(f)) - v) > 1e-12:
            raise Violation(f"estimates differ with the history: {o.estimate(f)!r}, fresh {AR(x.copy()).estimate(f)!r}, first {v!r}", "history")
    f = case["fractions"][0]
    r = np.random.RandomState(case["perm"])
    p, d = r.permutation(n), r.permutation(x.shape[1])
    sd = x.std(axis=1, keepdims=True)
    alts = {"assets reordered": x[p], "days reordered": x[:, d], "days reversed": x[:, ::-1], "shifted": x + case["shift"] * sd * r.uniform(-1, 1, (n, 1)),
            "scaled": x * (-case["c"] if case["neg"] else case["c"])}
    for k, y in alts.items():
        v = float(AR(y.copy()).estimate(f))
        if abs(v - got[0]) > 1e-9:
            raise Violation(f"{k}: {v!r} instead of {got[0]!r} (fraction {f!r})", k)
    if abs(float(AR(x.copy()).estimate()) - float(AR(x.copy()).estimate(0.2))) > 1e-15:
        raise Violation("the default fraction is not 0.2", "default")


SCALE = 4  # quick-tier case counts are multiplied by this
FACETS = [Facet("ratio", case_, run, "some but not all eigenvectors, and the first does not carry everything", 4000, 60000, shards=6, tshards=8)]
ASSUMPTIONS = ["eigenvalues of the reference are squared singular values of the demeaned returns",
               "a fraction whose product with the number of assets is within 1e-9 of a half, but is not exactly a half, may be rounded either way",
               "at least two assets and two days, not all returns constant"]
