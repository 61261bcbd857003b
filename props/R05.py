"""R05: marginal and systemic expected shortfall are the documented statistics."""
import math
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from vf.core import Discard, Facet, Violation
from vf.gen import SEEDS, fl, length, logfl

Q = st.one_of(st.sampled_from([0.05, 0.05, 0.01, 0.1, 0.25, 0.5, 0.75, 1.0]), fl(0.005, 1))


@st.composite
def mes_case(draw):
    if draw(st.booleans()):
        n = draw(st.integers(2, 12))
        mk = draw(st.lists(st.integers(-4, 4), min_size=n, max_size=n))  # many ties
        fm = draw(st.lists(fl(-5, 5), min_size=n, max_size=n))
        return {"m": mk, "f": fm, "q": draw(Q), "perm": draw(SEEDS), "a": draw(fl(-2, 2)), "b": draw(logfl(0.01, 100))}
    return {"n": draw(st.one_of(length(2, 300, 6000), st.sampled_from([21, 41, 101, 201]))), "seed": draw(SEEDS), "beta": draw(fl(-2, 2)), "q": draw(Q), "perm": draw(SEEDS),
            "a": draw(fl(-2, 2)), "b": draw(logfl(0.01, 100))}


def data(c):
    if "m" in c:
        return np.array(c["f"], float), np.array(c["m"], float) / 100
    r = np.random.RandomState(c["seed"])
    m = r.standard_t(4, c["n"]) * 0.01
    return c["beta"] * m + r.standard_normal(c["n"]) * 0.02, m


def reference(f, m, q):
    """The admissible values: one, or two when a return is within rounding of the percentile."""
    n = len(m)
    s = sorted(m.tolist())
    pos = Fraction(repr(q)) * (n - 1)
    k = int(pos)
    w = pos - k
    lo, hi = s[k], s[min(k + 1, n - 1)]
    t = float(Fraction(lo) + w * (Fraction(hi) - Fraction(lo)))
    sets = []
    exact = lo == hi or (w == 0 and q * 100 / 100 * (n - 1) == k and (q * 100) / 100 == q)
    eps = 0.0 if exact else 1e-12 * max(abs(lo), abs(hi))
    for thr in ((t,) if exact else (t - eps, t + eps)):
        sets.append([float(x) for x, y in zip(f, m) if y < thr])
    return [math.fsum(x) / len(x) for x in sets if x], any(not x for x in sets), sets


def run_mes(case, ctx):
    f, m = data(case)
    want, empty, sets = reference(f, m, case["q"])
    if empty:
        raise Discard("no day below the percentile")
    ctx.nt(1 < len(sets[0]) < len(m) and len(set(m.tolist())) > 2)
    ctx.label("ties" if len(set(m.tolist())) < len(m) else "no ties", "ambiguous" if len(sets) > 1 and sets[0] != sets[1] else "clear", "q=5%" if case["q"] == 0.05 else "other q")
    MES = ctx.native.measures.MarginalExpectedShortfall
    tol = 1e-12 * (1 + np.max(np.abs(f)))

    def eq(got, what, tr=lambda v: v, t=1.0):
        if not any(abs(got - tr(w)) <= tol * t for w in want):
            raise Violation(f"{what}: {got!r}, expected {[tr(w) for w in want]}", what)
    eq(MES(f.copy(), m.copy()).estimate(case["q"]), "shortfall")
    if case["q"] == 0.05:
        eq(MES(f.copy(), m.copy()).estimate(), "default percentile")
    if len(sets) > 1 and sets[0] != sets[1]:
        return
    a, b = case["a"], case["b"]
    eq(MES(a + b * f, m.copy()).estimate(case["q"]), "affine change of the firm", lambda v: a + b * v, (1 + b) * 4)
    p = np.random.RandomState(case["perm"]).permutation(len(f))
    eq(MES(f[p], m[p]).estimate(case["q"]), "reordered days")
    two = 2.0 ** int(np.round(np.log2(b)))  # a scale that commutes with rounding, so ties stay ties
    eq(MES(f.copy(), m * two).estimate(case["q"]), "rescaled market")
    m2 = a * 0.01 + b * m
    w2, e2, s2 = reference(f, m2, case["q"])
    if len(s2) > 1 and s2[0] == s2[1] and s2[0] == sets[0]:
        eq(MES(f.copy(), m2).estimate(case["q"]), "affine change of the market")


@st.composite
def ses_case(draw):
    return {"n": draw(length(3, 60, 3000)), "seed": draw(SEEDS), "b": draw(fl(-3, 3)), "c": draw(fl(-3, 3)), "noise": draw(st.one_of(st.just(0.0), fl(0, 1))), "mes": draw(fl(-0.2, 0.3)),
            "lvg": draw(fl(1, 40)), "k": draw(logfl(0.01, 100)), "neg": draw(st.booleans()), "shift": draw(fl(-5, 5)), "scale": draw(logfl(0.01, 2))}


def run_ses(case, ctx):
    r = np.random.RandomState(case["seed"])
    n = case["n"]
    mes, lvg = r.uniform(-0.05, 0.2, n), r.uniform(1, 1 + 20 * case["scale"], n)
    ses = 0.3 + case["b"] * mes + case["c"] * lvg * 0.05 + case["noise"] * r.standard_normal(n) * 0.05
    X = np.column_stack([mes - mes.mean(), lvg - lvg.mean()])
    sx = np.linalg.norm(X, axis=0)
    if np.linalg.cond(X / sx) > 1e3:
        raise Discard("collinear training sample")
    b, c = np.linalg.solve((X / sx).T @ (X / sx), (X / sx).T @ (ses - ses.mean())) / sx
    if abs(b + c) < 1e-3 * max(abs(b), abs(c)) or max(abs(b), abs(c)) < 1e-6:
        raise Discard("slopes cancel")
    want = (b * case["mes"] + c * case["lvg"]) / (b + c)
    ctx.nt(n > 3 and case["noise"] > 0)
    ctx.label("exact fit" if case["noise"] == 0 else "noise")
    S = ctx.native.measures.SystemicExpectedShortfall
    # rounding of the regression: relative to the size of the regressand, so it matters when the slopes are small
    err = 1e-11 * (np.max(np.abs(ses)) + abs(case["shift"])) * np.sqrt(n) / sx
    tol = (err @ [abs(case["mes"]) + abs(want), abs(case["lvg"]) + abs(want)]) / abs(b + c) + 1e-12
    if tol > 1e-3 * (abs(want) + abs(case["mes"])):
        raise Discard("slopes drown in rounding")

    def eq(y, order, what):
        got = S(mes[order], lvg[order], y[order], case["mes"], case["lvg"]).estimate()
        if not abs(got - want) <= tol:
            raise Violation(f"{what}: {got!r}, expected {want!r} (slopes {b!r}, {c!r})", what)
    ident = np.arange(n)
    eq(ses, ident, "fitted shortfall")
    eq(ses, r.permutation(n), "firm order")
    eq(ses + case["shift"], ident, "shifted training shortfalls")
    eq(ses * (-case["k"] if case["neg"] else case["k"]), ident, "rescaled training shortfalls")
    got = S(mes, lvg, ses, case["mes"], case["lvg"]).estimate("BFLV2012")
    if not abs(got - want) <= tol:
        raise Violation(f"named version: {got!r}, expected {want!r}", "version")


SCALE = 4  # quick-tier case counts are multiplied by this
FACETS = [Facet("mes", mes_case, run_mes, "some but not all days are below the percentile and the market has over two values", 6000, 80000, shards=4, tshards=8),
          Facet("ses", ses_case, run_ses, "more than three firms and an inexact fit", 3000, 40000, shards=2, tshards=8)]
ASSUMPTIONS = ["days whose market return is within rounding of an interpolated percentile may count or not; exact order statistics are judged strictly",
               "samples with no day strictly below the percentile (for example constant markets or q = 0) have no mean and are outside the property",
               "training samples are not collinear and the slopes do not cancel"]
