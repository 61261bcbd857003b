"""R08: order-book slope measures follow their definitions."""
import math

import numpy as np
from hypothesis import strategies as st

from vf.core import Discard, Facet, Violation
from vf.gen import SEEDS, fl, length, logfl


@st.composite
def book(draw):
    big = draw(st.integers(0, 3)) == 0
    n = draw(length(20, 120, 1500)) if big else draw(st.integers(1, 6))
    return {"n": n, "k": draw(st.one_of(st.integers(2, 10), st.just(5), st.just(10), st.integers(2, 10), st.integers(11, 60))), "mid": draw(logfl(0.01, 5000)), "tick": draw(logfl(1e-4, 0.1)), "hole": draw(st.sampled_from([0.0, 0.0, 0.15, 0.4])),
            "flat": draw(st.sampled_from([0.0, 0.0, 0.2])), "empty": draw(st.sampled_from([0.0, 0.0, 0.2])), "size": draw(logfl(1, 1e6)), "ints": draw(st.booleans()), "seed": draw(SEEDS), "c": draw(logfl(1e-3, 1e3)), "g": draw(logfl(1e-2, 1e2)),
            "perm": draw(SEEDS)}


def expand(b):
    """bid and ask sizes and prices (n, k), midpoints (n,)"""
    r = np.random.RandomState(b["seed"])
    n, k = b["n"], b["k"]
    mid = b["mid"] * np.exp(0.05 * r.standard_normal(n))
    steps = np.cumsum(r.randint(1, 5, (2, n, k)), axis=2) * b["tick"] / k
    bp, ap = mid[:, None] * (1 - steps[0] * 0.2), mid[:, None] * (1 + steps[1] * 0.2)
    sizes = r.exponential(b["size"], (2, n, k)) * r.uniform(0.2, 3, (2, 1, 1))
    if b["ints"]:
        sizes = np.ceil(sizes)
    dead = r.rand(n) < b["flat"]
    bp[dead] = ap[dead] = mid[dead, None]  # a collapsed book without depth: 0 / 0
    sizes[:, dead] = 0.0
    sizes[:, r.rand(n) < b["empty"]] = 0.0  # no depth at all
    for x in (sizes[0], sizes[1], bp, ap):
        x[r.rand(n) < b["hole"], r.randint(0, k)] = np.nan
    return sizes[0], sizes[1], bp, ap, mid


def mean(vals, what):
    v = [x for x in vals if x == x]
    if not v or any(math.isinf(x) for x in v):
        raise Discard(f"no defined quote for the {what}")
    return math.fsum(v) / len(v)


def div(a, b):
    a, b = float(a), float(b)
    if a != a or b != b or (a == 0 and b == 0):
        return math.nan
    return math.copysign(math.inf, a) if b == 0 else a / b


def total(row):
    return math.nan if any(x != x for x in row) else math.fsum(row)


def check(got, want, scale, what):
    if np.ndim(got) != 0 or not abs(got - want) <= 1e-9 * scale:
        raise Violation(f"{what}: {got!r}, expected {want!r}", what)


def setup(case, ctx):
    bs, as_, bp, ap, mid = expand(case)
    undefined = np.isnan(bs).any() or np.isnan(as_).any() or np.isnan(bp).any() or np.isnan(ap).any() or case["flat"] > 0 or case["empty"] > 0
    ctx.nt(case["n"] > 1)
    ctx.label("undefined quotes" if undefined else "all defined", f"{case['k']} levels")
    return bs, as_, bp, ap, mid, np.random.RandomState(case["perm"]).permutation(case["n"])


def run_slope(case, ctx):
    lob = ctx.native.lob
    bs, as_, bp, ap, mid, p = setup(case, ctx)
    for f, s, pr, sign, what in ((lob.DGGW_ask_slope, as_, ap, 1, "ask slope"), (lob.DGGW_bid_slope, bs, bp, -1, "bid slope")):
        top = pr[:, -1]
        vals = [div(total(s[i]), abs(top[i] - mid[i])) for i in range(len(mid))]
        want = mean(vals, what)
        scale = max(abs(v) for v in vals if v == v) * (1 + np.nanmax(mid / np.where(np.abs(top - mid) > 0, np.abs(top - mid), np.inf)) * 1e-6) + 1e-300
        check(f(s.copy(), top.copy(), mid.copy()), want, scale, what)
        check(f(s[p], top[p], mid[p]), want, scale, what + ", quotes reordered")
        c, g = case["c"], case["g"]
        check(f(s * c, top, mid) / c, want, scale, what + ", sizes rescaled")
        check(f(s, top * g, mid * g) * g, want, scale, what + ", prices rescaled")
        check(f(s[:, ::-1], top, mid), want, scale, what + ", levels reordered")
        mirror = lob.DGGW_bid_slope if sign == 1 else lob.DGGW_ask_slope
        check(mirror(s, 2 * mid - top, mid), want, scale * (1 + 1e-6), what + ", mirrored")


def run_difference(case, ctx):
    lob = ctx.native.lob
    if case["k"] < 5:
        case = dict(case, k=case["k"] + 4)
    bs, as_, bp, ap, mid, p = setup(case, ctx)
    for f, s, pr, what in ((lob.DGGW_ask_side_slope_difference, as_, ap, "ask-side difference"), (lob.DGGW_bid_side_slope_difference, bs, bp, "bid-side difference")):
        hi = [div(s[i, 4] - s[i, 2], abs(pr[i, 4] - pr[i, 2])) for i in range(len(mid))]
        lo = [div(s[i, 2] - s[i, 0], abs(pr[i, 2] - pr[i, 0])) for i in range(len(mid))]
        want = mean([math.nan if math.isinf(a) or math.isinf(b) else a - b for a, b in zip(hi, lo)], what)
        if any(math.isinf(x) for x in hi + lo):
            raise Discard("infinite slope")
        scale = max(abs(x) for x in hi + lo if x == x) * (1 + 1e-6 * 100 / case["tick"]) + 1e-300
        check(f(s.copy(), pr.copy()), want, scale, what)
        check(f(s[p], pr[p]), want, scale, what + ", quotes reordered")
        c, g = case["c"], case["g"]
        check(f(s * c, pr) / c, want, scale, what + ", sizes rescaled")
        check(f(s, pr * g) * g, want, scale, what + ", prices rescaled")
        check(f(s, 2 * mid[:, None] - pr), want, scale * 1.001, what + ", reflected prices")
        other = lob.DGGW_bid_side_slope_difference if what.startswith("ask") else lob.DGGW_ask_side_slope_difference
        check(other(s, pr), want, scale, what + ", other side")


def run_depth(case, ctx):
    lob = ctx.native.lob
    bs, as_, bp, ap, mid, p = setup(case, ctx)
    vals = [div(2 * (total(as_[i]) - total(bs[i])), total(as_[i]) + total(bs[i])) for i in range(len(mid))]
    want = mean(vals, "depth difference")
    f = lob.DGGW_scaled_depth_difference
    got = f(bs.copy(), as_.copy())
    if not -2 - 1e-12 <= got <= 2 + 1e-12:
        raise Violation(f"scaled depth difference {got!r} outside [-2, 2]", "range")
    check(got, want, 1.0, "depth difference")
    check(-f(as_, bs), want, 1.0, "depth difference, sides swapped")
    check(f(bs[p], as_[p]), want, 1.0, "depth difference, quotes reordered")
    check(f(bs * case["c"], as_ * case["c"]), want, 1.0, "depth difference, sizes rescaled")
    check(f(bs[:, ::-1], as_), want, 1.0, "depth difference, levels reordered")


SCALE = 4  # quick-tier case counts are multiplied by this
FACETS = [Facet("slope", book, run_slope, "at least two quotes", 2400, 30000, shards=3, tshards=8),
          Facet("difference", book, run_difference, "at least two quotes", 2400, 30000, shards=2, tshards=8),
          Facet("depth", book, run_depth, "at least two quotes", 2000, 20000, shards=2, tshards=4)]
ASSUMPTIONS = ["a quote is undefined when its measure is not a number: a missing size or price, or no depth over no distance; books with depth at zero distance (an infinite slope) are not judged"]
