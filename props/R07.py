"""R07: spreads and price impact follow their definitions and decompose."""
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vf.core import Facet, Violation
from vf.gen import SEEDS, fl, length, logfl

PRICE = logfl(0.01, 5000)


@st.composite
def trades(draw):
    big = draw(st.integers(0, 2)) == 0
    vol = draw(st.sampled_from(["int", "float", "zeros", "some zeros"]))
    base = {"vol": vol, "c": draw(st.one_of(logfl(1e-2, 1e2), logfl(1e-6, 1e6))), "v": draw(st.one_of(logfl(1e-3, 1e3), logfl(1e-15, 1e12))), "perm": draw(SEEDS), "how": draw(st.sampled_from(["array", "list", "series", "shuffled series", "int array", "tuple"]))}
    if big:
        return dict(base, n=draw(length(2, 200, 4000)), seed=draw(SEEDS), p0=draw(PRICE), tick=draw(logfl(1e-4, 0.1)))
    n = draw(st.integers(1, 7))
    rows = draw(st.lists(st.tuples(PRICE, fl(-0.2, 0.2), fl(-0.2, 0.2), st.integers(1, 10**6), st.sampled_from([1, -1]), st.booleans()), min_size=n, max_size=n))
    return dict(base, rows=rows)


def data(c):
    """price, later midpoint, midpoint, volume, direction"""
    if "rows" in c:
        mid = np.array([r[0] for r in c["rows"]])
        price, later = mid * np.exp([r[1] for r in c["rows"]]), mid * np.exp([r[2] for r in c["rows"]])
        vol = np.array([float(r[3]) for r in c["rows"]])
        d = np.array([r[4] for r in c["rows"]])
        zero = np.array([r[5] for r in c["rows"]])
    else:
        r = np.random.RandomState(c["seed"])
        mid = c["p0"] * np.exp(np.cumsum(r.standard_normal(c["n"])) * 0.01)
        d = np.where(r.rand(c["n"]) < 0.5, 1, -1)
        price = mid * (1 + d * c["tick"] * r.rand(c["n"]) + 0.2 * c["tick"] * r.standard_normal(c["n"]))
        later = mid * (1 + 0.5 * c["tick"] * r.standard_normal(c["n"]))
        vol = np.ceil(r.exponential(500, c["n"]))
        zero = r.rand(c["n"]) < 0.4
    if c["vol"] == "float":
        vol = vol / 3
    elif c["vol"] == "zeros":
        vol = vol * 0
    elif c["vol"] == "some zeros":
        vol = np.where(zero, 0.0, vol)
    return price, later, mid, vol, d


def average(vals, price, vol):
    w = [v * p for v, p in zip(vol, price)]
    if not any(w):
        return math.fsum(vals) / len(vals)
    return math.fsum(v * x for v, x in zip(vals, w)) / math.fsum(w)


def diff(a, b, m, d, pct):
    out = []
    for i in range(len(m)):
        x = (a[i] - b[i]) / m[i] * 100 if pct else math.log(a[i]) - math.log(b[i])
        out.append(2 * abs(x) if d is None else 2 * int(d[i]) * x)
    return out


def contain(d, how, seed):
    if how == "list":
        return [int(v) for v in d]
    if how == "tuple":
        return tuple(int(v) for v in d)
    if how == "series":
        return pd.Series(d)
    if how == "shuffled series":  # an index that says nothing about the order of the trades
        return pd.Series(d, index=np.random.RandomState(seed).permutation(len(d)))
    if how == "int array":
        return d.astype(np.int8)
    return d.astype(float)


def run(case, ctx):
    ns = ctx.native
    price, later, mid, vol, d = data(case)
    n = len(price)
    ctx.nt(n > 1 and len(set(d.tolist())) > 1 and np.any(vol > 0) and len(set((vol * price).tolist())) > 1)
    ctx.label(case["how"], "volume " + case["vol"])
    p = np.random.RandomState(case["perm"]).permutation(n)
    c, v = case["c"], case["v"]

    def eq(got, want, what, tol):
        if np.ndim(got) != 0 or not abs(got - want) <= tol:
            raise Violation(f"{what}: {got!r}, expected {want!r}", what)
    for pct in (True, False):
        tol = 5e-12 * (100 if pct else 1) * (1 + abs(math.log(float(np.max(mid)))))
        kw = {} if pct and case["perm"] % 2 else {"pct_spread": pct}
        got = {}
        for dirs in (None, d):
            a = "signed" if dirs is not None else "absolute"
            D = (lambda i=None: None) if dirs is None else (lambda i=None: contain(d if i is None else d[i], case["how"], case["perm"]))
            want_e = average(diff(price, mid, mid, dirs, pct), price, vol)
            want_r = average(diff(price, later, mid, dirs, pct), price, vol)
            want_i = average(diff(later, mid, mid, dirs, pct), price, vol)
            fs = {"effective spread": (lambda P, L, M, V, i=None: ns.spread.effective_spread(P, M, V, D(i), **kw), want_e),
                  "realized spread": (lambda P, L, M, V, i=None: ns.spread.realized_spread(P, L, M, V, D(i), **kw), want_r),
                  "price impact": (lambda P, L, M, V, i=None: ns.impact.simple_price_impact(P, L, M, V, D(i), **kw), want_i)}
            for name, (f, want) in fs.items():
                t = f"{a} {'percentage' if pct else 'log'} {name}"
                got[a, name] = f(price.copy(), later.copy(), mid.copy(), vol.copy())
                eq(got[a, name], want, t, tol)
                eq(f(price * c, later * c, mid * c, vol), want, t + ", prices rescaled", 3 * tol)
                eq(f(price, later, mid, vol * v), want, t + ", volumes rescaled", tol)
                eq(f(price[p], later[p], mid[p], vol[p], p), want, t + ", trades reordered", tol)
                eq(f(price.tolist(), later.tolist(), mid.tolist(), vol.tolist()), want, t + " of lists", tol)
        s = got["signed", "realized spread"] + got["signed", "price impact"]
        eq(got["signed", "effective spread"], s, "effective = realized + impact", 3 * tol)


@st.composite
def quotes(draw):
    n = draw(st.integers(1, 8))
    return {"rows": draw(st.lists(st.tuples(PRICE, st.one_of(fl(0, 0.5), fl(-0.1, 0.1), st.just(0.0))), min_size=n, max_size=n)), "c": draw(logfl(1e-2, 1e2)), "perm": draw(SEEDS),
            "container": draw(st.sampled_from(["array", "list", "series"]))}


def run_quoted(case, ctx):
    bid = np.array([r[0] for r in case["rows"]])
    ask = bid * np.exp([r[1] for r in case["rows"]])
    q = ctx.native.spread.quoted_spread
    ctx.nt(len(bid) > 1 and np.any(bid != ask))
    box = {"array": lambda x: x.copy(), "list": lambda x: x.tolist(), "series": lambda x: pd.Series(x, index=np.arange(len(x))[::-1])}[case["container"]]
    p = np.random.RandomState(case["perm"]).permutation(len(bid))
    for pct in (True, False):
        want = math.fsum((a - b) / ((a + b) / 2) * 100 if pct else math.log(a) - math.log(b) for a, b in zip(ask, bid)) / len(bid)
        tol = 1e-10 * (100 if pct else 10)

        def eq(got, what):
            if np.ndim(got) != 0 or not abs(got - want) <= tol:
                raise Violation(f"quoted spread (percent: {pct}), {what}: {got!r}, expected {want!r}", f"quoted {what}")
        eq(q(box(bid), box(ask), pct), "value")
        if pct:
            eq(q(bid, ask), "default")
        eq(q(bid * case["c"], ask * case["c"], pct_spread=pct), "rescaled")
        eq(q(bid[p], ask[p], pct), "reordered")
        eq(-q(ask, bid, pct), "swapped")


SCALE = 4  # quick-tier case counts are multiplied by this
FACETS = [Facet("trades", trades, run, "at least two trades in both directions with different dollar volumes", 3000, 40000, shards=5, tshards=8),
          Facet("quotes", quotes, run_quoted, "at least two quotes, not all with zero spread", 2000, 25000, shards=2, tshards=4)]
ASSUMPTIONS = ["prices and midpoints are positive, volumes are not negative, directions are +1 or -1"]
