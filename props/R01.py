"""R01: Black-Scholes prices are discounted lognormal expectations and obey no-arbitrage."""
import numpy as np
from hypothesis import strategies as st

from vf.core import Facet, Violation
from vf.gen import SEEDS, fl, logfl

GX, GW = np.polynomial.legendre.leggauss(20)


def integral(f, a, b):
    """Composite Gauss-Legendre over [a, b] in panels of at most 1/4."""
    n = max(1, int(np.ceil((b - a) * 4)))
    e = np.linspace(a, b, n + 1)
    h = (e[1:] - e[:-1]) / 2
    x = (e[1:] + e[:-1])[:, None] / 2 + h[:, None] * GX
    return float(np.sum(h[:, None] * GW * f(x)))


def reference(o):
    """Discounted expected payoffs under the lognormal law by quadrature.  E[e^(vZ - v^2/2) 1(Z>k)] is an
    integral of the normal density itself, shifted by v, so nothing cancels or overflows."""
    S, K, r, T, s, q = (o[n] for n in "SKrTsq")
    v = s * np.sqrt(T)
    k = (np.log(K / S) - (r - q - s * s / 2) * T) / v
    phi = lambda z: np.exp(-z * z / 2) / np.sqrt(2 * np.pi)

    def mass(lo, hi):
        lo, hi = max(lo, -40.0), min(hi, 40.0)
        return integral(phi, lo, hi) if hi > lo else 0.0
    F, X = S * np.exp(-q * T), K * np.exp(-r * T)
    call = F * mass(k - v, np.inf) - X * mass(k, np.inf)
    put = X * mass(-np.inf, k) - F * mass(-np.inf, k - v)
    return call, put


def direct(o):
    """The same by integrating the payoff itself (only for moderate volatility)."""
    S, K, r, T, s, q = (o[n] for n in "SKrTsq")
    v = s * np.sqrt(T)
    k = (np.log(K / S) - (r - q - s * s / 2) * T) / v
    A = lambda z: S * np.exp((r - q - s * s / 2) * T + v * z)
    phi = lambda z: np.exp(-z * z / 2) / np.sqrt(2 * np.pi)
    hi, lo = 12.0 + v, -12.0
    call = integral(lambda z: (A(z) - K) * phi(z), max(k, lo), hi) if k < hi else 0.0
    put = integral(lambda z: (K - A(z)) * phi(z), lo, min(k, hi)) if k > lo else 0.0
    return np.exp(-r * T) * call, np.exp(-r * T) * put


@st.composite
def option(draw):
    S = draw(logfl(1e-3, 1e4))
    m = draw(st.one_of(fl(-0.5, 0.5), fl(-4, 4), st.just(0.0)))
    return {"S": S, "K": S * float(np.exp(m)), "r": draw(st.one_of(fl(-0.05, 0.2), st.just(0.0), fl(-0.5, 1.0))), "T": draw(logfl(1e-3, 40)),
            "s": draw(st.one_of(logfl(0.01, 3.0), fl(0.1, 0.6))), "q": draw(st.one_of(st.just(0.0), fl(-0.05, 0.2), fl(-0.5, 0.5)))}


def price(ns, o, **kw):
    o = dict(o, **kw)
    c, p = ns.measures.blsprice(o["S"], o["K"], o["r"], o["T"], o["s"], o["q"])
    return float(c), float(p)


def size(o):
    return o["S"] * np.exp(-o["q"] * o["T"]) + o["K"] * np.exp(-o["r"] * o["T"])


def eq(got, want, tol, what, o):
    if not abs(got - want) <= tol:
        raise Violation(f"{what}: {got!r}, expected {want!r} for {o}", what)


def run_value(case, ctx):
    ns, o = ctx.native, case
    c, p = price(ns, o)
    t = size(o)
    F, X = o["S"] * np.exp(-o["q"] * o["T"]), o["K"] * np.exp(-o["r"] * o["T"])
    rc, rp = reference(o)
    ctx.nt(rc > 1e-3 * t or rp > 1e-3 * t)
    ctx.label("yield" if o["q"] else "no yield", "in the money" if o["S"] > o["K"] else "out of the money", "negative rate" if o["r"] < 0 else "rate >= 0")
    eq(c, rc, 1e-11 * t, "call", o)
    eq(p, rp, 1e-11 * t, "put", o)
    if o["s"] * np.sqrt(o["T"]) < 2:
        dc, dp = direct(o)
        ctx.label("payoff integrated")
        eq(c, dc, 1e-9 * t, "call from payoffs", o)
        eq(p, dp, 1e-9 * t, "put from payoffs", o)
    eq(c - p, F - X, 1e-12 * t, "put-call parity", o)
    if not (max(F - X, 0) - 1e-12 * t <= c <= F + 1e-12 * t):
        raise Violation(f"call {c!r} outside [{max(F - X, 0)!r}, {F!r}] for {o}", "call bounds")
    if not (max(X - F, 0) - 1e-12 * t <= p <= X + 1e-12 * t):
        raise Violation(f"put {p!r} outside [{max(X - F, 0)!r}, {X!r}] for {o}", "put bounds")
    if o["q"] == 0.0:
        d = ns.measures.blsprice(o["S"], o["K"], o["r"], o["T"], o["s"])
        if (float(d[0]), float(d[1])) != (c, p):
            raise Violation(f"the default yield is not zero: {d} instead of {(c, p)}", "default yield")


@st.composite
def shape_case(draw):
    return {"o": draw(option()), "u": draw(logfl(1.0001, 3)), "w": draw(fl(0, 1)), "c": draw(logfl(1e-3, 1e3))}


def run_shape(case, ctx):
    ns, o, u, w = ctx.native, case["o"], case["u"], case["w"]
    c, p = price(ns, o)
    t = size(o) * u * u * 1e-12
    ctx.nt(c > 1e-3 * size(o) or p > 1e-3 * size(o))
    # homogeneity
    a = case["c"]
    hc, hp = price(ns, o, S=o["S"] * a, K=o["K"] * a)
    eq(hc, c * a, t * a, "homogeneity of the call", o)
    eq(hp, p * a, t * a, "homogeneity of the put", o)
    # monotone in strike, spot and volatility
    kc, kp = price(ns, o, K=o["K"] * u)
    if kc > c + t or kp < p - t:
        raise Violation(f"strike up by {u}: call {c!r} -> {kc!r}, put {p!r} -> {kp!r} for {o}", "strike")
    sc, sp = price(ns, o, S=o["S"] * u)
    if sc < c - t or sp > p + t:
        raise Violation(f"spot up by {u}: call {c!r} -> {sc!r}, put {p!r} -> {sp!r} for {o}", "spot")
    vc, vp = price(ns, o, s=o["s"] * u)
    if vc < c - t or vp < p - t:
        raise Violation(f"volatility up by {u}: call {c!r} -> {vc!r}, put {p!r} -> {vp!r} for {o}", "volatility")
    # convex in strike
    K2 = o["K"] * u
    m = price(ns, o, K=w * o["K"] + (1 - w) * K2)
    for x, lo, hi, n in ((m[0], c, kc, "call"), (m[1], p, kp, "put")):
        if x > w * lo + (1 - w) * hi + t:
            raise Violation(f"{n} not convex in strike: {x!r} above {w * lo + (1 - w) * hi!r} for {o}", "convex")
    # symmetry: a call on S with yield q is the put on K with rate q
    dual = ns.measures.blsprice(o["K"], o["S"], o["q"], o["T"], o["s"], o["r"])
    eq(c, float(dual[1]), t, "put-call duality", o)


@st.composite
def array_case(draw):
    n = draw(st.integers(1, 6))
    return {"opts": draw(st.lists(option(), min_size=n, max_size=n)), "arrays": draw(st.lists(st.sampled_from("SKrTsq"), min_size=1, max_size=6, unique=True)),
            "matrix": draw(st.booleans()), "tile": draw(st.one_of(*[st.just(1)] * 5, st.integers(2, 2000)))}


def run_arrays(case, ctx):
    ns, opts, arr = ctx.native, case["opts"], case["arrays"]
    ctx.nt(len(opts) > 1)
    base, opts = len(opts), opts * case.get("tile", 1)
    ctx.label(f"{len(arr)} array arguments")
    rows = [{k: (o[k] if k in arr else opts[0][k]) for k in "SKrTsq"} for o in opts]
    args = {}
    for k in "SKrTsq":
        v = np.array([o[k] for o in rows])
        args[k] = (v[:, None] if case["matrix"] else v) if k in arr else rows[0][k]
    c, p = ns.measures.blsprice(*(args[k] for k in "SKrTsq"))
    for got, j in ((c, 0), (p, 1)):
        got = np.asarray(got)
        if got.shape != ((len(rows), 1) if case["matrix"] else (len(rows),)):
            raise Violation(f"array prices have shape {got.shape}", "array shape")
        one = [price(ns, o)[j] for o in rows[:base]]
        tol = [1e-12 * size(o) for o in rows[:base]]
        got = got.ravel().tolist()
        for i, o in enumerate(rows):
            eq(got[i], one[i % base], tol[i % base], "array element", o)


SCALE = 2  # quick-tier case counts are multiplied by this
FACETS = [Facet("value", option, run_value, "a price above 0.1 % of spot plus strike", 6000, 80000, shards=3, tshards=8),
          Facet("shape", shape_case, run_shape, "a price above 0.1 % of spot plus strike", 4000, 60000, shards=2, tshards=8),
          Facet("arrays", array_case, run_arrays, "at least two options", 1200, 15000, shards=1, tshards=4)]
ASSUMPTIONS = ["the reference integrates the normal density (and, for total volatility below 2, the payoff itself) by composite Gauss-Legendre quadrature",
               "tolerances are relative to discounted spot plus discounted strike, since a price is a difference of the two"]
