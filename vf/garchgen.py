"""Generators and adapters shared by the GARCH-family checks."""
import numpy as np
from hypothesis import strategies as st

from ref import garch as ref
from vf.core import Discard, Violation
from vf.gen import SEEDS, close, expand, fl, logfl, maxrel, series, val

VARIANTS = ("native", "pure")


def is_gjr(kind):
    return kind == "gjr"


def model_cls(ns, kind):
    return ns.alg.GJRGARCHModel if is_gjr(kind) else ns.alg.GARCHModel


coef = st.one_of(fl(0, 1), fl(0, 0.3), st.sampled_from([0.0, 1e-6, 0.05, 0.1, 0.5, 0.9, 1.0]))


# decay factors; near zero, prev + (1 - lam) * (r2 - prev) has no correct digits left
LAM = st.one_of(fl(0.001, 1), fl(0.9, 1), st.just(0.94))


@st.composite
def var_params(draw, kind, scale=1.0):
    """omega, alpha, (gamma,) beta: mostly stationary, sometimes explosive, sometimes zero."""
    om = draw(st.one_of(logfl(1e-8, 10.0), st.just(1e-6), st.just(0.0))) * scale**2
    mode = draw(st.sampled_from(["stationary", "stationary", "free", "explosive"]))
    if mode == "stationary":
        p = draw(st.one_of(fl(0, 1), st.sampled_from([0.5, 0.9, 0.98, 1.0])))
        al = draw(fl(0, 1)) * p
        ga = draw(fl(0, 1)) * 2 * (p - al) if kind == "gjr" else 0.0
        be = max(0.0, p - al - ga / 2)
    elif mode == "free":
        al, ga, be = draw(coef), draw(coef), draw(coef)
    else:
        al, ga, be = draw(fl(0, 50)), draw(fl(0, 50)), draw(fl(1, 50))
    return [om, al, ga, be] if kind == "gjr" else [om, al, be]


@st.composite
def late_series(draw):
    """Long quiet (or dead) stretches, then a burst: makes the global lower bound bind."""
    return {"kind": "late", "quiet": draw(st.integers(0, 700)), "burst": draw(st.integers(1, 30)),
            "tail": draw(st.integers(0, 400)), "amp": draw(logfl(0.1, 1e4)),
            "noise": draw(st.sampled_from([0.0, 1e-9, 1e-4])), "seed": draw(SEEDS)}


def any_series(min_len=1, max_len=250):
    return st.one_of(
        series(max(min_len, 2), max_len, scales=(1e-4, 100.0)),
        st.lists(val(-50, 50), min_size=max(1, min_len), max_size=9).map(lambda v: {"kind": "explicit", "values": v}),
        late_series(),
    )


@st.composite
def long_series(draw, lo=400, hi=20000):
    """Years of days, or days of minutes."""
    return {"kind": draw(st.sampled_from(["normal", "garch", "gjr", "student", "jump", "zeros", "drift", "regime", "steps"])), "T": draw(logfl(lo, hi).map(int)),
            "scale": draw(logfl(1e-3, 30.0)), "loc": draw(st.sampled_from([0.0, 0.1, -0.2])), "seed": draw(SEEDS)}


def ex(s):
    if s["kind"] == "late":
        r = np.random.RandomState(s["seed"])
        x = r.standard_normal(s["quiet"] + s["burst"] + s["tail"]) * s["noise"]
        x[s["quiet"]:s["quiet"] + s["burst"]] = r.standard_normal(s["burst"]) * s["amp"]
        return x
    return expand(s)


@st.composite
def bounds_spec(draw):
    """How the variance bounds of a case are made."""
    return draw(st.one_of(
        st.just({"how": "model"}),
        st.fixed_dictionaries({"how": st.just("around"), "lo": fl(0.05, 1.2), "width": fl(0.0, 4.0), "seed": SEEDS}),
        st.fixed_dictionaries({"how": st.just("list"), "lo": logfl(1e-6, 50), "ratio": st.one_of(fl(1, 5), logfl(1, 1e8))}),
    ))


def make_bounds(spec, resids):
    n = len(resids)
    if not np.any(resids):
        raise Discard("a series of zeros has no positive upper bound")
    if spec["how"] == "model":
        return ref.variance_bounds(resids)
    if spec["how"] == "list":
        return np.tile([spec["lo"], spec["lo"] * spec["ratio"]], (n, 1))
    r = np.random.RandomState(spec["seed"])
    base = ref.backcast(resids) + 1e-8
    lo = base * spec["lo"] * r.uniform(0.3, 1.7, n)
    return np.column_stack([lo, lo * (1 + spec["width"] * r.rand(n))])


def expect(got, want, what, rtol=1e-9, atol=0.0):
    got = np.asarray(got, float)
    if not close(got, want, rtol=rtol, atol=atol):
        raise Violation(f"{what}: {maxrel(got, want)}", sig=what)


@st.composite
def regime(draw, min_len=120, max_len=450):
    """A data-generating process for a batch of fits: GJR-GARCH with drawn true parameters."""
    p = draw(st.one_of(fl(0.2, 0.99), st.sampled_from([0.3, 0.9, 0.97])))
    return {"p": p, "al": draw(fl(0.0, 1.0)), "ga": draw(st.one_of(fl(0.0, 1.0), st.just(0.0))), "scale": draw(logfl(0.5, 3.0)),
            "mu": draw(fl(-0.3, 0.3)), "T": draw(st.integers(min_len, max_len)), "mirror": draw(st.booleans()), "seed": draw(SEEDS)}


def regime_params(g):
    """omega, alpha, gamma, beta of the regime"""
    al = g["al"] * 0.8 * g["p"]
    ga = g["ga"] * (g["p"] - al)
    return g["scale"] ** 2 * (1 - g["p"]), al, ga, g["p"] - al - ga / 2


def simulate(g, k):
    """The k-th return series of a regime."""
    r = np.random.RandomState((g["seed"] + 7919 * k) % 2**32)
    om, al, ga, be = regime_params(g)
    x, v = np.empty(g["T"]), g["scale"] ** 2
    z = r.standard_normal(g["T"])
    for t in range(g["T"]):
        x[t] = np.sqrt(v) * z[t]
        v = om + (al + (ga if x[t] < 0 else 0.0)) * x[t] ** 2 + be * v
    return (-x if g["mirror"] else x) + g["mu"] * g["scale"]


BOUNDS = {"garch": [(-np.inf, np.inf), (1e-6, np.inf), (0.0, 1.0), (0.0, 1.0)],
          "gjr": [(-np.inf, np.inf), (1e-6, np.inf), (0.0, 1.0), (0.0, 1.0), (0.0, 1.0)]}


def persistence(kind, q):
    return q[-3] + q[-2] / 2 + q[-1] if kind == "gjr" else q[-2] + q[-1]


def param_list(kind, P, zero_mean):
    names = ["mu", "omega", "alpha", "gamma", "beta"] if kind == "gjr" else ["mu", "omega", "alpha", "beta"]
    return [getattr(P, n) for n in names][1 if zero_mean else 0:]


def slack_moves(kind, q, zero_mean):
    """Small feasible changes of one parameter of q."""
    bnds = BOUNDS[kind][1 if zero_mean else 0:]
    for i, (lo, hi) in enumerate(bnds):
        for h in (1e-3, -1e-3, 1e-2, -1e-2, 0.05, -0.05):
            c = list(q)
            c[i] = min(max(c[i] + h * max(abs(c[i]), 0.1), lo), hi)
            if persistence(kind, c) <= 1:
                yield c


@st.composite
def pair_regime(draw, min_len=100, max_len=350):
    """Two GJR-GARCH processes of equal length with a constant or moving correlation."""
    T = draw(st.integers(min_len, max_len))
    return {"a": dict(draw(regime()), T=T), "b": dict(draw(regime()), T=T), "load": draw(st.one_of(fl(-0.9, 0.9), st.sampled_from([-0.97, 0.97, -0.93]))),
            "move": draw(st.one_of(st.just(0.0), fl(0, 0.9))), "period": draw(st.integers(20, 200))}


def simulate_pair(g, k):
    x, y = simulate(g["a"], 2 * k), simulate(g["b"], 2 * k + 1)
    w = np.clip(g["load"] + g["move"] * np.sin(2 * np.pi * np.arange(len(x)) / g["period"]), -0.97, 0.97)
    return x, np.sqrt(1 - w * w) * y + w * x / x.std() * y.std()
