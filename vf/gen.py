"""Shared generators.  Every random choice is drawn by Hypothesis: long series are
described by a drawn recipe (kind, length, scale, seed) that expands deterministically."""
import numpy as np
from hypothesis import strategies as st


def fl(lo, hi, **kw):
    return st.floats(lo, hi, allow_nan=False, allow_infinity=False, allow_subnormal=False, **kw)


def logfl(lo, hi):
    """log-uniform float"""
    a, b = np.log10(lo), np.log10(hi)
    return fl(a, b).map(lambda e: float(10.0**e))


SEEDS = st.integers(0, 2**31 - 1)

KINDS = ("normal", "garch", "gjr", "student", "jump", "zeros", "negative", "positive", "drift", "regime", "steps")


def val(lo, hi):
    """A number of that range, zero instead of absurdly small ones (squares must not underflow)."""
    return fl(lo, hi).map(lambda v: 0.0 if abs(v) < 1e-6 else v)


@st.composite
def series(draw, min_len=2, max_len=300, kinds=KINDS, scales=(0.01, 30.0), explicit=True, max_explicit=14):
    """A recipe of a return series (percentage-like)."""
    if explicit and min_len <= max_explicit and draw(st.integers(0, 3)) == 0:
        vals = draw(st.lists(val(-25, 25), min_size=max(min_len, 2), max_size=max_explicit))
        return {"kind": "explicit", "values": vals}
    return {
        "kind": draw(st.sampled_from(kinds)),
        "T": draw(st.integers(min_len, max_len)),
        "scale": draw(logfl(*scales)),
        "loc": draw(st.sampled_from([0.0, 0.0, 0.1, -0.2, 1.0])),
        "seed": draw(SEEDS),
    }


def expand(s):
    """Recipe -> float64 array."""
    if s["kind"] == "explicit":
        return np.array(s["values"], dtype=float)
    r = np.random.RandomState(s["seed"] % (2**32))
    T, k = s["T"], s["kind"]
    e = r.standard_normal(T)
    if k == "normal":
        x = e
    elif k in ("garch", "gjr"):
        w, a, b = 0.05, r.uniform(0.03, 0.2), r.uniform(0.5, 0.78)
        g = r.uniform(0.05, 0.3) if k == "gjr" else 0.0
        x, v = np.empty(T), w / (1 - a - b - g / 2 if a + b + g / 2 < 0.99 else 0.02)
        for t in range(T):
            x[t] = np.sqrt(v) * e[t]
            v = w + a * x[t] ** 2 + b * v + (g * x[t] ** 2 if x[t] < 0 else 0)
    elif k == "student":
        x = r.standard_t(3, T)
    elif k == "jump":
        x = e * 0.3
        x[r.randint(0, T, max(1, T // 40))] *= 30
    elif k == "zeros":
        x = np.where(r.rand(T) < 0.5, 0.0, e)
    elif k == "negative":
        x = -np.abs(e)
    elif k == "positive":
        x = np.abs(e)
    elif k == "drift":
        x = e * 0.5 + np.linspace(-1, 1, T)
    elif k == "regime":
        x = e * np.where(np.arange(T) < T // 2, 0.2, 3.0)
    elif k == "steps":
        x = np.round(e * 2) / 2
    else:
        raise ValueError(k)
    return x * s["scale"] + s["loc"] * s["scale"]


FIT_KINDS = ("garch", "gjr", "garch", "gjr", "student", "regime", "normal")


def fit_series(min_len=150, max_len=500):
    """Recipes of series a maximum-likelihood fit is meant for: percentage returns."""
    return series(min_len, max_len, kinds=FIT_KINDS, scales=(0.5, 3.0), explicit=False)


@st.composite
def pair(draw, min_len=150, max_len=500, base=None):
    """Two correlated series described by two recipes of equal length and a loading."""
    a = draw(base or fit_series(min_len, max_len))
    b = draw(base or fit_series(min_len, max_len))
    b = dict(b, T=a["T"])
    return {"a": a, "b": b, "load": draw(fl(-0.9, 0.9))}


def expand_pair(p):
    a, b = expand(p["a"]), expand(p["b"])
    n = min(len(a), len(b))
    a, b = a[:n], b[:n]
    w = p["load"]
    return a, np.sqrt(1 - w * w) * b + w * a / (a.std() + 1e-12) * b.std()


def close(a, b, rtol=1e-8, atol=1e-12):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True)


def maxrel(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return f"shapes {a.shape} vs {b.shape}"
    with np.errstate(all="ignore"):
        d = np.abs(a - b) / np.maximum(np.abs(b), 1e-300)
    i = int(np.nanargmax(d)) if d.size and not np.all(np.isnan(d)) else 0
    return f"largest relative difference {np.nanmax(d) if d.size else 0:.3g} at {i}: got {a.ravel()[i] if a.size else None!r}, expected {b.ravel()[i] if b.size else None!r}"


@st.composite
def length(draw, lo, hi, big, every=16):
    """A length: usually lo to hi, one time in `every` up to `big`."""
    return draw(st.integers(hi, big)) if draw(st.integers(0, every - 1)) == every - 1 else draw(st.integers(lo, hi))
