"""Generators and comparisons for the modified Merton model."""
import numpy as np
from hypothesis import strategies as st

from vf.core import Violation
from vf.gen import SEEDS, fl, length, logfl

NAMES = ("Lt", "Bt", "Et", "LH", "BH", "EH", "sigEt", "mFt", "default", "mdef", "face", "FH", "Gt", "mu", "F", "sigLt")


@st.composite
def model(draw, max_n2=80, max_fs=3, rolled=False):
    """A bank: horizon in whole steps, a loan-to-value the yield equation can serve, shocks by recipe."""
    N = draw(length(2, 6, 12))
    HN = draw(st.integers(1, N - 1 if rolled else N))
    T = draw(st.one_of(st.sampled_from([float(N), 5.0, 10.0, 2.0]), st.sampled_from([N, N / 2, N / 4, N / 12, 1.0, 7.0, 10, 25.0, 30.0])))
    nfs = draw(st.integers(1, max_fs))
    n2 = 40 * draw(length(1, max(1, max_n2 // 40), 25, 24))
    bookF = draw(logfl(0.2, 5.0))
    return {"N": N, "HN": HN, "T": T, "nfs": nfs, "n2": n2, "bookF": bookF, "r": draw(st.one_of(fl(0, 0.06), st.just(0.01), fl(-0.03, 0.12))), "lev": draw(st.one_of(fl(0.6, 1.0), fl(0.3, 1.3), fl(0.9, 1.05))),
            "rho": draw(st.one_of(fl(0.1, 0.95), fl(0.01, 0.99))), "ltv": draw(st.one_of(fl(0.4, 0.8), fl(0.2, 0.98))), "sig": draw(st.one_of(fl(0.08, 0.35), logfl(0.02, 0.6))),
            "d": draw(st.one_of(fl(0, 0.02), st.sampled_from([0.005, 0.0]), fl(0, 0.05))),
            "y": draw(st.one_of(fl(0, 0.02), st.just(0.002))), "g": draw(st.one_of(st.none(), fl(0, 1))), "fs": draw(st.lists(fl(-1.5, 1.5), min_size=nfs, max_size=nfs)),
            "seed": draw(SEEDS), "column": draw(st.booleans())}


def unpack(c):
    """fs, parameter list, N, number of paths"""
    H = c["HN"] * c["T"] / c["N"]  # a whole number of steps, but for rounding
    p = [c["r"], c["T"], c["bookF"], H, c["bookF"] * c["lev"] * np.exp(c["r"] * H), c["rho"], c["ltv"], c["sig"], c["d"], c["y"]]
    if c["g"] is not None:
        p.append(c["g"])
    return np.array(c["fs"], float), p, c["N"], c["n2"]


def draw_w(seed, n2, cols):
    return np.random.RandomState(seed).standard_normal((n2, cols))


def compare(got, want, D, what, label):
    o = dict(zip(NAMES, got))
    if len(got) != len(NAMES):
        raise Violation(f"{what} returns {len(got)} outputs", "outputs")

    def eq(name, tol, mask=None):
        a, b = np.asarray(o[name], float), np.asarray(want[name], float)
        if a.shape != b.shape:
            raise Violation(f"{what} {name} has shape {a.shape}, expected {b.shape}", f"{name} shape")
        bad = ~((np.abs(a - b) <= tol) | (np.isnan(a) & np.isnan(b)) | (a == b))
        if mask is not None:
            bad &= mask
        if bad.any():
            i = tuple(np.argwhere(bad)[0])
            raise Violation(f"{what} {name}{list(i)}: {a[i]!r}, the Matlab algorithm gives {b[i]!r}", name)
    scale = float(np.max(np.abs(want["LH"]))) + D
    t = 2e-7 * scale
    eq("mu", 1e-7)
    eq("F", 1e-6 * want["F"])
    for n in ("Lt", "Bt", "Et", "Gt", "LH", "BH", "EH"):
        eq(n, t)
    eq("face", t + 1e-6 * want["F"])
    eq("FH", 1e-9 * float(np.max(want["FH"])))
    eq("mFt", 1e-9 * float(np.max(want["mFt"])))
    clear = want["margin"] > 4 * t
    eq("default", 0.0, clear)
    eq("mdef", (~clear).sum() / clear.shape[0] + 1e-12)
    Lt, Et = want["full"]
    n = len(want["Lt"])
    for name, X in (("sigLt", Lt), ("sigEt", Et)):
        with np.errstate(all="ignore"):
            lo = np.minimum(X[n:2 * n], X[2 * n:])
            ok = lo > 1e-4 * scale
        if ok.any():
            label(name)
            eq(name, np.where(ok, 10 * t / np.where(ok, lo, 1), np.inf))
    return o


def accounting(o, p, what):
    """Identities the outputs satisfy whatever the shocks."""
    r, T, bookF, H, D, rho, ltv, sig, d, y = p[:10]
    g = p[10] if len(p) > 10 else 0.0
    s = float(np.max(np.abs(o["LH"]))) + D
    e = 1e-12 * s

    def need(ok, msg):
        if not np.all(ok):
            raise Violation(f"{what}: {msg}", "accounting")
    need(np.abs(o["LH"] - o["BH"] - o["EH"]) <= e, "bank assets are not debt plus equity on every path")
    need(np.abs(o["Lt"] - o["Bt"] - o["Et"]) <= e, "bank value is not debt plus equity")
    need(o["BH"] <= D + e, "debt is paid more than its face value")
    need((o["default"] == 0) | (o["default"] == 1), "default indicator is neither zero nor one")
    ex = o["LH"] * np.exp(-y * H) - o["BH"]
    need((o["default"] == 1) == (ex <= 0), "default is not where equity after payout is not positive")
    need(np.abs(np.mean(o["default"], axis=0) - o["mdef"]) <= 1e-12, "default probability is not the mean of the indicator")
    q = np.exp(-r * H)
    for a, b in (("LH", "Lt"), ("BH", "Bt"), ("EH", "Et")):
        need(np.abs(np.mean(o[a], axis=0) * q - o[b]) <= e, f"{b} is not the discounted mean of {a}")
    G = g * np.maximum(D - o["LH"] * np.exp(-y * H), 0)
    need(np.abs(np.mean(G, axis=0) * q - o["Gt"]) <= e, "the guarantee is not its share of the shortfall")
