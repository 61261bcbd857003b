"""K03: building blocks of the modified Merton model: smoother, loan payoff, promised yield, Merton objective, lookups."""
import numpy as np
from hypothesis import strategies as st
from scipy.special import ndtri

from props.R01 import integral, reference
from vf.core import Discard, Facet, Violation
from vf.gen import SEEDS, fl, length, logfl
from vf.mertongen import NAMES


def close(a, b, tol, what, sig):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        raise Violation(f"{what}: shape {a.shape}, expected {b.shape}", sig)
    bad = ~(np.abs(a - b) <= tol)
    if bad.any():
        i = tuple(np.argwhere(bad)[0])
        raise Violation(f"{what}{list(i)}: {a[i]!r}, expected {b[i]!r}", sig)


# ---- smoother ----
@st.composite
def smooth_case(draw):
    w = 2 * draw(length(1, 20, 300, 8))
    n = w + 2 * draw(length(1, 40, 3000, 6))
    return {"n": n, "w": w, "seed": draw(SEEDS), "kind": draw(st.sampled_from(["noise", "sorted", "heavy", "ints", "step"])), "scale": draw(logfl(1e-4, 1e4)),
            "shift": draw(fl(-10, 10)), "a": draw(fl(-3, 3))}


def smooth_ref(x, w):
    n, h = len(x), w // 2
    inner = np.array([np.mean(x[m - h + 1:m + h + 1]) for m in range(h, n - h)])
    lo = [inner[0] - (h - i) * (inner[1] - inner[0]) for i in range(h)]
    hi = [inner[-1] + (i + 1) * (inner[-1] - inner[-2]) for i in range(h)]
    return np.concatenate((lo, inner, hi))


def signal(c, off=0):
    rng = np.random.RandomState((c["seed"] + off) % 2**32)
    x = {"noise": lambda: rng.standard_normal(c["n"]), "sorted": lambda: np.sort(rng.standard_normal(c["n"])), "heavy": lambda: rng.standard_t(2, c["n"]),
         "ints": lambda: rng.randint(-3, 4, c["n"]).astype(float), "step": lambda: (np.arange(c["n"]) >= rng.randint(c["n"])).astype(float)}[c["kind"]]()
    return c["scale"] * (x + c["shift"])


def run_smooth(case, ctx):
    f, n, w = ctx.native.fft.fftsmooth, case["n"], case["w"]
    x = signal(case)
    keep = x.copy()
    tol = 1e-12 * (np.max(np.abs(x)) + 1e-300) * n * w
    got = f(x, w)
    ctx.nt(np.ptp(x) > 0)
    ctx.label(case["kind"], "smallest inner part" if n == w + 2 else "longer")
    if not np.array_equal(x, keep):
        raise Violation("the smoother changed its input", "input")
    close(got, smooth_ref(x, w), tol, "smoothed", "average")
    z = signal(case, 1)
    tz = 1e-12 * (np.max(np.abs(z)) + np.max(np.abs(x))) * n * w * (1 + abs(case["a"]))
    close(f(x + case["a"] * z, w), got + case["a"] * f(z, w), tz, "linearity", "linear")
    close(f(np.full(n, x[0]), w), np.full(n, x[0]), tol, "a constant", "constant")
    # a straight line stays straight (the even window leads by half a step)
    b = case["a"]
    close(f(x[0] + b * np.arange(n), w), x[0] + b * (np.arange(n) + 0.5), 1e-11 * (abs(x[0]) + abs(b) * n + 1e-300) * n, "a line", "line")


@st.composite
def odd_case(draw):
    return {"n": draw(st.integers(6, 60)), "w": draw(st.integers(1, 5))}


def run_odd(case, ctx):
    n, w = case["n"], case["w"]
    if n % 2 == 0 and w % 2 == 0:
        raise Discard("even")
    ctx.nt()
    try:
        got = ctx.native.fft.fftsmooth(np.arange(float(n)), w)
    except Exception:
        return
    raise Violation(f"{n} observations and a window of {w} are accepted: {got!r}", "odd")


# ---- loan payoff ----
@st.composite
def payoff_case(draw):
    return {"F": draw(logfl(0.05, 20)), "ival": draw(fl(-1, 1)), "rho": draw(fl(0, 0.95)), "sig": draw(fl(0.05, 1.0)), "T": draw(logfl(0.25, 30)),
            "f": draw(st.lists(fl(-4, 4), min_size=1, max_size=5)), "form": draw(st.sampled_from(["scalar", "vector", "matrix F"]))}


def payoff_ref(F, f, ival, rho, sig, T):
    s = sig * np.sqrt(T) * np.sqrt(1 - rho)
    m = f + ival
    k = (np.log(F) - m) / s
    phi = lambda z: np.exp(-z * z / 2) / np.sqrt(2 * np.pi)
    # E[exp(m+sZ) 1(Z<k)] is exp(m+s^2/2) times a shifted normal mass
    lo, hi = -40.0, min(k - s, 40.0)
    a = np.exp(m + s * s / 2) * (integral(phi, lo, hi) if hi > lo else 0.0)
    b = F * (integral(phi, max(k, -40.0), 40.0) if k < 40 else 0.0)
    return a + b


def run_payoff(case, ctx):
    g = ctx.native.payoff.loan_payoff
    p = (case["ival"], case["rho"], case["sig"], case["T"])
    F = case["F"]
    want = np.array([payoff_ref(F, f, *p) for f in case["f"]])
    s = case["sig"] * np.sqrt(case["T"] * (1 - case["rho"]))
    mean = np.exp(np.array(case["f"]) + case["ival"] + s * s / 2)
    ctx.nt(np.any((want < 0.99 * F) & (want < 0.99 * mean)))
    ctx.label(case["form"])
    if case["form"] == "scalar":
        got = np.array([float(g(F, f, *p)) for f in case["f"]])
    elif case["form"] == "vector":
        got = g(F, np.array(case["f"]), *p)
    else:
        f2 = np.array([case["f"], case["f"]])
        got = np.asarray(g(np.array([[F] * len(case["f"]), [2 * F] * len(case["f"])]), f2, *p))
        close(got[1], [payoff_ref(2 * F, f, *p) for f in case["f"]], 1e-11 * (2 * F + mean), "payoff of the second row", "payoff")
        got = got[0]
    close(got, want, 1e-11 * (F + mean), "payoff", "payoff")
    if not (np.all(got >= -1e-12 * F) and np.all(got <= np.minimum(F, mean) + 1e-11 * (F + mean))):
        raise Violation(f"payoff {got} is above the face value {F} or the expected asset value {mean}", "bounds")


# ---- promised yield ----
@st.composite
def yield_case(draw):
    return {"mu": draw(fl(-0.05, 0.3)), "lev": draw(fl(0.2, 1.5)), "ival": draw(fl(-1, 1)), "sig": draw(fl(0.05, 0.6)), "T": draw(logfl(0.5, 20)), "r": draw(fl(-0.02, 0.1)),
            "d": draw(fl(0, 0.04))}


def run_yield(case, ctx):
    f = ctx.native.face.find_face_value_indiv
    A = np.exp(case["ival"])
    T, r, d, sig = case["T"], case["r"], case["d"], case["sig"]
    F = A * case["lev"]
    put = reference(dict(S=A, K=F, r=r, T=T, s=sig, q=d))[1]
    L = F * np.exp(-r * T) - put
    if L <= 1e-6 * F:
        raise Discard("a loan worth nothing has no yield")
    y = np.log(F / L) / T
    tol = 1e-10 * (1 + 1 / T) * F / L
    ctx.nt(put > 1e-4 * F)
    close(float(f(case["mu"], F, case["ival"], sig, T, r, d)), case["mu"] - y, tol, "yield error", "yield")
    close(float(f(y, F, case["ival"], sig, T, r, d)), 0.0, tol, "error at the implied yield", "root")


# ---- the objective of the standard Merton model ----
@st.composite
def objective_case(draw):
    return {"A": draw(logfl(0.1, 10)), "lev": draw(fl(0.2, 1.6)), "sig": draw(fl(0.02, 1.0)), "r": draw(fl(-0.02, 0.1)), "d": draw(st.one_of(st.just(0.0), fl(0, 0.05))),
            "T": draw(logfl(0.25, 20)), "E": draw(logfl(0.01, 10)), "sigE": draw(fl(0, 3)), "neg": draw(st.sampled_from(["none", "none", "sig", "A", "both"])),
            "form": draw(st.sampled_from(["tuple", "list", "array"]))}


def run_objective(case, ctx):
    A, s, r, d, T, E, vE = (case[k] for k in ("A", "sig", "r", "d", "T", "E", "sigE"))
    D = A * case["lev"]
    o = dict(S=A, K=D, r=r, T=T, s=s, q=d)
    v = s * np.sqrt(T)
    k = (np.log(D / A) - (r - d - s * s / 2) * T) / v
    phi = lambda z: np.exp(-z * z / 2) / np.sqrt(2 * np.pi)
    nd1 = integral(phi, max(k - v, -40.0), 40.0) if k - v < 40 else 0.0
    paid = 1 - np.exp(-d * T)
    call = reference(o)[0] + A * paid
    elast = (np.exp(-d * T) * nd1 + paid) * A * s
    t = 1e-11 * (A + D * np.exp(-r * T))
    g = ctx.native.merton.merton_solution

    def f(x, E, vE):
        y = {"tuple": tuple, "list": list, "array": np.array}[case["form"]](x)
        e = g(y, E, D, r, d, T, vE)
        if len(e) != 2 or list(y) != list(x):
            raise Violation(f"the objective returns {e!r}, its argument is now {y!r}", "shape")
        return np.array([float(e[0]), float(e[1])])
    ctx.label(case["neg"])
    ctx.nt(call > 1e-3 * A)
    close(f((A, s), E, vE), [E - call, vE - elast / E], [t + 1e-15 * E, 1e-11 * (1 + A / E) * (1 + s) + 1e-14 * vE], "errors ", "objective")
    if call > 1e-6 * A:
        close(f((A, s), call, elast / call), [0, 0], [t, 1e-10 * A / call * (1 + A / call) * (1 + s) * (1 + np.exp(-r * T) * case["lev"])], "errors at the solution ", "root")
    if case["neg"] == "none":
        return
    x = (-A if case["neg"] in ("A", "both") else A, -s if case["neg"] in ("sig", "both") else s)
    e = f(x, E, vE)
    pen = 9999999 * (s * s * (x[1] < 0) + A * A * (x[0] < 0))
    # the value without penalty: a riskless or worthless firm
    A0, s0 = max(x[0], 0.0), max(x[1], 0.0)
    if A0 == 0:
        c0, v0 = 0.0, 0.0
    else:
        fwd = A0 * np.exp(-d * T) - D * np.exp(-r * T)
        if abs(fwd) < 1e-9 * A0:
            raise Discard("exactly at the money without risk")
        c0, v0 = max(fwd, 0.0) + A0 * paid, 0.0
    close(e, [E - c0 + pen, vE - v0 + pen], 1e-9 * (A + E + vE + D) + 1e-12 * pen, "errors for a negative trial ", "penalty")


# ---- lookup tables ----
@st.composite
def lookup_case(draw):
    N = draw(st.integers(2, 4))
    uniq = lambda lo, hi, m: st.lists(fl(lo, hi), min_size=1, max_size=m, unique=True)
    return {"which": draw(st.sampled_from(["multi", "single"])), "N": N, "H": draw(st.integers(1, N - 1)), "n2": 40 * draw(st.integers(1, 2)), "fs": draw(uniq(-1, 1, 3)),
            "sig": draw(uniq(0.05, 0.5, 2)), "step": draw(st.sampled_from([1.0, 1.0, 0.5, 0.1, 0.3, 2.5, 1 / 12])), "r": draw(uniq(-0.02, 0.08, 2)), "F": draw(uniq(0.5, 1.5, 3)), "d": draw(fl(0, 0.01)), "y": draw(fl(0, 0.01)),
            "D": draw(fl(0.4, 0.9)), "rho": draw(fl(0.05, 0.95)), "ltv": draw(fl(0.4, 0.9)), "order": draw(st.sampled_from(["C", "F"]))}


def run_lookup(case, ctx):
    T, N = case["N"] * case["step"], case["N"]
    H = case["H"] * case["step"]
    fs, sig, r, F = (np.array(case[k]) for k in ("fs", "sig", "r", "F"))
    grids = [np.array(g, order=case["order"]) for g in np.meshgrid(fs, sig, r, F, indexing="ij")]
    xfs, xsig, xr, xF = grids
    keep = [g.copy() for g in grids]
    ns = ctx.native
    multi = case["which"] == "multi"
    make = ns.lookup.mod_merton_create_lookup if multi else ns.lookup1.mod_single_merton_create_lookup
    comp = ns.mm.mod_merton_computation if multi else ns.mm1.mod_single_cohort_computation
    got = make(case["d"], case["y"], T, H, case["D"], case["rho"], case["ltv"], xfs, xr, xF, xsig, N, case["n2"])
    if any(not np.array_equal(a, b) for a, b in zip(grids, keep)):
        raise Violation("the lookup changed its grids", "grids")
    if len(got) != 6 or any(np.shape(g) != xfs.shape for g in got):
        raise Violation(f"tables of shapes {[np.shape(g) for g in got]} for a grid of {xfs.shape}", "shape")
    ctx.nt(sum(n > 1 for n in xfs.shape) >= 3)
    ctx.label(case["which"])
    w = ndtri(np.random.RandomState(1).rand(3 * N, case["n2"])).T
    for j in range(len(sig)):
        for k in range(len(r)):
            for q in range(len(F)):
                p = [r[k], T, F[q], H, case["D"] * np.exp(r[k] * H), case["rho"], case["ltv"], sig[j], case["d"], case["y"]]
                o = dict(zip(NAMES, comp(fs.copy(), p, N, case["n2"], w.copy())))
                for g, n in zip(got, ("Lt", "Bt", "Et", "mFt", "mdef", "sigEt")):
                    a, b = np.asarray(g[:, j, k, q], float), np.asarray(o[n], float)
                    if not np.all((np.abs(a - b) <= 1e-9 * (1 + np.abs(b))) | (np.isnan(a) & np.isnan(b)) | (a == b)):
                        raise Violation(f"table {n} at volatility {sig[j]}, rate {r[k]}, loan {F[q]}: {a}, directly {b}", f"lookup {n}")


SCALE = 2  # quick-tier case counts are multiplied by this
FACETS = [Facet("smooth", smooth_case, run_smooth, "the signal is not constant", 4000, 60000, shards=1, tshards=3),
          Facet("odd", odd_case, run_odd, "an odd number of observations or window", 300, 1000, shards=1, tshards=1),
          Facet("payoff", payoff_case, run_payoff, "the payoff is below 99 % of both face value and expected asset value", 6000, 80000, shards=2, tshards=4),
          Facet("yield", yield_case, run_yield, "default is worth more than 0.01 % of face value", 6000, 60000, shards=1, tshards=4),
          Facet("objective", objective_case, run_objective, "equity above 0.1 % of assets", 6000, 80000, shards=2, tshards=4),
          Facet("lookup", lookup_case, run_lookup, "at least three of the four grid dimensions have two or more points", 160, 3000, shards=3, tshards=8)]
ASSUMPTIONS = ["option values in the oracles come from Gauss-Legendre quadrature of the normal density, not from the code's pricer",
               "windows leave at least two smoothed points between the extrapolated edges; grids of lookups are products, as the simulation builds them"]
