"""M02: constant-correlation fits are feasible, consistent and beat the two-step fit."""
import numpy as np
from hypothesis import strategies as st
from scipy.optimize import minimize

from ref import garch as ref
from vf.core import Facet, Violation
from vf.garchgen import VARIANTS, pair_regime, simulate_pair
from vf.gen import expand_pair, pair

NAMES = ["mu1", "omega1", "alpha1", "beta1", "mu2", "omega2", "alpha2", "beta2", "rho"]


def ref_ll(x, y, q):
    out = []
    for r, p in ((x, q[:4]), (y, q[4:8])):
        e = r - p[0]
        out += [e, ref.variance(p[1:], e, ref.backcast(e), ref.variance_bounds(e), False)]
    return ref.bivariate_ll(*out, q[8]), out


def two_step(ns, x, y):
    ms = [ns.alg.GARCHModel(x.copy()), ns.alg.GARCHModel(y.copy())]
    for m in ms:
        m.fit()
    if not all(m.estimation_success for m in ms):
        return None
    q = []
    for m in ms:
        P = m.parameters
        q += [P.mu, P.omega, P.alpha, P.beta]
    z = [m.resids / np.sqrt(m.sigma2) for m in ms]
    return q + [ref.corr(*z)]


def feasible(q, tol=1e-4):
    if min(q[1], q[5]) < 1e-6 - 1e-15:
        return "omega below 1e-6"
    if min(q[2], q[3], q[6], q[7]) < -1e-9 or max(q[2], q[3], q[6], q[7]) > 1 + 1e-9:
        return "coefficient outside [0, 1]"
    if max(q[2] + q[3], q[6] + q[7]) > 1 + tol:
        return "persistence above one"
    if abs(q[8]) > 0.99 + 1e-9:
        return "correlation outside [-0.99, 0.99]"


def series_of(case):
    return simulate_pair(case["pair"], 0) if "period" in case["pair"] else expand_pair(case["pair"])


def run_fit(case, ctx):
    x, y = series_of(case)
    v = case["variant"]
    m = ctx.variant(v).alg.GARCHModel_CCC(x.copy(), y.copy())
    P = m.fit()
    if not m.estimation_success:
        ctx.label("not converged")
        return
    ctx.nt()
    ctx.label(v)
    q = [getattr(P, n) for n in NAMES]
    why = feasible(q)
    if why:
        raise Violation(f"{v}: {why}: {P}", "feasible")
    want, (e1, s1, e2, s2) = ref_ll(x, y, q)
    scale = float(np.sum(np.abs(np.log(s1)) + np.abs(np.log(s2)) + (e1**2 / s1 + e2**2 / s2) / (1 - q[8] ** 2))) + len(x)
    if not abs(P.loglikelihood - want) <= 1e-8 * scale:
        raise Violation(f"{v}: reported log-likelihood {P.loglikelihood!r}, at the reported parameters {want!r}", "ll")
    if m.parameters != P:
        raise Violation("fit returned other parameters than the model keeps", "parameters")


def run_batch(case, ctx):
    """Fits below the two-step estimate, below their mirror image or below the reference optimum are rare."""
    ns, n = ctx.native, case["n"]
    bad, ok = [], 0
    for k in range(n):
        x, y = simulate_pair(case["pair"], k)
        start = two_step(ns, x, y)
        if start is None or abs(start[8]) > 0.99:
            continue
        m = ns.alg.GARCHModel_CCC(x.copy(), y.copy())
        P = m.fit()
        w = ns.alg.GARCHModel_CCC(y.copy(), x.copy())
        Q = w.fit()
        if not (m.estimation_success and w.estimation_success):
            bad.append((k, "no convergence"))
            continue
        ok += 1
        o = ns.alg.GARCHModel_CCC(x.copy(), y.copy())
        f = lambda q: o.loglikelihood_model(q, 0.0, 0.0, None, None)
        best, where = ref_ll(x, y, start)[0], "two-step estimate"
        if case["k_opt"] and k < case["k_opt"]:
            r = minimize(f, start, method="SLSQP", bounds=[(None, None), (1e-6, None), (0, 1), (0, 1)] * 2 + [(-0.99, 0.99)],
                         constraints=[{"type": "ineq", "fun": lambda q: 1 - q[2] - q[3]}, {"type": "ineq", "fun": lambda q: 1 - q[6] - q[7]}])
            if r.success and not feasible(r.x) and -r.fun > best:
                best, where = -r.fun, "reference optimum"
        if Q.loglikelihood > best and not feasible([getattr(Q, c) for c in NAMES]):
            best, where = Q.loglikelihood, "mirror image"
        if not P.loglikelihood >= best - 0.02:
            bad.append((k, f"{where} has log-likelihood {best:.4f}, the fit {P.loglikelihood:.4f}"))
        elif not abs(P.loglikelihood - Q.loglikelihood) <= 0.02:
            bad.append((k, f"mirrored model has log-likelihood {Q.loglikelihood:.4f} instead of {P.loglikelihood:.4f}"))
        else:
            p = np.array([getattr(P, c) for c in NAMES])
            mirror = np.array([getattr(Q, c) for c in NAMES[4:8] + NAMES[:4] + NAMES[8:]])
            if not -f(mirror) >= P.loglikelihood - 0.02:
                bad.append((k, f"the mirrored parameters {mirror.tolist()} are not those of the mirrored model, {p.tolist()}"))
    ctx.nt(ok >= n // 2)
    ctx.label(f"bad={len(bad)}")
    if len(bad) > case["allow"]:
        raise Violation(f"{len(bad)} of {n} fits of one regime: {bad[:4]}", "optimal")


def D(**kw):
    return st.fixed_dictionaries(kw)


FACETS = [
    Facet("fit", lambda: D(pair=st.one_of(pair_regime(), pair(60, 300)), variant=st.sampled_from(["native", "native", "native", "pure"])),
          run_fit, "the fit reports success", 240, 6000, shards=4, tshards=8, variants=VARIANTS, weight=3),
    Facet("batch", lambda: D(pair=pair_regime(), n=st.just(8), k_opt=st.just(4), allow=st.just(3)), run_batch, "at least half of the batch converged", 40, 1600,
          shards=6, tshards=8, weight=4),
]
ASSUMPTIONS = ["an estimation that does not report success is outside the property (counted)",
               "optimality is judged over batches of 8 data sets of one regime: at most 3 may end more than 0.02 below a known feasible point"]
