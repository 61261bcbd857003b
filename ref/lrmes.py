"""Reference for the long-run MES, written from docs/measures/long_run_mes.md and docs/algorithms."""
import math

import numpy as np

from ref import garch


class Tie(Exception):
    """a market return within rounding of the threshold"""


def path(inv, C, s, rho_T, qbar, a, b, perfect=False):
    """One simulated path.  s: dict with firm/market (mu, omega, alpha, gamma, beta, sigma2, resid).
    Returns (firm return, systemic event).  perfect: the firm moves one for one with (or against) the market."""
    st = {}
    for k in ("i", "m"):
        p = s[k]
        st[k] = dict(v=p["sigma2"], e=p["resid"], z=p["resid"] / math.sqrt(p["sigma2"]), q=1.0, tot=0.0)
    q = rho_T
    for xi, zm in inv:
        for k in ("i", "m"):
            p, x = s[k], st[k]
            x["v"] = p["omega"] + (p["alpha"] + (p["gamma"] if x["e"] < 0 else 0.0)) * x["e"] ** 2 + p["beta"] * x["v"]
            x["q"] = (1 - a - b) + a * x["z"] ** 2 + b * x["q"]
        q = (1 - a - b) * qbar + a * st["i"]["z"] * st["m"]["z"] + b * q
        r = q / math.sqrt(st["i"]["q"] * st["m"]["q"])
        if not (perfect or abs(r) < 1 - 1e-9):  # the residual's coefficient would be rounding noise
            raise Tie
        z = {"m": zm, "i": r * zm + math.sqrt(max(0.0, 1 - r * r)) * xi}
        for k in ("i", "m"):
            st[k]["e"] = math.sqrt(st[k]["v"]) * z[k]
            st[k]["z"] = z[k]
            st[k]["tot"] += s[k]["mu"] + st[k]["e"]
    if max(abs(st["m"]["tot"]), abs(st["i"]["tot"])) > 5e4:
        raise Tie
    mkt = math.expm1(st["m"]["tot"] / 100)
    if abs(mkt - C) <= 1e-9 * (1 + abs(mkt)):
        raise Tie
    if mkt < C:
        return math.expm1(st["i"]["tot"] / 100), True
    return 0.0, False


def estimate(resids_i, sigma2_i, resids_m, sigma2_m, s, a, b, h, S, C, seed, perfect=False):
    """Minus the average firm return over systemic paths, and the number of events.  perfect: see path; "near": it may, up to rounding."""
    zi, zm = resids_i / np.sqrt(sigma2_i), resids_m / np.sqrt(sigma2_m)
    rho = garch.dcc_rho(a, b, zi, zm)
    if perfect == "near":
        xi = (zi - rho * zm) / np.sqrt(np.maximum(1e-16, 1 - rho**2))
    elif perfect:  # nothing of the firm is left once the market is taken out
        if not np.all(1 - np.abs(rho) < 1e-12):
            raise Tie
        xi = np.zeros_like(zi)
    elif not np.max(np.abs(rho)) < 1 - 1e-9:
        raise Tie
    else:
        xi = (zi - rho * zm) / np.sqrt(1 - rho**2)
    s = {"i": dict(s["i"], sigma2=float(sigma2_i[-1]), resid=float(resids_i[-1])),
         "m": dict(s["m"], sigma2=float(sigma2_m[-1]), resid=float(resids_m[-1]))}
    rng = np.random.default_rng(seed)
    tot, n = [], 0
    qbar = garch.corr(zi, zm)
    for _ in range(S):
        idx = rng.choice(len(zi), size=h, replace=True)
        r, ev = path(list(zip(xi[idx].tolist(), zm[idx].tolist())), C, s, float(rho[-1]), qbar, a, b, perfect)
        if ev:
            tot.append(r)
            n += 1
    return (-math.fsum(tot) / n if n else 0.0), n
