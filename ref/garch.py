"""Independent references for the univariate and bivariate GARCH family,
written from the documentation (docs/algorithms/*) in plain scalar Python."""
import math

import numpy as np

LOG2PI = math.log(2 * math.pi)


def backcast(resids):
    n = min(75, len(resids))
    w = [0.94**k for k in range(n)]
    s = math.fsum(w)
    return math.fsum(wk * float(r) ** 2 for wk, r in zip(w, resids)) / s


def ewma(resids, init, lam=0.94):
    out = [float(init)]
    for r in list(resids)[:-1]:
        out.append(lam * out[-1] + (1 - lam) * float(r) ** 2)
    return np.array(out[: len(resids)])


def variance_bounds(resids):
    resids = np.asarray(resids, float)
    vb = ewma(resids, backcast(resids))
    mean = math.fsum(resids) / len(resids)
    var = math.fsum((r - mean) ** 2 for r in resids) / len(resids)
    lo = var / 1e8
    hi = 1e7 * (1 + max(float(r) ** 2 for r in resids))
    vb = np.minimum(np.maximum(vb, lo), hi)
    return np.array([[v / 1e6, v * 1e6] for v in vb])


def bound(s, lo, hi):
    if s < lo:
        s = lo
    if s > hi:
        s = hi + 1000 if math.isinf(s) else hi + math.log(s / hi)
    return s


def variance(params, resids, bc, bounds, gjr):
    """params: omega, alpha, (gamma,) beta"""
    if gjr:
        om, al, ga, be = params
    else:
        (om, al, be), ga = params, 0.0
    n = len(resids)
    out = np.empty(n)
    out[0] = om + (al + ga / 2 + be) * bc
    for t in range(1, n):
        e2 = float(resids[t - 1]) ** 2
        s = om + al * e2 + be * out[t - 1] + (ga * e2 if resids[t - 1] < 0 else 0.0)
        out[t] = bound(s, bounds[t][0], bounds[t][1])
    return out


def normal_ll(resids, sigma2):
    return math.fsum(-0.5 * (LOG2PI + math.log(s) + float(e) ** 2 / s) for e, s in zip(resids, sigma2))


def model_ll(params, returns, bc, bounds, gjr, zero_mean):
    """log-likelihood (not negated) of a constant-mean or zero-mean model"""
    if zero_mean:
        e, vp = np.asarray(returns, float), params
    else:
        e, vp = np.asarray(returns, float) - params[0], params[1:]
    return normal_ll(e, variance(vp, e, bc, bounds, gjr))


def grid(var, gjr):
    al = [0.01, 0.05, 0.1, 0.2]
    out = []
    for a in al:
        for g in al if gjr else [None]:
            for p in [0.5, 0.7, 0.9, 0.98]:
                if gjr:
                    out.append([var * (1 - p), a, g, p - a - g / 2])
                else:
                    out.append([var * (1 - p), a, p - a])
    return out


def bivariate_ll(e1, s1, e2, s2, rho):
    """sum of log densities of N(0, [[s1, c],[c, s2]]) with c = rho sqrt(s1 s2)"""
    rho = np.broadcast_to(np.asarray(rho, float), np.shape(e1))
    tot = []
    for x, u, y, v, r in zip(e1, s1, e2, s2, rho):
        c = r * math.sqrt(u) * math.sqrt(v)
        det = u * v * (1 - r * r)
        quad = (v * x * x - 2 * c * x * y + u * y * y) / det
        tot.append(-LOG2PI - 0.5 * math.log(det) - 0.5 * quad)
    return math.fsum(tot)


def corr(x, y):
    x, y = np.asarray(x, float), np.asarray(y, float)
    mx, my = math.fsum(x) / len(x), math.fsum(y) / len(y)
    sxy = math.fsum((x - mx) * (y - my))
    return sxy / math.sqrt(math.fsum((x - mx) ** 2) * math.fsum((y - my) ** 2))


def dcc_rho(a, b, z1, z2):
    r = corr(z1, z2)
    q11, q22, q12 = 1.0, 1.0, r
    out = [r]
    for x, y in zip(z1[:-1], z2[:-1]):
        q11 = (1 - a - b) + a * x * x + b * q11
        q22 = (1 - a - b) + a * y * y + b * q22
        q12 = (1 - a - b) * r + a * x * y + b * q12
        out.append(q12 / math.sqrt(q11 * q22))
    return np.array(out)
