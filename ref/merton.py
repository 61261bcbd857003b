"""Scalar transcription of Nagel's Matlab code (ModMertonComputation.m and friends), with loops instead of matrices."""
import math

import numpy as np


def cdf(x):
    return 0.5 * math.erfc(-x / math.sqrt(2))


def bls(S, K, r, T, s, q):
    v = s * math.sqrt(T)
    d1 = (math.log(S / K) + (r - q + s * s / 2) * T) / v
    F, X = S * math.exp(-q * T), K * math.exp(-r * T)
    return F * cdf(d1) - X * cdf(d1 - v), X * cdf(v - d1) - F * cdf(-d1)


class NoYield(Exception):
    pass


def face_value(bookF, ival, sig, T, r, d):
    """Promised yield and face value: the risky loan is worth what was lent."""
    A = math.exp(ival)
    price = lambda mu: (lambda F: F * math.exp(-r * T) - bls(A, F, r, T, sig, d)[1] - bookF)(bookF * math.exp(mu * T))
    lo, hi = r - 1e-12, r + 1
    if price(lo) > 0 or price(hi) < 0:
        raise NoYield
    for _ in range(200):
        m = (lo + hi) / 2
        lo, hi = (m, hi) if price(m) < 0 else (lo, m)
    return (lo + hi) / 2, bookF * math.exp((lo + hi) / 2 * T)


def payoff(F, f, ival, rho, sig, T):
    EA = math.exp(f + ival + 0.5 * (1 - rho) * T * sig**2)
    s = sig * math.sqrt(T) * math.sqrt(1 - rho)
    a = (math.log(F) - f - ival) / s
    return EA * cdf(a - s) + cdf(-a) * F


def smooth(x, w):
    """Moving average of the w neighbours, extended linearly at both ends."""
    n, h = len(x), w // 2
    c = [0.0]
    for v in x:
        c.append(c[-1] + v)
    out = [None] * n
    for m in range(h, n - h):
        out[m] = (c[m + h + 1] - c[m - h + 1]) / w
    dl, ul = out[h + 1] - out[h], out[n - h - 1] - out[n - h - 2]
    for m in range(h):
        out[m] = out[h] - (h - m) * dl
    for m in range(n - h, n):
        out[m] = out[n - h - 1] + (m - (n - h - 1)) * ul
    return out


class Ambiguous(Exception):
    """Sorting depends on rounding noise."""


def ranks(values, strict):
    """Stable order of the values rounded to 9 decimals; raises when noise could change it."""
    v = np.asarray(values)
    frac = np.abs(v * 1e9 - np.floor(v * 1e9) - 0.5)
    if np.any(frac < 1e-5 * np.maximum(1, np.abs(v))):
        raise Ambiguous
    if strict:
        u = np.unique(v)
        gap = np.diff(u)
        if np.any((gap < 2e-9) & (gap > 0)):
            raise Ambiguous
    return np.argsort(np.round(v, 9), kind="stable")


def finish(LH, FH, face, mFt, mu, F, sigf, p):
    r, T, bookF, H, D, y, g, n = p
    dstep = 10
    k = LH.shape[1]
    out = {}
    BH = np.minimum(D, LH * math.exp(-y * H))
    EH = LH - BH
    ex = LH * math.exp(-y * H)
    GH = g * np.maximum(D - ex, 0)
    disc = math.exp(-r * H)
    m = lambda X: np.array([math.fsum(X[:, s]) / X.shape[0] for s in range(k)])
    Lt, Bt, Et, Gt = (m(X) * disc for X in (LH, BH, EH, GH))
    de = (ex <= D).astype(float)
    with np.errstate(all="ignore"):
        sig = lambda X: dstep / 2 * (np.log(X[n:2 * n]) - np.log(X[2 * n:]))
        out["sigEt"], out["sigLt"] = sig(Et), sig(Lt)
    for name, X in (("Lt", Lt), ("Bt", Bt), ("Et", Et), ("Gt", Gt), ("mFt", np.array(mFt)), ("mdef", m(de))):
        out[name] = X[:n]
    for name, X in (("LH", LH), ("BH", BH), ("EH", EH), ("FH", FH), ("default", de), ("face", face)):
        out[name] = X[:, :n]
    out["mu"], out["F"], out["margin"], out["full"] = mu, F, np.abs(ex - D)[:, :n], (Lt, Et)
    return out


def shocks(w, r, d, sig, sigf, T, N, rho):
    n2, k = w.shape
    f, fw = np.zeros((n2, k + 1)), np.zeros((n2, k + 1))
    for p in range(n2):
        for t in range(k):
            step = sigf * math.sqrt(T / N) * w[p, t]
            f[p, t + 1] = f[p, t] + (r - d - 0.5 * sig**2) * (T / N) + step
            fw[p, t + 1] = fw[p, t] - 0.5 * rho * sig**2 * (T / N) + step
    return f, fw


def multi(fs, param, N, w):
    r, T, bookF, H, D, rho, ltv, sig, d, y = param[:10]
    g = param[10] if len(param) > 10 else 0.0
    n2 = w.shape[0]
    ival, sigf = math.log(bookF) - math.log(ltv), math.sqrt(rho) * sig
    HN = int(round(H * N / T))
    n = len(fs)
    n1 = 3 * n
    df = sigf / 10
    f, fw = shocks(w, r, d, sig, sigf, T, N, rho)
    mu, F = face_value(bookF, ival, sig, T, r, d)
    age = list(range(HN, -1, -1)) + list(range(N - 1, HN, -1))  # of the loan alive at t+H, in steps
    LH, FH, face = np.zeros((n2, n1)), np.zeros((n2, n1)), np.zeros((n2, n1))
    mF = np.zeros((n2, n1))
    for j in range(N):
        at = (N - j) / N
        x, lr, sc = np.zeros((n2, n1)), np.zeros((n2, n1)), np.ones((n2, n1))
        for s in range(n1):
            block = s // n
            fsa = fs[s % n] * sigf * math.sqrt(T) * at + (0.0, df, -df)[block]
            for p in range(n2):
                f0w = fw[p, N] - fw[p, j]  # factor shocks between the start of the first loan and t
                f1 = f[p, N + j] - f0w - f[p, j] + fsa
                L1 = payoff(F, f1, ival, rho, sig, T)
                mF[p, s] += math.exp(f[p, N] - f0w - f[p, j] + fsa + ival) * math.exp(0.5 * (1 - rho) * T * at * sig**2) / N
                jensen = math.exp(0.5 * (1 - rho) * T * age[j] / N * sig**2)
                if j >= HN:  # still the first loan at t+H
                    x[p, s] = math.exp(f[p, N + HN] - f0w - f[p, j] + fsa + ival) * jensen
                    lr[p, s] = L1
                    face[p, s] += F * math.exp(-r * (j - HN) * (T / N)) / N
                else:  # rolled over
                    ival2 = math.log(L1 / ltv)
                    F2 = L1 * math.exp(mu * T)
                    L2 = payoff(F2, f[p, 2 * N + j] - f[p, N + j], ival2, rho, sig, T)
                    sc[p, s] = L1 / bookF
                    x[p, s] = math.exp(f[p, N + HN] - f[p, N + j] + ival2) * jensen / sc[p, s]
                    lr[p, s] = L2 / sc[p, s]
                    face[p, s] += F2 * math.exp(-r * (j - HN + N) * (T / N)) / N
        order = ranks(x.flatten(order="F"), False)
        sm = smooth([lr.flatten(order="F")[i] for i in order], n2 * n1 // 20)
        back = np.zeros(n2 * n1)
        back[order] = sm
        lh = back.reshape((n2, n1), order="F") * sc
        LH += lh * math.exp(-r * ((j - HN) if j >= HN else (j - HN + N)) * (T / N)) / N
        FH += x / N
    mFt = [math.fsum(mF[:, s]) / n2 for s in range(n1)]
    return finish(LH, FH, face, mFt, mu, F, sigf, (r, T, bookF, H, D, y, g, n))


def single(fs, param, N, w):
    r, T, bookF, H, D, rho, ltv, sig, d, y = param[:10]
    g = param[10] if len(param) > 10 else 0.0
    n2 = w.shape[0]
    ival, sigf = math.log(bookF) - math.log(ltv), math.sqrt(rho) * sig
    HN = int(round(H * N / T))
    n = len(fs)
    n1 = 3 * n
    df = sigf / 10
    f, _ = shocks(w, r, d, sig, sigf, T, N, rho)
    mu, F = face_value(bookF, ival, sig, T, r, d)
    x, lr = np.zeros((n2, n1)), np.zeros((n2, n1))
    mFt = []
    for s in range(n1):
        fsa = fs[s % n] * sigf * math.sqrt(T) + (0.0, df, -df)[s // n]
        mFt.append(math.exp(fsa + ival))
        for p in range(n2):
            lr[p, s] = payoff(F, f[p, N] + fsa, ival, rho, sig, T)
            x[p, s] = math.exp(f[p, HN] + fsa + ival) * math.exp(0.5 * (1 - rho) * H * sig**2)
    order = ranks(x.flatten(order="F"), True)
    back = np.zeros(n2 * n1)
    back[order] = smooth([lr.flatten(order="F")[i] for i in order], n2 * n1 // 20)
    LH = back.reshape((n2, n1), order="F") * math.exp(-r * (T - H))
    face = np.full((n2, n1), F * math.exp(-r * (T - H)))
    return finish(LH, x, face, mFt, mu, F, sigf, (r, T, bookF, H, D, y, g, n))
