"""Exact moments of the path length of a row in a random isolation tree, and frame generators."""
import itertools
import math
from functools import lru_cache

import numpy as np
from scipy.special import gammaln

GAMMA = 0.57721566490153286
MISSING = (0, 0.0)


def c(n):
    """Average path length of an unsuccessful search among n rows, as documented."""
    if n == 1:
        return 0.0
    return 2 * (math.log(n - 1) + GAMMA) - 2 * (n - 1) / n


def key(v):
    """Order of the values of a column: missing first, text by length then bytes."""
    if isinstance(v, str):
        b = v.encode()
        return (len(b), b)
    if v is None or v != v:
        return MISSING
    return (1, v)


def moments(columns, row, tree_size, height=None):
    """Exact mean and variance of the path length of `row`.  columns: lists of values."""
    n = len(columns[0])
    H = math.ceil(math.log2(tree_size)) if height is None else height
    keys = [[key(v) for v in col] for col in columns]
    nattr = len(columns)

    @lru_cache(maxsize=None)
    def go(S, d):
        size = len(S)
        if size <= 1 or d >= H:
            v = float(d) if size <= 1 else d + c(size)
            return v, v * v
        m1, m2 = [], []
        for k in keys:
            for p in S:
                # a missing split value separates the missing rows from the others
                q = (1, -math.inf) if k[p] == MISSING else k[p]
                left = [k[i] < q for i in S]
                x = k[row] < q
                side = tuple(i for i, l in zip(S, left) if l == x)
                a, b = go(side, d + 1)
                m1.append(a)
                m2.append(b)
        return math.fsum(m1) / (nattr * size), math.fsum(m2) / (nattr * size)

    k = min(tree_size, n)
    samples = list(itertools.combinations(range(n), k))
    r = [go(s, 0) for s in samples]
    a = math.fsum(x for x, _ in r) / len(r)
    b = math.fsum(y for _, y in r) / len(r)
    go.cache_clear()
    return a, max(0.0, b - a * a)


def two_moments(n, ones, tree_size, missing=False):
    """Exact mean and variance of the path length of a row of either kind, when one column tells `ones` rows from the
    n - ones others, which are the smaller ones, or missing."""
    H = math.ceil(math.log2(tree_size))
    t = min(tree_size, n)

    @lru_cache(maxsize=None)
    def pure(k, d):
        """Where a node of k equal rows at depth d ends."""
        return float(d) if k <= 1 else H + c(k)

    @lru_cache(maxsize=None)
    def go(a, b, d, kind):
        k = a + b
        if k <= 1 or d >= H:
            v = float(d) if k <= 1 else d + c(k)
            return v, v * v
        v = pure(a if kind == 0 else b, d + 1)
        if missing:
            if a and b:
                return v, v * v
            # all missing: split values are missing, the missing go left; none missing: a row without a value goes left
            v = pure(a, d + 1) if kind == 0 else pure(b, d + 1)
            return v, v * v
        q = b / k  # the split value is a one: zeros left, ones right; otherwise everything goes right
        m = go(a, b, d + 1, kind)
        return q * v + (1 - q) * m[0], q * v * v + (1 - q) * m[1]
    lg = gammaln(np.arange(n + 2) + 1.0)
    out = []
    for kind in (0, 1):
        e = s = w = 0.0
        for b in range(max(0, t - (n - ones)), min(t, ones) + 1):
            a = t - b
            p = math.exp(lg[ones] - lg[b] - lg[ones - b] + lg[n - ones] - lg[a] - lg[n - ones - a] - (lg[n] - lg[t] - lg[n - t]))
            m = go(a, b, 0, kind)
            e, s, w = e + p * m[0], s + p * m[1], w + p
        e, s = e / w, s / w
        out.append((e, max(0.0, s - e * e)))
    go.cache_clear()
    return out


def n_samples(n, tree_size):
    return math.comb(n, min(n, tree_size))


def rank_moments(n, tree_size, monotone=1, constant=0):
    """Exact mean and variance of the path length of each row, by increasing rank, when the columns are
    `monotone` increasing transformations of one ranking of n distinct values and `constant` constants."""
    H = math.ceil(math.log2(tree_size))
    t = min(tree_size, n)
    leaf = np.array([0.0, 0.0] + [c(k) for k in range(2, t + 1)])
    k = np.add.outer(np.arange(t + 1), np.arange(t + 1))  # sampled rows up to x, sampled rows above x
    inside = k <= t
    size = np.where(inside, k, 0)
    m1 = m2 = None
    for d in range(H, -1, -1):  # moments at one depth
        end = d + leaf[size]
        if d == H:
            m1, m2 = np.where(inside, end, 0.0), np.where(inside, end**2, 0.0)
            continue
        new = []
        for old, v in ((m1, d), (m2, d * d)):
            left = np.cumsum(old, axis=1) - old  # split among those above: x goes left
            right = np.cumsum(old, axis=0) - old[0]
            x = (monotone * (left + right) / np.maximum(size, 1) + constant * old) / (monotone + constant)
            new.append(np.where(inside, np.where(size <= 1, v, x), 0.0))
        m1, m2 = new
    e, q = np.empty(n), np.empty(n)
    a = np.arange(t + 1)
    lg = gammaln(np.arange(n + 2) + 1.0)

    def comb(n, k):
        ok = (k >= 0) & (k <= n)
        k = np.where(ok, k, 0)
        return np.where(ok, lg[n] - lg[k] - lg[n - k], -np.inf)
    x1, x2 = m1[a, t - a], m2[a, t - a]
    for lo in range(0, n, 2000):
        r = np.arange(lo + 1, min(lo + 2000, n) + 1)[:, None]
        w = np.exp(comb(r, a) + comb(n - r, t - a) - (lg[n] - lg[t] - lg[n - t]))
        e[lo:lo + len(r)], q[lo:lo + len(r)] = w @ x1, w @ x2
    return np.column_stack([e, np.maximum(0.0, q - e * e)])
