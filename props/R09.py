"""R09: both PIN objectives are the Poisson-mixture likelihood up to a constant of the counts."""
import math

import numpy as np
from hypothesis import strategies as st

from vf.core import Discard, Facet, Violation
from vf.gen import SEEDS, fl, length, logfl

PROB = st.one_of(fl(0.01, 0.99), st.sampled_from([0.5, 0.1, 0.9, 0.001, 0.999]))


@st.composite
def point(draw, top):
    lam = st.one_of(logfl(0.2, top), fl(top / 20, top))
    return [draw(PROB), draw(PROB), draw(lam), draw(lam), draw(lam)]


@st.composite
def case_(draw, top=60.0):
    n = draw(st.integers(1, 8))
    cnt = st.integers(0, int(top * 1.5))
    if draw(st.booleans()):
        data = {"B": draw(st.lists(cnt, min_size=n, max_size=n)), "S": draw(st.lists(cnt, min_size=n, max_size=n))}
    else:
        data = {"T": draw(length(2, 120, 3000)), "true": draw(point(top)), "seed": draw(SEEDS)}
    return {"data": data, "points": draw(st.lists(point(top), min_size=2, max_size=4)), "float": draw(st.booleans()), "perm": draw(SEEDS)}


def counts(d):
    if "B" in d:
        return np.array(d["B"]), np.array(d["S"])
    r = np.random.RandomState(d["seed"])
    al, de, eb, es, mu = d["true"]
    u, v = r.rand(d["T"]) < al, r.rand(d["T"]) < de
    return r.poisson(eb + mu * (u & ~v)), r.poisson(es + mu * (u & v))


def logsumexp(v):
    m = max(v)
    return m + math.log(math.fsum(math.exp(x - m) for x in v))


def mixture(p, B, S):
    """Log-likelihood of the three-state mixture: good news, bad news, no news."""
    al, de, eb, es, mu = p
    pois = lambda k, l: k * math.log(l) - l - math.lgamma(k + 1)
    out = []
    for b, s in zip(B.tolist(), S.tolist()):
        out.append(logsumexp([math.log(al) + math.log(1 - de) + pois(b, eb + mu) + pois(s, es),
                              math.log(al) + math.log(de) + pois(b, eb) + pois(s, es + mu),
                              math.log(1 - al) + pois(b, eb) + pois(s, es)]))
    return math.fsum(out), sum(abs(x) for x in out)


def size(p, B, S):
    return float(np.sum(sum(p[2:]) + (B + S + 1) * (1 + abs(math.log(sum(p[2:]))))))


def compare(case, ctx, methods, limit):
    B, S = counts(case["data"])
    dt = float if case["float"] else np.int64
    pin = ctx.native.measures.PIN(B.astype(dt), S.astype(dt))
    ref, obj, tol = [], {m: [] for m in methods}, []
    for p in case["points"]:
        al, de, eb, es, mu = p
        if limit:
            M = np.minimum(B, S) + np.maximum(B, S) / 2
            x = max(abs(math.log(eb / (eb + mu))), abs(math.log(es / (es + mu))))
            if 2 * float(np.max(M)) * x + mu > 600:
                continue  # out of the double range of this form
        l, t = mixture(p, B, S)
        ref.append(l)
        tol.append(1e-12 * (t + size(p, B, S)) + 1e-10)
        for m in methods:
            v = getattr(pin, "loglikelihood_" + m)(np.array(p))
            if not np.isfinite(v):
                raise Violation(f"{m} objective is {v!r} at {p}", f"{m} finite")
            if abs(v - getattr(pin, "loglikelihood_" + m)(tuple(p))) > 0:
                raise Violation(f"{m} objective differs between calls at {p}", f"{m} repeat")
            obj[m].append(float(v))
    if len(ref) < 2:
        raise Discard("fewer than two points in the double range")
    ctx.nt(len(set(B.tolist())) > 1 and abs(ref[0] - ref[1]) > 1e-3)
    for m in methods:
        for i in range(1, len(ref)):
            got, want = obj[m][i] - obj[m][0], ref[0] - ref[i]
            if not abs(got - want) <= tol[0] + tol[i]:
                raise Violation(f"{m}: objective changes by {got!r} between two parameter points, minus the log-likelihood by {want!r}", f"{m} mixture")
    if len(methods) == 2:
        d = [a - b for a, b in zip(*obj.values())]
        if max(d) - min(d) > 2 * max(tol):
            raise Violation(f"the two objectives differ by {d} at different points", "constant")
    # the order of days is irrelevant
    q = np.random.RandomState(case["perm"]).permutation(len(B))
    pin2 = ctx.native.measures.PIN(B.astype(dt)[q], S.astype(dt)[q])
    for m in methods:
        for p in case["points"][:1]:
            a, b = getattr(pin, "loglikelihood_" + m)(np.array(p)), getattr(pin2, "loglikelihood_" + m)(np.array(p))
            if np.isfinite(a) and not abs(a - b) <= 1e-11 * size(p, B, S):
                raise Violation(f"{m}: {b!r} with days reordered, {a!r} before", f"{m} order")
    # exchanging buys and sells exchanges good and bad news
    sw = ctx.native.measures.PIN(S.astype(dt), B.astype(dt))
    for m in methods:
        al, de, eb, es, mu = case["points"][0]
        a, b = getattr(pin, "loglikelihood_" + m)(np.array([al, de, eb, es, mu])), getattr(sw, "loglikelihood_" + m)(np.array([al, 1 - de, es, eb, mu]))
        if np.isfinite(a) and np.isfinite(b) and not abs(a - b) <= 1e-11 * size(case["points"][0], B, S) + 1e-13 * abs(a):
            raise Violation(f"{m}: {b!r} with buys and sells exchanged, {a!r} before", f"{m} exchange")


def run_small(case, ctx):
    compare(case, ctx, ("EHO2010", "LK2011"), True)


def run_large(case, ctx):
    compare(case, ctx, ("LK2011",), False)


RULE = "buy counts vary and the two points have different likelihoods"
SCALE = 4  # quick-tier case counts are multiplied by this
FACETS = [Facet("both", lambda: case_(40.0), run_small, RULE, 1600, 20000, shards=3, tshards=8),
          Facet("large", lambda: st.one_of(case_(5000.0), case_(60000.0), case_(300.0)), run_large, RULE, 1600, 20000, shards=3, tshards=8)]
ASSUMPTIONS = ["the factorised form of Easley et al. is judged while its powers stay within the range of doubles, the Lin-Ke form for counts up to the tens of thousands",
               "tolerances are relative to the sum of the absolute terms of the likelihood"]
