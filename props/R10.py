"""R10: PIN estimates are feasible, consistent, best of the grid and free of history."""
import dataclasses
from itertools import product

import numpy as np
from hypothesis import strategies as st

from vf.core import Discard, Facet, Violation
from vf.gen import SEEDS, fl, length, logfl

METHODS = ("EHO2010", "LK2011")
NAMES = ("alpha", "delta", "epsilon_b", "epsilon_s", "mu")


@st.composite
def flow(draw, top=None):
    hi = 60.0 if top is None else top
    t = draw(st.one_of(logfl(25.0, hi), logfl(0.8, 25.0)))
    return {"T": draw(length(10, 60, 300, 6)), "true": [draw(fl(0.1, 0.9)), draw(fl(0.1, 0.9))] + [draw(fl(0.4, 1.0)) * t for _ in range(3)], "seed": draw(SEEDS), "float": draw(st.booleans())}


def counts(d):
    r = np.random.RandomState(d["seed"])
    al, de, eb, es, mu = d["true"]
    u, v = r.rand(d["T"]) < al, r.rand(d["T"]) < de
    B, S = r.poisson(eb + mu * (u & ~v)), r.poisson(es + mu * (u & v))
    return (B.astype(float), S.astype(float)) if d["float"] else (B, S)


def starts(B, S):
    """The documented grid (Yan and Zhang 2012)."""
    g = (0.1, 0.3, 0.5, 0.7, 0.9)
    b, s = float(np.mean(B)), float(np.mean(S))
    out = []
    for al, de, ga in product(g, g, g):
        eb = ga * b
        mu = (b - eb) / (al * (1 - de))
        es = s - al * de * mu
        if es >= 0:
            out.append((al, de, eb, es, mu))
    return out


def tup(q):
    return [getattr(q, n) for n in NAMES]


def judge(pin, q, method, ctx):
    """One result of estimate, against the data alone."""
    x = tup(q)
    if not pin.estimation_success:
        if not np.isnan(q.pin) or not np.isnan(q.loglikelihood):
            raise Violation(f"estimation failed, but reports {q}", "failed result")
        return False
    if not (0 <= x[0] <= 1 and 0 <= x[1] <= 1 and min(x[2:]) >= 0 and np.all(np.isfinite(x))):
        raise Violation(f"infeasible estimate {q}", "feasible")
    if q.method != method:
        raise Violation(f"method {q.method!r} reported for {method!r}", "method")
    obj = getattr(pin, "loglikelihood_" + method)
    l = -float(obj(np.array(x)))
    if not abs(q.loglikelihood - l) <= 1e-9 * (1 + abs(l)):
        raise Violation(f"reported log-likelihood {q.loglikelihood!r}, at the reported parameters {l!r}", "likelihood")
    p = x[0] * x[4] / (x[0] * x[4] + x[2] + x[3])
    if not (abs(q.pin - p) <= 1e-12 and 0 <= q.pin <= 1):
        raise Violation(f"PIN {q.pin!r}, informed over total flow is {p!r}", "pin")
    vals = [(-float(obj(np.array(s))), s) for s in starts(pin.B, pin.S)]
    best = max([v for v in vals if np.isfinite(v[0])], default=(-np.inf, None))
    if q.loglikelihood < best[0] - 1e-7 * (1 + abs(best[0])):
        raise Violation(f"log-likelihood {q.loglikelihood!r} is below that of the starting point {best[1]}: {best[0]!r}", "starts")
    if pin.parameters != q:
        raise Violation(f"estimate returned {q}, the model holds {pin.parameters}", "returned")
    return True


def run_estimate(case, ctx):
    m = case["method"]
    B, S = counts(case["flow"])
    pin = ctx.native.measures.PIN(B.copy(), S.copy())
    q = pin.estimate() if m == "EHO2010" and case["default"] else pin.estimate(m)
    ok = judge(pin, q, m, ctx)
    ctx.nt(ok)
    ctx.label(m, "converged" if ok else "not converged")
    if not ok and m == "LK2011" and B.any() and S.any():
        raise Violation("no starting point led to an estimate", "no estimate")
    # local optimality, one parameter at a time
    if max(case["flow"]["true"]) > 60:
        return  # the optimiser's tolerance is relative to a likelihood in the millions
    obj = getattr(pin, "loglikelihood_" + m)
    x = tup(q)
    for i, h in product(range(5), (1e-2, -1e-2, 5e-2, -5e-2)):
        y = list(x)
        y[i] = max(y[i] + h * (1.0 if i < 2 else max(y[i], 1.0)), 0.0)
        if i < 2:
            y[i] = min(y[i], 1.0)
        v = -float(obj(np.array(y)))
        if np.isfinite(v) and v > q.loglikelihood + 5e-2 + 1e-5 * abs(q.loglikelihood):
            raise Violation(f"changing {NAMES[i]} from {x[i]!r} to {y[i]!r} raises the log-likelihood from {q.loglikelihood!r} to {v!r}", "improvable")


def run_grid(case, ctx):
    """The starting points are the documented ones."""
    B, S = counts(case)
    pin = ctx.native.measures.PIN(B.copy(), S.copy())
    want = starts(B, S)
    ctx.nt(len(want) < 125)
    gen = getattr(pin, "init_params_grid_search", None)
    if gen is None:
        raise Discard("no separate grid")
    got = [tuple(map(float, s)) for s in gen()]
    if len(got) != len(want) or not np.allclose(sorted(got), sorted(want), rtol=1e-12, atol=1e-9):
        raise Violation(f"{len(got)} starting points, expected {len(want)}; first {got[:1]} and {want[:1]}", "grid")
    q = type(pin).Parameters(case["true"][0], case["true"][1], case["true"][2], case["true"][3], case["true"][4])
    al, de, eb, es, mu = case["true"]
    p = q.calculate_pin()
    if not (abs(p - al * mu / (al * mu + eb + es)) <= 1e-12 and q.pin == p):
        raise Violation(f"calculate_pin gives {p!r}, stores {q.pin!r}", "calculate_pin")


@st.composite
def history(draw):
    big = draw(st.booleans())  # counts for which the factorised form leaves the range of doubles: its estimates fail
    f = draw(flow(60.0))
    if big:
        f["true"] = f["true"][:2] + [draw(fl(3000, 9000)) for _ in range(3)]
        f["T"] = min(f["T"], 25)
    return {"flow": f, "ops": draw(st.lists(st.sampled_from(["EHO2010", "LK2011", "bad", "read"]), min_size=2, max_size=4))}


def run_history(case, ctx):
    B, S = counts(case["flow"])
    P = ctx.native.measures.PIN
    pin, seen, done = P(B.copy(), S.copy()), {}, []
    if pin.estimation_success:
        raise Violation("a new object reports success", "fresh")
    for op in case["ops"]:
        if op == "bad":
            try:
                pin.estimate("EKOP1996")
            except ValueError:
                continue
            raise Violation("an unknown method is accepted", "unknown method")
        if op == "read":
            pin.loglikelihood_LK2011(np.array([0.5, 0.5, 20.0, 20.0, 20.0]))
            continue
        q = dataclasses.replace(pin.estimate(op))
        s = pin.estimation_success
        if op not in seen:
            fresh = P(B.copy(), S.copy())
            seen[op] = (dataclasses.replace(fresh.estimate(op)), fresh.estimation_success)
        w, ws = seen[op]
        done.append(op)
        if s != ws:
            raise Violation(f"after {done}: success {s}, a fresh object says {ws}", "success")
        if not np.allclose(tup(q) + [q.loglikelihood, q.pin], tup(w) + [w.loglikelihood, w.pin], rtol=1e-9, atol=1e-9, equal_nan=True) or q.method != w.method:
            raise Violation(f"after {done}: {q}, a fresh object gives {w}", "history")
        judge(pin, pin.parameters, op, ctx)
    ctx.nt(len(done) > 1)
    ctx.label("repeated" if len(done) > len(set(done)) else "no repeat", "some failed" if not all(v[1] for v in seen.values()) else "all succeed")


@st.composite
def estimate_case(draw):
    m = draw(st.sampled_from(METHODS))
    return {"method": m, "flow": draw(flow(60.0 if m == "EHO2010" else 3000.0)), "default": draw(st.booleans())}


FACETS = [Facet("estimate", estimate_case, run_estimate, "the estimation succeeds", 110, 2400, shards=4, tshards=8, weight=3),
          Facet("grid", lambda: flow(2000.0), run_grid, "some points of the grid are infeasible", 600, 6000, shards=1, tshards=2),
          Facet("history", history, run_history, "several estimates on one object", 60, 1200, shards=4, tshards=8, weight=2)]
ASSUMPTIONS = ["order flow with some buys and some sells", "local optimality is judged with steps of 1 % and 5 % and a slack of 0.05 in log-likelihood, for up to 60 orders"]
