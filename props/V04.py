"""V04: fits are idempotent whatever the call history and however models are shared."""
import math
from dataclasses import asdict

import numpy as np
from hypothesis import strategies as st

from vf.core import Facet, Violation
from vf.fresh import fresh
from vf.garchgen import model_cls, regime, simulate
from vf.gen import SEEDS, fl

KIND = st.sampled_from(["garch", "gjr"])
OPS = st.one_of(
    st.tuples(st.just("uni"), KIND, st.integers(0, 2), st.booleans()),
    st.tuples(st.just("ccc"), st.integers(0, 2), st.integers(0, 2)),
    # a margin is ["x", series] or ["m", index of a univariate model made before]
    st.tuples(st.just("dcc"), KIND, st.tuples(st.sampled_from("xmm"), st.integers(0, 5)), st.tuples(st.sampled_from("xmm"), st.integers(0, 5))),
    st.tuples(st.just("fit"), st.integers(0, 9)),
    st.tuples(st.just("fit"), st.integers(0, 9)),
    st.tuples(st.just("fit"), st.integers(0, 9)),
    st.tuples(st.just("corr"), st.integers(0, 9), fl(0, 0.4), fl(0, 0.59)),
    st.tuples(st.just("prep"), st.integers(0, 9)),
)


@st.composite
def history(draw):
    T = draw(st.integers(80, 220))
    pool = [dict(draw(regime()), T=T) for _ in range(3)]
    k = draw(KIND)
    start = [["uni", k, 0, False], ["uni", k, 1, draw(st.booleans())]]
    if draw(st.booleans()):
        start.append(["dcc", k, ["m", 0], ["m", 1]])
    ops = start + [list(map(lambda o: list(o) if isinstance(o, tuple) else o, op))
                                             for op in draw(st.lists(OPS, min_size=4, max_size=14))]
    return {"pool": pool, "mix": draw(fl(0.1, 0.9)), "ops": ops}


def data(case):
    xs = [simulate(g, k) for k, g in enumerate(case["pool"])]
    xs[1] = case["mix"] * xs[0] + (1 - case["mix"]) * xs[1]
    return xs


def build(ns, desc, xs, margins=None):
    if desc[0] == "uni":
        return model_cls(ns, desc[1])(xs[desc[2]].copy(), zero_mean=desc[3])
    if desc[0] == "ccc":
        return ns.alg.GARCHModel_CCC(xs[desc[1]].copy(), xs[desc[2]].copy())
    cls = ns.alg.GJRGARCHModel_DCC if desc[1] == "gjr" else ns.alg.GARCHModel_DCC
    m1, m2 = margins if margins else (build(ns, desc[2], xs), build(ns, desc[3], xs))
    return cls(m1, m2)


def same(a, b, rtol):
    a, b = asdict(a), asdict(b)
    return a.keys() == b.keys() and all(
        (math.isnan(a[k]) and math.isnan(b[k])) or a[k] == b[k] or abs(a[k] - b[k]) <= rtol * (abs(b[k]) + 1e-3) for k in a)


def state(m):
    return (asdict(m.parameters), m.resids.copy(), m.sigma2.copy(), m.backcast_value, m.var_bounds.copy(), m.estimation_success)


def state_eq(a, b):
    return str(a[0]) == str(b[0]) and all(np.array_equal(x, y) for x, y in zip(a[1:], b[1:]))


def run(case, ctx):
    ns = ctx.native
    xs = data(case)
    objs = []  # (description, object, margins)
    first, fitted, frozen = {}, set(), {}
    fresh = {}

    def oracle(desc):
        k = str(desc)
        if k not in fresh:
            m = build(ns, desc, xs)
            p = m.fit()
            fresh[k] = (p, m.estimation_success, m)
        return fresh[k]

    def bad_margin(desc):
        return desc[0] == "dcc" and not (oracle(desc[2])[1] and oracle(desc[3])[1]) or desc[0] == "ccc" and not (
            oracle(["uni", "garch", desc[1], False])[1] and oracle(["uni", "garch", desc[2], False])[1])

    shared = refit = 0
    for n, op in enumerate(case["ops"]):
        if op[0] == "uni":
            objs.append((op, build(ns, op, xs), ()))
        elif op[0] == "ccc":
            if op[1] != op[2]:
                objs.append((op, build(ns, op, xs), ()))
        elif op[0] == "dcc":
            margins, descs, idx = [], [], []
            for how, i in (op[2], op[3]):
                cands = [k for k, (d, o, _) in enumerate(objs) if d[0] == "uni" and d[1] == op[1]]
                if how == "m" and cands:
                    k = cands[i % len(cands)]
                    margins.append(objs[k][1])
                    descs.append(objs[k][0])
                    idx.append(k)
                else:
                    descs.append(["uni", op[1], i % 3, False])
                    margins.append(xs[i % 3].copy())
            if descs[0][2] == descs[1][2]:
                continue  # the same series twice: perfectly correlated
            shared += len(idx)
            desc = ["dcc", op[1], descs[0], descs[1]]
            objs.append((desc, build(ns, desc, xs, margins), tuple(idx)))
        elif not objs:
            continue
        else:
            k = op[1] % len(objs)
            desc, obj, idx = objs[k]
            if bad_margin(desc):
                continue
            if op[0] == "prep":
                if desc[0] == "uni" and k not in fitted:
                    obj.preparation()
                continue
            if op[0] == "corr":
                if desc[0] != "dcc":
                    continue
                got = obj.conditional_correlations(op[2], op[3])
                want = oracle(desc)[2].conditional_correlations(op[2], op[3])
                if not np.allclose(got, want, rtol=1e-6, atol=1e-6):
                    raise Violation(f"step {n} {op}: correlations of {desc} differ from those of a fresh model", "corr")
            else:
                p = obj.fit()
                want, success, _ = oracle(desc)
                if p is None or type(p) is not type(want):
                    raise Violation(f"step {n}: fit of {desc} returned {p!r}", "returned")
                if obj.estimation_success != success:
                    raise Violation(f"step {n}: success {obj.estimation_success} instead of {success}", "success")
                if not same(p, want, 1e-6):
                    raise Violation(f"step {n}: fit of {desc} returned {p}, a fresh model {want}", "fresh")
                if not same(obj.parameters, p, 0):
                    raise Violation(f"step {n}: fit returned {p}, the model keeps {obj.parameters}", "kept")
                if k in first:
                    refit += 1
                    if success and not same(p, first[k], 0):
                        raise Violation(f"step {n}: repeated fit of {desc} returned {p}, before {first[k]}", "repeat")
                else:
                    first[k] = type(p)(**asdict(p))
                fitted.add(k)
        # an estimated univariate model never changes again
        for k, (desc, obj, _) in enumerate(objs):
            if desc[0] == "uni" and obj.estimation_success:
                if k in frozen:
                    if not state_eq(frozen[k], state(obj)):
                        raise Violation(f"step {n} {op}: the estimated {desc} was altered", "altered")
                else:
                    frozen[k] = state(obj)
    ctx.nt(refit > 0 or shared > 0)
    if shared:
        ctx.label("shared margins")
    if refit:
        ctx.label("repeated fit")


@st.composite
def first_case(draw):
    T = draw(st.integers(80, 200))
    ops = []
    for _ in range(draw(st.integers(2, 6))):
        ops.append(draw(st.one_of(st.tuples(st.just("uni"), KIND, st.integers(0, 3), st.booleans()), st.tuples(st.just("uni"), KIND, st.integers(0, 3), st.booleans()),
                                  st.tuples(st.just("ccc"), st.integers(0, 1), st.integers(2, 3)),
                                  st.tuples(st.just("dcc"), KIND, st.integers(0, 1), st.integers(2, 3)))))
    return {"pool": [dict(draw(regime()), T=T) for _ in range(4)], "mix": draw(fl(0.1, 0.9)), "ops": [list(o) for o in ops], "start": draw(st.booleans()), "alone": draw(st.integers(0, 9))}


def perform(ns, case, ops):
    xs, out = data(case), []
    for op in ops:
        if op[0] == "dcc":
            op = ["dcc", op[1], ["uni", op[1], op[2], False], ["uni", op[1], op[3], False]]
        m = build(ns, op, xs)
        try:
            s = [float(x) for x in m.preparation()] if case["start"] and op[0] == "uni" else None
            p = m.fit()
            out.append((s, asdict(p), m.estimation_success))
        except RuntimeError:
            out.append(None)
    return out


def run_first(case, ctx):
    """A model is estimated as in a process that never estimated another."""
    path, ops = ctx.native._path, case["ops"]
    i = case["alone"] % len(ops)
    got = fresh("native", path, perform, case, ops)[i]
    (want,) = fresh("native", path, perform, case, ops[i:i + 1])
    ctx.nt(i > 0 and want is not None)
    ctx.label(ops[i][0])
    if (got is None) != (want is None):
        raise Violation(f"{ops[i]} fails {'alone' if want is None else 'after other models'} only", "first")
    if want is None:
        return
    if got[0] is not None and not np.allclose(got[0], want[0], rtol=1e-9, atol=1e-12):
        raise Violation(f"starting values of {ops[i]} are {got[0]} after {ops[:i]}, {want[0]} in a process of their own", "start")
    bad = [k for k in want[1] if not (got[1][k] == want[1][k] or abs(got[1][k] - want[1][k]) <= 1e-6 * (abs(want[1][k]) + 1e-3) or want[1][k] != want[1][k])]
    if got[2] != want[2] or bad:
        raise Violation(f"fit of {ops[i]} gives {got[1:]} after {ops[:i]}, {want[1:]} in a process of its own", "first")


FACETS = [Facet("first", first_case, run_first, "a model estimated after others is compared with itself as the first of a process", 160, 4000, shards=8, tshards=8),
          Facet("history", history, run, "a fit is repeated or a univariate model is shared", 800, 12000, shards=8, tshards=8)]
ASSUMPTIONS = ["multivariate models whose univariate margins fail to converge are not fitted"]
