"""X05: models, measures and results can be copied, stored and sent to other processes, in whatever state they are."""
import contextlib
import copy
import pickle

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from props.N02 import flat
from props.X01 import OPS, series
from vf.core import Discard, Facet, Violation
from vf.fresh import fresh


@contextlib.contextmanager
def imported(ns):
    """The modules of the package are the process's own meanwhile, as pickling wants."""
    saved = ns._swap_in()
    try:
        yield
    finally:
        ns._swap_out(saved)


def fields(o):
    return [flat(getattr(o.parameters, n)) for n in o.parameters.__dataclass_fields__]


def state(o):
    out = [bool(o.estimation_success), fields(o)]
    if o.estimation_success and hasattr(o, "sigma2"):
        out += [o.sigma2, o.resids, o.loglikelihood_final]
    return out


def held(*names):
    """The data an object keeps under its public names."""
    def f(ns, o):
        out = []
        for n in names:
            x = o
            for part in n.split("."):
                x = getattr(x, part, None)
            out.append(x)
        return out
    return f


def settled(f):
    def g(*a):
        try:
            return f(*a)
        except RuntimeError:
            raise Discard("estimation failed")
    return g


UNI = {"fit": lambda ns, o: o.fit(), "state": lambda ns, o: state(o), "data": held("returns", "zero_mean"), "likelihood": lambda ns, o: o.loglikelihood(o.returns, 1 + o.returns**2)}
MULTI = {"fit": lambda ns, o: o.fit(), "state": lambda ns, o: state(o), "data": held("returns1", "returns2", "model1.returns", "model2.returns")}
DCC = dict(MULTI, correlations=lambda ns, o: o.conditional_correlations(0.05, 0.9), **{"model likelihood": lambda ns, o: o.loglikelihood_model([0.1, 0.8])})


def margins(ns, r, cls):
    ms = [cls(series(r, 90)) for _ in range(2)]
    for m in ms:
        m.fit()
    return ms


def prepared(ns, r, cls):
    ms = margins(ns, r, cls)
    if not all(m.estimation_success for m in ms):
        raise Discard("margin not converged")
    return ms


def scale(r):
    return float(r.choice([1.0, 0.01, 1e5]))


def counts(r):
    x = r.poisson(50 * r.choice([1, 1, 100, 4000, 10**6]), 5)
    return x if r.rand() < 0.6 else x / 3.0


# kind -> (maker, operations, whether a fit must come before operations other than state)
KINDS = {
    "garch": (lambda ns, r: ns.alg.GARCHModel(series(r, 100), zero_mean=bool(r.randint(2))), UNI),
    "gjr": (lambda ns, r: ns.alg.GJRGARCHModel(series(r, 100), zero_mean=bool(r.randint(2))), UNI),
    "ccc": (lambda ns, r: ns.alg.GARCHModel_CCC(series(r, 80), series(r, 80)), MULTI),
    "dcc": (lambda ns, r: ns.alg.GARCHModel_DCC(series(r, 90), series(r, 90)), DCC),
    "gjr dcc": (lambda ns, r: ns.alg.GJRGARCHModel_DCC(series(r, 90), series(r, 90)), DCC),
    "dcc of models": (lambda ns, r: ns.alg.GARCHModel_DCC(*prepared(ns, r, ns.alg.GARCHModel)), DCC),
    "gjr dcc of models": (lambda ns, r: ns.alg.GJRGARCHModel_DCC(*prepared(ns, r, ns.alg.GJRGARCHModel)), DCC),
    "lrmes": (lambda ns, r: ns.measures.LRMES(series(r, 100, 0.01), series(r, 100, 0.01)),
              {"short": settled(lambda ns, o: o.estimate(5, 40, -0.01, 42)), "long": settled(lambda ns, o: o.estimate(9, 30, -0.05, 7)), "data": held("firm_returns", "market_returns")}),
    "srisk": (lambda ns, r: ns.measures.SRISK(np.column_stack([series(r, 90, 0.01), series(r, 90, 0.01)]), series(r, 90, 0.01), np.array([1.0, 2.0]), np.array([10.0, 40.0])),
              {"firms": settled(lambda ns, o: o.estimate(0.08, 4, 30, -0.01, 5, aggregate_srisk=False)), "total": settled(lambda ns, o: o.estimate(0.08, 4, 30, -0.01, 5, aggregate_srisk=True)),
               "data": held("firm_returns", "market_returns", "W", "D")}),
    "absorption": (lambda ns, r: ns.measures.AbsorptionRatio(scale(r) * r.standard_normal((6, 40))), {f"{x}": (lambda ns, o, x=x: o.estimate(x)) for x in (0.2, 0.5, 1.0)}),
    "mes": (lambda ns, r: ns.measures.MarginalExpectedShortfall(scale(r) * r.standard_normal(60), r.standard_normal(60)), {f"{x}": (lambda ns, o, x=x: o.estimate(x)) for x in (0.05, 0.2, 0.5)}),
    "ses": (lambda ns, r: ns.measures.SystemicExpectedShortfall(scale(r) * r.rand(12), r.rand(12) * 9, r.rand(12), 0.3, 4.0), {"estimate": lambda ns, o: o.estimate()}),
    "distress": (lambda ns, r: ns.measures.DistressInsurancePremium(r.uniform(0.01, 0.3, 4), np.full((4, 4), 0.3) + 0.7 * np.eye(4)),
                 {"a": lambda ns, o: o.estimate(0.15, 0, 300, 40), "b": lambda ns, o: o.estimate(0.1, 9, 300, 40)}),
    "pin": (lambda ns, r: ns.measures.PIN(counts(r), counts(r)),
            {"lk": lambda ns, o: o.loglikelihood_LK2011(np.array([0.3, 0.5, 40, 35, 20])), "eho": lambda ns, o: o.loglikelihood_EHO2010([0.3, 0.5, 40, 35, 20])}),
    "claims": (lambda ns, r: ns.measures.ContingentClaimAnalysis(), {"a": lambda ns, o: o.estimate(3.0, 0.4, 0.02, 4.0, 1.0, 120.0), "b": lambda ns, o: o.estimate(1.5, 0.3, 0.01, 2.0, 0.5, 90.0)}),
    "dataset": (lambda ns, r: ns.datasets.StockReturns, {"data": lambda ns, o: o.stocks_us, "columns": lambda ns, o: o.stocks_us.sum()}),
}
FITTING = {"garch", "gjr", "ccc", "dcc", "gjr dcc", "dcc of models", "gjr dcc of models", "lrmes", "srisk"}
WAYS = ("pickle", "pickle", "pickle", "deepcopy", "deepcopy", "copy")


def clone(ns, o, way, protocol):
    with imported(ns):
        try:
            if way == "pickle":
                return pickle.loads(pickle.dumps(o, protocol))
            return (copy.deepcopy if way == "deepcopy" else copy.copy)(o)
        except Exception as e:
            raise Violation(f"{type(o).__name__} cannot be cloned ({way}, protocol {protocol}): {type(e).__name__}: {e}", f"clone {type(o).__name__}")


def act(ns, kind, o, op):
    x = KINDS[kind][1][op](ns, o)
    return [float(len(x)), *map(float, x.sum())] if isinstance(x, pd.DataFrame) else flat(x)


def close(kind, x, y, op=None):
    f = kind in FITTING and op not in ("data", "likelihood")
    return len(x) == len(y) and np.allclose(x, y, rtol=1e-6 if f else 1e-9, atol=1e-8 if f else 1e-12, equal_nan=True)


def arrays(o, seen=None):
    """Every array an object reaches through its attributes, lists, tuples and dictionaries."""
    seen = {} if seen is None else seen
    if id(o) in seen or o is None or isinstance(o, (str, bytes, float, int, type)):
        return []
    seen[id(o)] = o
    if isinstance(o, np.ndarray):
        return [o]
    if isinstance(o, dict):
        return [a for x in o.values() for a in arrays(x, seen)]
    if isinstance(o, (list, tuple)):
        return [a for x in o for a in arrays(x, seen)]
    return arrays(vars(o), seen) if hasattr(o, "__dict__") and not callable(o) else []


@st.composite
def history(draw):
    kind = draw(st.sampled_from(sorted(KINDS)))
    ops = sorted(KINDS[kind][1])
    steps, alive, n = [], [0], 1
    for _ in range(draw(st.integers(2, 7))):
        i = draw(st.sampled_from(alive))
        what = draw(st.sampled_from(["op", "op", "clone", "clone", "ruin"]))
        if what == "ruin" and len(alive) < 2:
            what = "clone"
        if what == "op":
            steps.append(["op", i, draw(st.sampled_from(ops))])
        elif what == "clone":
            way = draw(st.sampled_from(WAYS))
            steps.append(["clone", i, way, draw(st.integers(0, pickle.HIGHEST_PROTOCOL))])
            if way == "copy":  # a shallow copy shares its parts with the original, which is left alone from then on
                alive.remove(i)
            alive.append(n)
            n += 1
        else:
            alive.remove(i)
            steps.append(["ruin", i])
    return {"kind": kind, "seed": draw(st.integers(0, 40)), "steps": steps, "variant": draw(st.sampled_from(["native", "native", "pure"]))}


def expected(ns, case, ops, ctx):
    """The result of the last of these operations on an object never cloned."""
    k = (case["variant"], case["kind"], case["seed"], tuple(ops))
    if k not in ctx.cache:
        try:
            o = KINDS[case["kind"]][0](ns, np.random.RandomState(9000 + case["seed"]))
            out = None
            for x in ops:
                out = act(ns, case["kind"], o, x)
            ctx.cache[k] = out
        except Discard as e:
            ctx.cache[k] = str(e)
    if isinstance(ctx.cache[k], str):
        raise Discard(ctx.cache[k])
    return ctx.cache[k]


def ready(kind, past, op):
    """Operations that need a fit are preceded by one."""
    return op in ("state", "data", "fit") or kind not in ("dcc", "gjr dcc", "dcc of models", "gjr dcc of models") or "fit" in past


def run_history(case, ctx):
    ns, kind = ctx.variant(case["variant"]), case["kind"]
    objs = [KINDS[kind][0](ns, np.random.RandomState(9000 + case["seed"]))]
    past = [[]]
    after = 0

    def do(i, op):
        past[i].append(op)
        want = expected(ns, case, past[i], ctx)
        try:
            got = act(ns, kind, objs[i], op)
        except Discard:
            raise Violation(f"{kind}: {op} fails on a copy, or on what it was copied from, after {case['steps']}", f"fails {kind}")
        if not close(kind, want, got, op):
            raise Violation(f"{kind}: {op} gives {got[:6]} on object {i} with {past[i]} in {case['steps']}, {want[:6]} when nothing is copied", f"differs {kind}")

    for s in case["steps"]:
        if s[0] == "op":
            if not ready(kind, past[s[1]], s[2]):
                do(s[1], "fit")
            do(s[1], s[2])
            after += s[1] > 0 and len(past[s[1]]) > 1
        elif s[0] == "clone":
            o = clone(ns, objs[s[1]], s[2], s[3])
            if type(o) is not type(objs[s[1]]):
                raise Violation(f"a clone of a {type(objs[s[1]]).__name__} is a {type(o).__name__}", f"type {kind}")
            if s[2] != "copy":
                theirs = arrays(objs[s[1]])
                for a in arrays(o):
                    if a.flags.writeable and any(np.shares_memory(a, b) for b in theirs):
                        raise Violation(f"{kind}: an array of {a.shape} belongs to both the original and its clone {s}", f"shared {kind}")
            objs.append(o)
            past.append(list(past[s[1]]))
            ctx.label(s[2])
            for op in ("state", "data"):  # just what the original has now
                if op in KINDS[kind][1]:
                    want, got = act(ns, kind, objs[s[1]], op), act(ns, kind, o, op)
                    if not (len(want) == len(got) and np.array_equal(want, got, equal_nan=True)):
                        raise Violation(f"{kind}: the clone's {op} is {got[:6]} after {s}, the original's {want[:6]}, {past[-1]}", f"{op} {kind}")
        elif kind != "dataset":
            for a in arrays(objs[s[1]]):
                if a.flags.writeable and a.dtype.kind == "f":
                    a.fill(np.nan)
            ctx.label("ruined")
    dead = {s[1] for s in case["steps"] if s[0] == "ruin"} | {s[1] for s in case["steps"] if s[0] == "clone" and s[2] == "copy"}
    for i in range(len(objs)):  # every object left is still what it was
        if i not in dead:
            op = sorted(KINDS[kind][1])[i % len(KINDS[kind][1])]
            if ready(kind, past[i], op):
                do(i, op)
    ctx.label(kind)
    ctx.nt(len(objs) > 1 and any(past))


# --- sent to another process ---------------------------------------------------------------------------------------
@st.composite
def parcel(draw):
    kind = draw(st.sampled_from(sorted(KINDS)))
    ops = sorted(KINDS[kind][1])
    return {"kind": kind, "seed": draw(st.integers(0, 10)), "before": draw(st.lists(st.sampled_from(ops), max_size=2)), "there": draw(st.lists(st.sampled_from(ops), min_size=1, max_size=2)),
            "protocol": draw(st.integers(0, pickle.HIGHEST_PROTOCOL)), "own": draw(st.integers(0, 2)), "from": draw(st.sampled_from(["native", "pure"])), "to": draw(st.sampled_from(["native", "pure"]))}


def complete(kind, ops):
    out = []
    for x in ops:
        if not ready(kind, out, x):
            out.append("fit")
        out.append(x)
    return out


def elsewhere(ns, kind, data, ops, own):
    """Unpickled in a process that has not seen the object, but has objects of its own; its state travels back."""
    ns.alg, ns.measures, ns.datasets
    keep = []
    for i in range(own):
        x = KINDS[kind][0](ns, np.random.RandomState(100 + i))
        for op in complete(kind, ops):
            with contextlib.suppress(Discard):
                act(ns, kind, x, op)
        keep.append(x)
    with imported(ns):
        o = pickle.loads(data)
    out = [act(ns, kind, o, x) for x in ops]
    with imported(ns):
        return out, pickle.dumps(o)


def run_parcel(case, ctx):
    kind = case["kind"]
    src, dst = ctx.variant(case["from"]), ctx.variant(case["to"])
    before = complete(kind, case["before"])
    there = complete(kind, before + case["there"])[len(before):]
    o = KINDS[kind][0](src, np.random.RandomState(9000 + case["seed"]))
    for x in before:
        act(src, kind, o, x)
    with imported(src):
        try:
            data = pickle.dumps(o, case["protocol"])
        except Exception as e:
            raise Violation(f"{kind} after {before} cannot be pickled, protocol {case['protocol']}: {type(e).__name__}: {e}", f"pickle {kind}")
    full = dict(case, variant=case["from"])
    wants = [expected(src, full, before + there[:i + 1], ctx) for i in range(len(there))]
    try:
        got, back = fresh(case["to"], dst._path, elsewhere, kind, data, there, case["own"])
    except Discard:
        raise Violation(f"{kind} after {before}: {there} fails in another process", f"fails {kind}")
    for x, w, g in zip(there, wants, got):
        if not close(kind, w, g, x):
            raise Violation(f"{kind} after {before}: {x} in another process gives {g[:6]}, {w[:6]} here", f"process {kind}")
    with imported(src):
        o = pickle.loads(back)
    last = there[-1]
    if not close(kind, expected(src, full, before + there + [last], ctx), act(src, kind, o, last)):
        raise Violation(f"{kind} after {before} and {there} elsewhere: {last} differs when it comes back", f"back {kind}")
    ctx.label(kind, "with history" if before else "new", "other variant" if case["from"] != case["to"] else "same variant")
    ctx.nt(bool(before))


# --- results and functions -----------------------------------------------------------------------------------------
FUNCTIONS = [("measures", "blsprice"), ("measures", "kyle_lambda"), ("measures", "z_score"), ("spread", "quoted_spread"), ("spread", "effective_spread"), ("spread", "realized_spread"),
             ("impact", "simple_price_impact"), ("lob", "DGGW_ask_slope"), ("lob", "DGGW_bid_slope"), ("lob", "DGGW_bid_side_slope_difference"), ("lob", "DGGW_ask_side_slope_difference"),
             ("lob", "DGGW_scaled_depth_difference"), ("iforest", "anomaly_scores"), ("mm", "mod_merton_computation"), ("mm1", "mod_single_cohort_computation"), ("mm1sol", "mod_single_cohort_solution"),
             ("merton", "merton_solution"), ("face", "find_face_value_indiv"), ("payoff", "loan_payoff"), ("fft", "fftsmooth")]
METHODS = [("GARCHModel", "variance_bounds"), ("GARCHModel", "backcast"), ("GARCHModel", "ewma"), ("GARCHModel", "compute_variance"), ("GARCHModel", "loglikelihood"),
           ("GJRGARCHModel", "compute_variance"), ("GJRGARCHModel", "forecast_variance"), ("GARCHModel_CCC", "loglikelihood")]


@st.composite
def result_case(draw):
    return {"what": draw(st.sampled_from(["result", "result", "result", "function", "method", "bound"])), "op": draw(st.sampled_from(sorted(OPS))), "k": draw(st.integers(0, 6)), "p": draw(st.integers(0, 5)),
            "way": draw(st.sampled_from(["pickle", "pickle", "deepcopy"])), "protocol": draw(st.integers(0, pickle.HIGHEST_PROTOCOL)), "i": draw(st.integers(0, 10**6)), "variant": draw(st.sampled_from(["native", "native", "pure"]))}


def identical(x, y):
    if type(x) is not type(y):
        return False
    if isinstance(x, (list, tuple)):
        return len(x) == len(y) and all(map(identical, x, y))
    if hasattr(x, "__dataclass_fields__"):
        return all(identical(getattr(x, n), getattr(y, n)) for n in x.__dataclass_fields__)
    if isinstance(x, pd.DataFrame):
        return x.equals(y) and list(x.columns) == list(y.columns) and x.index.equals(y.index)
    a, b = np.asarray(x), np.asarray(y)
    return a.shape == b.shape and a.dtype == b.dtype and (np.array_equal(a, b, equal_nan=True) if a.dtype.kind in "fc" else np.array_equal(a, b))


def run_result(case, ctx):
    ns = ctx.variant(case["variant"])
    what, P = case["what"], case["protocol"]
    ctx.label(what)
    if what in ("function", "method", "bound"):
        if what == "function":
            m, n = FUNCTIONS[case["i"] % len(FUNCTIONS)]
            if m == "iforest" and case["variant"] == "pure":
                raise Discard("the isolation forest needs its extension")
            f = getattr(getattr(ns, m), n)
        elif what == "method":
            c, n = METHODS[case["i"] % len(METHODS)]
            f = getattr(getattr(ns.alg, c), n)
        else:  # the method of an object, as one hands it to a pool of workers
            kind = ("garch", "gjr", "mes", "absorption", "ses", "distress", "claims")[case["i"] % 7]
            o = KINDS[kind][0](ns, np.random.RandomState(9000))
            f = o.fit if kind in ("garch", "gjr") else o.estimate
        g = clone(ns, f, "pickle", max(P, 2) if what == "bound" else P)
        if what == "bound":
            args = {"mes": (0.2,), "absorption": (0.5,), "distress": (0.15, 3, 200, 40), "claims": (3.0, 0.4, 0.02, 4.0, 1.0, 120.0)}.get(kind, ())
            if not close(kind, flat(f(*args)), flat(g(*args))):
                raise Violation(f"the pickled method of {kind} gives {flat(g(*args))[:5]}", f"bound {kind}")
        elif g is not f:
            raise Violation(f"{f} comes back from pickling as {g}", "function")
        ctx.nt()
        return
    impl, params, _ = OPS[case["op"]]
    if case["op"] == "isolation forest" and case["variant"] == "pure":
        raise Discard("the isolation forest needs its extension")
    k = (case["variant"], "result", case["op"], case["k"], case["p"] % params)
    if k not in ctx.cache:
        a = impl.args(np.random.RandomState(7000 + case["k"]))
        ctx.cache[k] = impl.call(ns, impl.make(ns, a, case["p"] % params), a, case["p"] % params)
    x = ctx.cache[k]
    y = clone(ns, x, case["way"], P)
    if not identical(x, y):
        raise Violation(f"{case['op']}: {x} comes back as {y}", f"result {case['op']}")
    for p, q in zip(x, y):
        if hasattr(p, "__dataclass_fields__"):
            if p == p and np.isfinite(flat(p)).all() and not (p == q):
                raise Violation(f"{p} differs from its clone", "equality")
            if repr(p) != repr(q):
                raise Violation(f"{p!r} is shown as {q!r} after cloning", "repr")
    ctx.label(case["op"])
    ctx.nt(case["way"] == "pickle")


FACETS = [Facet("history", history, run_history, "something was cloned and something was computed", 500, 12000, shards=4, tshards=8, variants=("native", "pure")),
          Facet("process", parcel, run_parcel, "the object had a history when it was sent", 80, 1600, shards=2, tshards=4, variants=("native", "pure")),
          Facet("results", result_case, run_result, "a result, function or method went through pickle", 400, 8000, shards=2, tshards=4, variants=("native", "pure"))]
ASSUMPTIONS = ["a shallow copy shares its parts with the original, which is not used after it",
               "the numbers of a fit agree to 1e-6: a clone's arrays may lie differently in memory"]
