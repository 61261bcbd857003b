"""X01: calls leave their arguments and the global random state alone, and repeat whatever happens in between."""
import copy
import decimal
import gc
import locale
import os
import random
import sys
import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vf.core import NS, Discard, Facet, Violation
from vf.fresh import fresh

from props.N02 import flat

OPS = {}


def op(name, params=1, fit=False, heavy=False):
    def reg(cls):
        OPS[name] = (cls, params, fit)
        return cls
    return reg


def series(r, n, scale=1.0):
    v, x = 1.0, np.empty(n)
    for t in range(n):
        x[t] = np.sqrt(v) * r.standard_normal()
        v = 0.1 + 0.15 * x[t] ** 2 + 0.75 * v
    return scale * x


@op("garch fit", 2, True)
class _:
    args = staticmethod(lambda r: [series(r, 150)])
    make = staticmethod(lambda ns, a, p: ns.alg.GARCHModel(a[0], zero_mean=bool(p)))
    call = staticmethod(lambda ns, o, a, p: [o.fit(), o.sigma2, o.resids])


@op("gjr fit", 2, True)
class _:
    args = staticmethod(lambda r: [series(r, 150)])
    make = staticmethod(lambda ns, a, p: ns.alg.GJRGARCHModel(a[0], zero_mean=bool(p)))
    call = staticmethod(lambda ns, o, a, p: [o.fit(), o.sigma2, o.resids])


@op("variances", 2)
class _:
    args = staticmethod(lambda r: [series(r, 60), [0.1, 0.2, 0.1, 0.6], np.array([0.1, 0.2, 0.6])])
    make = staticmethod(lambda ns, a, p: None)

    @staticmethod
    def call(ns, o, a, p):
        cls = ns.alg.GJRGARCHModel if p else ns.alg.GARCHModel
        b = cls.variance_bounds(a[0])
        return [b, cls.backcast(a[0]), cls.ewma(a[0], 1.0), cls.compute_variance(a[1] if p else a[2], a[0], 1.0, b), b]


@op("forecast")
class _:
    args = staticmethod(lambda r: [series(r, 30)])
    make = staticmethod(lambda ns, a, p: None)
    call = staticmethod(lambda ns, o, a, p: [ns.alg.GJRGARCHModel.forecast_variance(ns.alg.GJRGARCHModel.Parameters(0.1, 0.1, 0.2, 0.1, 0.6), a[0], 2.0)])


@op("ccc fit", 1, True)
class _:
    args = staticmethod(lambda r: [series(r, 100), series(r, 100)])
    make = staticmethod(lambda ns, a, p: ns.alg.GARCHModel_CCC(*a))
    call = staticmethod(lambda ns, o, a, p: [o.fit()])


@op("dcc fit", 2, True)
class _:
    args = staticmethod(lambda r: [series(r, 100), series(r, 100)])
    make = staticmethod(lambda ns, a, p: (ns.alg.GJRGARCHModel_DCC if p else ns.alg.GARCHModel_DCC)(*a))
    call = staticmethod(lambda ns, o, a, p: [o.fit(), o.conditional_correlations(0.05, 0.9), o.loglikelihood_model([0.1, 0.8])])


@op("dcc of fitted models", 2, True)
class _:
    """The models handed over keep parameters, residuals and variances."""
    args = staticmethod(lambda r: [series(r, 100), series(r, 100)])
    make = staticmethod(lambda ns, a, p: None)

    @staticmethod
    def call(ns, o, a, p):
        U, D = (ns.alg.GJRGARCHModel, ns.alg.GJRGARCHModel_DCC) if p else (ns.alg.GARCHModel, ns.alg.GARCHModel_DCC)
        ms = [U(x) for x in a]
        for m in ms:
            m.fit()
        if not all(m.estimation_success for m in ms):
            raise Discard("margin not converged")
        before = [copy.deepcopy(m.__dict__) for m in ms]
        d = D(*ms)
        out = [d.fit(), d.conditional_correlations(0.05, 0.9)]
        for m, b in zip(ms, before):
            if not same(m.__dict__, b):
                raise Violation(f"fitting {D.__name__} changed a fitted model handed to it", "fitted model")
        return out


@op("lrmes", 3, True)
class _:
    args = staticmethod(lambda r: [series(r, 120, 0.01), series(r, 120, 0.01)])
    make = staticmethod(lambda ns, a, p: ns.measures.LRMES(*a))

    @staticmethod
    def call(ns, o, a, p):
        try:
            return [o.estimate(*[(5, 40, -0.01, 42), (10, 30, -0.05, 7), (3, 50, 0.0, 42)][p])]
        except RuntimeError:
            raise Discard("estimation failed")


@op("srisk", 2, True)
class _:
    args = staticmethod(lambda r: [np.column_stack([series(r, 100, 0.01), series(r, 100, 0.01)]), series(r, 100, 0.01), np.array([1.0, 2.0]), np.array([10.0, 40.0])])
    make = staticmethod(lambda ns, a, p: ns.measures.SRISK(*a))

    @staticmethod
    def call(ns, o, a, p):
        try:
            return [o.estimate(0.08, 4, 30, -0.01, 5, aggregate_srisk=bool(p))]
        except RuntimeError:
            raise Discard("estimation failed")


@op("absorption ratio", 3)
class _:
    args = staticmethod(lambda r: [r.standard_normal((6, 40))])
    make = staticmethod(lambda ns, a, p: ns.measures.AbsorptionRatio(a[0]))
    call = staticmethod(lambda ns, o, a, p: [o.estimate((0.2, 0.5, 1.0)[p])])


@op("mes", 3)
class _:
    args = staticmethod(lambda r: [r.standard_normal(60), r.standard_normal(60)])
    make = staticmethod(lambda ns, a, p: ns.measures.MarginalExpectedShortfall(*a))
    call = staticmethod(lambda ns, o, a, p: [o.estimate((0.05, 0.2, 0.5)[p])])


@op("ses")
class _:
    args = staticmethod(lambda r: [r.rand(12), r.rand(12) * 9, r.rand(12), 0.3, 4.0])
    make = staticmethod(lambda ns, a, p: ns.measures.SystemicExpectedShortfall(*a))
    call = staticmethod(lambda ns, o, a, p: [o.estimate()])


@op("distress premium", 3)
class _:
    args = staticmethod(lambda r: [r.uniform(0.01, 0.3, 4), np.full((4, 4), 0.3) + 0.7 * np.eye(4)])
    make = staticmethod(lambda ns, a, p: ns.measures.DistressInsurancePremium(*a))
    call = staticmethod(lambda ns, o, a, p: [o.estimate(*[(0.15, 0, 500, 40), (0.1, 9, 500, 40), (0.15, 0, 300, 40)][p])])


@op("pin", 2)
class _:
    args = staticmethod(lambda r: [r.poisson(50, 8), r.poisson(40, 8)])
    make = staticmethod(lambda ns, a, p: ns.measures.PIN(*a))
    call = staticmethod(lambda ns, o, a, p: [o.loglikelihood_EHO2010([0.3, 0.5, 40, 35, 20]), o.loglikelihood_LK2011(np.array([0.3, 0.5, 40, 35, 20]))])


@op("pin estimate", 2, True)
class _:
    args = staticmethod(lambda r: [r.poisson(50, 3) + 40 * (r.rand(3) < 0.4), r.poisson(40, 3)])
    make = staticmethod(lambda ns, a, p: ns.measures.PIN(*a))
    call = staticmethod(lambda ns, o, a, p: [o.estimate(("EHO2010", "LK2011")[p])])


@op("contingent claims")
class _:
    args = staticmethod(lambda r: [float(r.uniform(1, 5)), float(r.uniform(0.2, 0.6)), 0.02, float(r.uniform(1, 6)), 1.0, 120.0])
    make = staticmethod(lambda ns, a, p: ns.measures.ContingentClaimAnalysis())
    call = staticmethod(lambda ns, o, a, p: list(o.estimate(*a)))


@op("option prices")
class _:
    args = staticmethod(lambda r: [r.uniform(50, 150, 5), r.uniform(50, 150, 5), r.rand(5) * 0.1, r.uniform(1, 3, 5), r.uniform(0.1, 0.5, 5), r.rand(5) * 0.05])
    make = staticmethod(lambda ns, a, p: None)
    call = staticmethod(lambda ns, o, a, p: list(ns.measures.blsprice(*a)))


@op("small measures")
class _:
    args = staticmethod(lambda r: [r.standard_normal(20), r.standard_normal(20) * 100])
    make = staticmethod(lambda ns, a, p: None)
    call = staticmethod(lambda ns, o, a, p: [ns.measures.kyle_lambda(*a), ns.measures.z_score(0.1, 0.2, a[0])])


@op("spreads", 2)
class _:
    args = staticmethod(lambda r: [r.uniform(99, 101, 9), r.uniform(99, 101, 9), r.uniform(99, 101, 9), r.randint(0, 50, 9).astype(float), np.sign(r.standard_normal(9)), r.uniform(98, 99, 9),
                                   np.zeros(9)])
    make = staticmethod(lambda ns, a, p: None)

    @staticmethod
    def call(ns, o, a, p):
        x, l, m, v, d, b, z = a
        pct = bool(p)
        return [ns.spread.quoted_spread(b, m, pct)] + [f for q in (None, d) for w in (v, z) for f in
                (ns.spread.effective_spread(x, m, w, q, pct), ns.spread.realized_spread(x, l, m, w, q, pct), ns.impact.simple_price_impact(x, l, m, w, q, pct))]


@op("order book")
class _:
    args = staticmethod(lambda r: [r.uniform(1, 9, (7, 5)), r.uniform(1, 9, (7, 5)), 100 - np.cumsum(r.uniform(0.1, 1, (7, 5)), axis=1), r.uniform(105, 110, 7), r.uniform(90, 95, 7),
                                   np.where(r.rand(7) < 0.2, np.nan, 100.0)])
    make = staticmethod(lambda ns, a, p: None)
    call = staticmethod(lambda ns, o, a, p: [ns.lob.DGGW_ask_slope(a[1], a[3], a[5]), ns.lob.DGGW_bid_slope(a[0], a[4], a[5]), ns.lob.DGGW_bid_side_slope_difference(a[0], a[2]),
                                             ns.lob.DGGW_ask_side_slope_difference(a[1], a[2]), ns.lob.DGGW_scaled_depth_difference(a[0], a[1])])


@op("isolation forest", 3)
class _:
    args = staticmethod(lambda r: [pd.DataFrame({"x": np.where(r.rand(15) < 0.1, np.nan, r.standard_normal(15)), "t": r.choice(["a", "bb", ""], 15).astype(object), "y": r.randint(0, 4, 15),
                                                 "b": r.rand(15) < 0.5}, index=r.permutation(15)), ["y"]])
    make = staticmethod(lambda ns, a, p: None)
    call = staticmethod(lambda ns, o, a, p: [ns.iforest.anomaly_scores(a[0], (5, 12, 5)[p], (8, 40, 8)[p], a[1] if p == 1 else None, (3, 3, 1021)[p])])


@op("modified merton", 3)
class _:
    args = staticmethod(lambda r: [np.sort(r.uniform(-1, 1, 3)), [0.01, 3.0, 1.0, 1.0, 0.75, 0.5, 0.65, 0.2, 0.005, 0.002, 0.5], r.standard_normal((40, 9))])
    make = staticmethod(lambda ns, a, p: None)
    call = staticmethod(lambda ns, o, a, p: list(ns.mm.mod_merton_computation(a[0], a[1], 3, 40, *[(a[2],), (), ()][p], **[{}, {"random_seed": 5}, {}][p])))


@op("single cohort", 3)
class _:
    args = staticmethod(lambda r: [np.sort(r.uniform(-1, 1, 3)), [0.01, 3.0, 1.0, 2.0, 0.75, 0.5, 0.65, 0.2, 0.005, 0.002], r.standard_normal((40, 3))])
    make = staticmethod(lambda ns, a, p: None)
    call = staticmethod(lambda ns, o, a, p: list(ns.mm1.mod_single_cohort_computation(a[0], a[1], 3, 40, *[(a[2],), (), ()][p], **[{}, {"random_seed": 5}, {}][p])))


@op("single cohort solution", 2)
class _:
    args = staticmethod(lambda r: [np.array([r.uniform(-1, 1), 1.1]), [0.01, 3.0, 1.0, 2.0, 0.75, 0.5, 0.65, 0.2, 0.005, 0.002], [r.uniform(-1, 1), 0.9]])
    make = staticmethod(lambda ns, a, p: None)
    call = staticmethod(lambda ns, o, a, p: [ns.mm1sol.mod_single_cohort_solution(a[2] if p else a[0], a[1], 3, 40, 0.1, 0.3)])


@op("merton parts")
class _:
    args = staticmethod(lambda r: [r.standard_normal(20), np.array([1.2, 0.2]), [0.9, 0.3]])
    make = staticmethod(lambda ns, a, p: None)
    call = staticmethod(lambda ns, o, a, p: [ns.fft.fftsmooth(a[0], 4), ns.payoff.loan_payoff(1.1, a[0], 0.1, 0.4, 0.2, 5.0), ns.face.find_face_value_indiv(0.02, 1.0, 0.2, 0.2, 5.0, 0.01, 0.0),
                                             list(ns.merton.merton_solution(a[1], 0.4, 1.0, 0.01, 0.0, 5.0, 0.5)), list(ns.merton.merton_solution(a[2], 0.4, 1.0, 0.01, 0.0, 5.0, 0.5))])


@op("lookup", 2)
class _:
    args = staticmethod(lambda r: [np.array(g) for g in np.meshgrid([-0.5, 0.5], [0.2], [0.01, 0.03], [0.9, 1.1], indexing="ij")])
    make = staticmethod(lambda ns, a, p: None)
    call = staticmethod(lambda ns, o, a, p: list((ns.lookup1.mod_single_merton_create_lookup if p else ns.lookup.mod_merton_create_lookup)(
        0.005, 0.002, 3.0, 1.0, 0.7, 0.5, 0.65, a[0], a[2], a[3], a[1], 3, 40)))


NAMES = sorted(OPS)


def same(x, y):
    """Bit-identical values, same types."""
    if type(x) is not type(y):
        return False
    if isinstance(x, dict):
        return x.keys() == y.keys() and all(same(x[k], y[k]) for k in x)
    if isinstance(x, (list, tuple)):
        return len(x) == len(y) and all(same(a, b) for a, b in zip(x, y))
    if isinstance(x, np.ndarray):
        return x.dtype == y.dtype and x.shape == y.shape and x.flags.writeable == y.flags.writeable and np.array_equal(x, y, equal_nan=x.dtype.kind == "f")
    if isinstance(x, pd.DataFrame):
        return x.columns.equals(y.columns) and x.index.equals(y.index) and x.index.name == y.index.name and list(x.dtypes) == list(y.dtypes) and x.equals(y)
    if hasattr(x, "__dataclass_fields__"):
        return same(vars(x), vars(y))
    return x == y or (x != x and y != y)


def spoil(x):
    """The caller does as it likes with returned arrays."""
    for y in x:
        if isinstance(y, np.ndarray) and y.flags.writeable and y.dtype.kind == "f":
            y[...] = -3.3e33
        elif isinstance(y, pd.DataFrame):
            y.iloc[:, :] = -1.0


PANDAS_OPTIONS = ("mode.copy_on_write", "mode.chained_assignment", "display.precision", "display.max_rows", "compute.use_numexpr", "mode.use_inf_as_na", "future.infer_string")


def option(k):
    try:
        return pd.get_option(k)
    except KeyError:
        return None


def global_state():
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        opts = [option(k) for k in PANDAS_OPTIONS]
    return (np.random.get_state(), random.getstate(), np.geterr(), list(warnings.filters), repr(decimal.getcontext()).split("flags=")[0], repr(decimal.DefaultContext).split("flags=")[0], np.get_printoptions(), opts,
            locale.setlocale(locale.LC_ALL), dict(os.environ), list(sys.path), os.getcwd(), sys.getrecursionlimit(), np.geterrcall(), gc.isenabled())


@st.composite
def history(draw):
    steps = []
    for _ in range(draw(st.integers(2, 12))):
        n = draw(st.sampled_from(NAMES))
        steps.append([n, draw(st.integers(0, 2)), draw(st.integers(0, OPS[n][1] - 1)), draw(st.booleans()), draw(st.integers(0, 2**31 - 1))])
    for _ in range(draw(st.integers(1, 4))):  # come back to an earlier call
        s = draw(st.sampled_from(steps))
        steps.append([*s[:3], draw(st.booleans()), draw(st.integers(0, 2**31 - 1))])
    return {"steps": steps, "variant": draw(st.sampled_from(["native", "native", "native", "pure"])), "spoil": draw(st.booleans())}


def run(case, ctx):
    ns, v = ctx.variant(case["variant"]), case["variant"]
    if v == "pure" and any(s[0] == "isolation forest" for s in case["steps"]):
        raise Discard("the isolation forest needs its extension")
    pool, objs, seen, repeats = {}, {}, set(), 0
    for name, k, p, fresh, g in case["steps"]:
        impl, _, fit = OPS[name]
        if (name, k) not in pool:
            a = impl.args(np.random.RandomState(1000 + k))
            pool[name, k] = (a, copy.deepcopy(a))
        args, kept = pool[name, k]
        reuse = (name, k, p if name in ("garch fit", "gjr fit", "dcc fit") else 0)
        np.random.seed(g)
        random.seed(g)
        before = global_state()
        try:
            if fresh or reuse not in objs:
                objs[reuse] = impl.make(ns, args, p)
            out = impl.call(ns, objs[reuse], args, p)
        except Discard:
            ctx.label("estimation failed")
            continue
        after = global_state()
        changed = [w for i, w in enumerate(WHAT) if not states_equal_at(i, before, after)]
        if changed:
            raise Violation(f"{v} {name}: the call changed {', '.join(changed)}", f"global state {name}")
        if not same(args, kept):
            raise Violation(f"{v} {name}: an argument changed from {kept} to {args}", f"argument {name}")
        got = np.array(flat(out))
        if case["spoil"] and not fit:
            spoil(out)
            if not same(args, kept):
                raise Violation(f"{v} {name}: a result shares memory with an argument", f"alias {name}")
        key = (v, name, k, p)
        ctx.label(name)
        want = ctx.cache.setdefault(key, got)
        if got.shape != want.shape or not np.allclose(got, want, rtol=1e-5 if fit else 1e-9, atol=1e-7 if fit else 1e-12, equal_nan=True):
            raise Violation(f"{v} {name}: {got[:6]} in this history, {want[:6]} before", f"repeat {name}")
        repeats += key in seen
        seen.add(key)
    ctx.nt(repeats > 0 and len(seen) > 1)


@st.composite
def first_case(draw):
    steps = []
    for _ in range(draw(st.integers(2, 8))):
        n = draw(st.sampled_from(NAMES))
        k = draw(st.integers(0, 4))
        steps += [[n, k, p] for p in draw(st.lists(st.integers(0, OPS[n][1] - 1), min_size=1, max_size=2))]
        if draw(st.integers(0, 3)) == 0:  # the same operation on other numbers of the same shape
            steps.append([n, k + 1, steps[-1][2]])
    if draw(st.booleans()):
        steps = draw(st.permutations(steps))
    return {"steps": steps, "variant": draw(st.sampled_from(["native", "native", "native", "pure"])), "alone": draw(st.lists(st.integers(0, 30), min_size=1, max_size=3))}


def perform(ns, steps):
    out = []
    for name, k, p in steps:
        impl = OPS[name][0]
        args = impl.args(np.random.RandomState(2000 + k))
        try:
            out.append(flat(impl.call(ns, impl.make(ns, args, p), args, p)))
        except Discard:
            out.append(None)
    return out


def run_first(case, ctx):
    """Whatever was called before in the process, the results are those of a process that calls nothing else."""
    v, steps = case["variant"], case["steps"]
    if v == "pure" and any(s[0] == "isolation forest" for s in steps):
        raise Discard("the isolation forest needs its extension")
    path = ctx.variant(v)._path
    got = fresh(v, path, perform, steps)
    for i in sorted({i % len(steps) for i in case["alone"]}):
        name = steps[i][0]
        ctx.label(name)
        ctx.nt(i > 0)
        (want,) = fresh(v, path, perform, steps[i:i + 1])
        if (got[i] is None) != (want is None):
            raise Violation(f"{v} {steps[i]}: fails {'alone' if want is None else 'after other calls'} only", f"first {name}")
        fit = OPS[name][2]
        if want is not None and (len(got[i]) != len(want) or not np.allclose(got[i], want, rtol=1e-6 if fit else 1e-9, atol=1e-8 if fit else 1e-12, equal_nan=True)):
            raise Violation(f"{v} {steps[i]}: {got[i][:6]} after {steps[:i]}, {want[:6]} in a process of its own", f"first {name}")


WHAT = ("numpy's random state", "the random state", "numpy's error handling", "the warning filters", "the decimal context", "the default decimal context", "numpy's print options", "pandas' options",
        "the locale", "the environment", "sys.path", "the working directory", "the recursion limit", "numpy's error callback", "garbage collection")


@st.composite
def import_case(draw):
    return {"modules": draw(st.lists(st.sampled_from(sorted(NS.MODS)), min_size=1, max_size=8, unique=True)), "variant": draw(st.sampled_from(["native", "native", "pure"])), "g": draw(st.integers(0, 2**31 - 1)),
            "over": draw(st.sampled_from(["ignore", "raise", "warn"])), "prec": draw(st.integers(5, 40))}


def load(ns, case):
    """The settings around the import of the modules, in a process that has not seen them."""
    np.random.seed(case["g"])
    random.seed(case["g"])
    np.seterr(over=case["over"])
    decimal.getcontext().prec = case["prec"]
    before = global_state()
    for m in case["modules"]:
        getattr(ns, m)
    after = global_state()
    return [w for i, w in enumerate(WHAT) if not states_equal_at(i, before, after)]


def states_equal_at(i, a, b):
    return a[0][0] == b[0][0] and np.array_equal(a[0][1], b[0][1]) and a[0][2:] == b[0][2:] if i == 0 else a[i] == b[i]


def run_import(case, ctx):
    v = case["variant"]
    if v == "pure" and "iforest" in case["modules"]:
        raise Discard("the isolation forest needs its extension")
    ctx.nt()
    changed = fresh(v, ctx.variant(v)._path, load, case)
    if changed:
        raise Violation(f"{v}: importing {case['modules']} changed {', '.join(changed)}", f"import {changed[0]}")


FACETS = [Facet("import", import_case, run_import, "modules are imported", 80, 800, shards=2, tshards=2, variants=("native", "pure")),
          Facet("history", history, run, "a call is repeated after a different call", 600, 12000, shards=8, tshards=8, variants=("native", "pure")),
          Facet("first", first_case, run_first, "a call that follows others is compared with itself as the first of a process", 320, 8000, shards=8, tshards=8, variants=("native", "pure"))]
ASSUMPTIONS = ["estimators given an unfitted model fit it, as documented; only fitted models count as arguments to be left alone",
               "repeated results agree to 1e-9 (estimations 1e-5): the alignment of buffers may change the order of floating-point sums",
               "objects kept between calls are used again with other parameters"]
