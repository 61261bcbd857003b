"""N04: computations leave nothing behind.  Repeated calls, answered or refused, are watched from outside: the memory blocks of
the interpreter, the bytes handed out by the C allocator, the reference counts of the arguments, open files and threads.
Caches fill up and stop growing; a leak takes something at every call, window after window."""
import ctypes
import gc
import os
import sys
import time

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from props.M03 import corr_case, dcc, margins
from props.X01 import OPS
from vf.core import Discard, Facet, HarnessError, Violation
from vf.garchgen import LAM, any_series, bounds_spec, ex, make_bounds, model_cls, var_params
from vf.gen import SEEDS, logfl
from vf.layouts import LAYOUTS, make
from vf.lrmesgen import fitted, inject

PANDAS = 12  # selecting columns of a frame leaves a few blocks behind at every call, inside pandas


class _Mallinfo(ctypes.Structure):
    _fields_ = [(k, ctypes.c_size_t) for k in ("arena", "ordblks", "smblks", "hblks", "hblkhd", "usmblks", "fsmblks", "uordblks", "fordblks", "keepcost")]


_libc = ctypes.CDLL(None)
_libc.mallinfo2.restype = _Mallinfo


def held():
    gc.collect()
    m = _libc.mallinfo2()
    return sys.getallocatedblocks(), m.uordblks + m.hblkhd


def handles():
    return len(os.listdir("/proc/self/fd")), len(os.listdir("/proc/self/task"))


def parts(args):
    """The objects of the caller: the arguments and what they hold."""
    out = [a for a in args if not isinstance(a, (int, float, str, bool, type(None)))]
    return out + [x for a in out if isinstance(a, (list, tuple)) for x in a if isinstance(x, (np.ndarray, list))]


def counts(objs):
    return [sys.getrefcount(o) for o in objs]


def watch(f, args, what, blocks=0.0, limit=25.0, windows=80):
    """Call f over and over until a window of calls leaves nothing behind; what never stops growing is a leak."""
    refused = False

    def go(n):
        nonlocal refused
        for _ in range(n):
            try:
                f()
            except Discard:
                raise
            except (Violation, HarnessError):
                raise
            except Exception:
                refused = True

    t = time.monotonic()
    go(2)
    n = int(max(4, min(40, 0.05 / max((time.monotonic() - t) / 2, 1e-6))))
    objs = parts(args)
    gc.collect()
    gc.freeze()
    try:
        refs, fds = counts(objs), handles()
        b0, c0 = held()
        go(n)
        quietb = quietc = False
        hist = []
        for w in range(windows):
            b1, c1 = held()
            hist.append(((b1 - b0) / n, (c1 - c0) / n))
            quietb |= b1 - b0 < (blocks + 0.75) * n
            quietc |= c1 - c0 < 12 * n
            now = counts(objs)
            for o, x, y in zip(objs, refs, now):
                if abs(y - x) > max(2, n // 2):
                    raise Violation(f"{what}: the reference count of a {type(o).__name__} went from {x} to {y} over {n * (w + 1)} calls", f"references {what}")
            if quietb and quietc:
                break
            if time.monotonic() - t > limit and w >= 12:
                break
            b0, c0 = held()
            go(n)
        h = handles()
        if any(y - x > n // 2 for x, y in zip(fds, h)):
            raise Violation(f"{what}: open files and threads went from {fds} to {h}", f"handles {what}")
        # slowly filling caches grow less and less
        for k, quiet, name in ((0, quietb, "blocks"), (1, quietc, "bytes")):
            if not quiet:
                first, last = np.median([r[k] for r in hist[1:5]]), np.median([r[k] for r in hist[-4:]])
                if last > 0.6 * first:
                    raise Violation(f"{what}: every call leaves {last:.1f} {name} behind, after {n * len(hist)} calls still", f"{name} {what}")
    finally:
        gc.unfreeze()
    return refused


# --- every operation --------------------------------------------------------------------------------------------
@st.composite
def op_case(draw):
    n = draw(st.sampled_from([*sorted(OPS), "dataset"]))
    return {"op": n, "k": draw(st.integers(0, 9)), "p": draw(st.integers(0, OPS[n][1] - 1 if n in OPS else 0)), "keep": draw(st.booleans()), "variant": draw(st.sampled_from(["native", "native", "pure"]))}


def run_op(case, ctx):
    name, p = case["op"], case["p"]
    if case["variant"] == "pure" and name == "isolation forest":
        raise Discard("the isolation forest needs its extension")
    ns = ctx.variant(case["variant"])
    if name == "dataset":
        ctx.nt()
        watch(lambda: ns.datasets.StockReturns.stocks_us, [], name, PANDAS)
        return
    impl = OPS[name][0]
    args = impl.args(np.random.RandomState(3000 + case["k"]))
    one = impl.make(ns, args, p)
    ctx.label(name)
    impl.call(ns, one, args, p)
    ctx.nt()
    watch((lambda: impl.call(ns, one, args, p)) if case["keep"] else (lambda: impl.call(ns, impl.make(ns, args, p), args, p)), args, name,
          PANDAS if name == "isolation forest" else 0)


# --- the functions with compiled code ---------------------------------------------------------------------------
@st.composite
def func_case(draw):
    kind = draw(st.sampled_from(["garch", "gjr"]))
    return {"kind": kind, "resids": draw(any_series(1, 400)), "params": draw(var_params(kind)), "bc": draw(logfl(1e-8, 1e4)), "bounds": draw(bounds_spec()), "lam": draw(LAM),
            "how": draw(st.sampled_from(LAYOUTS)), "howb": draw(st.sampled_from(LAYOUTS)), "k": draw(st.integers(0, 9)),
            "what": draw(st.sampled_from(["variance", "variance", "ewma", "check", "params", "text", "rows", "deep", "objects"])), "array": draw(st.booleans())}


def run_func(case, ctx):
    e = ex(case["resids"])
    if not np.any(e):
        raise Discard("a series of zeros")
    A = model_cls(ctx.native, case["kind"])
    r, _ = make(e, case["how"])
    b, _ = make(make_bounds(case["bounds"], e), case["howb"])
    p = np.array(case["params"]) if case["array"] else list(case["params"])
    bc, k, what = case["bc"], case["k"], case["what"]
    ctx.label(what)
    ctx.nt(len(e) > 1)
    if what == "variance":
        watch(lambda: A.compute_variance(p, r, bc, b), [p, r, b], f"{case['kind']} variances")
    elif what == "ewma":
        watch(lambda: (A.ewma(r, bc, case["lam"]), A.variance_bounds(r), A.backcast(r)), [r], "ewma")
    elif what == "check":
        q = b[0]
        watch(lambda: A.bounds_check(bc, q), [b, q], "bounds check")
    else:
        p = {"params": lambda: (list(p) * 3)[:k], "text": lambda: [*list(p)[:-1], "x"], "objects": lambda: [*list(p)[:-1], None]}.get(what, lambda: p)()
        b = {"rows": lambda: b[: min(k, len(e) - 1)], "deep": lambda: np.stack([b, b])}.get(what, lambda: b)()
        if watch(lambda: A.compute_variance(p, r, bc, b), [p, r, b], f"{case['kind']} variances, {what}"):
            ctx.label("refused")


def run_corr(case, ctx):
    z1, z2, s1, s2 = margins(case)
    a, b = case["ab"]
    ctx.nt(len(z1) > 3)
    d = dcc(ctx.native, case["gjr"], z1 * np.sqrt(s1), s1, z2 * np.sqrt(s2), s2)
    watch(lambda: d.conditional_correlations(a, b), [m.resids for m in (d.model1, d.model2)], "correlations")
    watch(lambda: d.loglikelihood_model([a, b]), [m.resids for m in (d.model1, d.model2)], "correlation likelihood")


@st.composite
def path_case(draw):
    return {"fit": draw(fitted()), "h": draw(st.integers(1, 200)), "S": draw(st.integers(1, 30)), "C": draw(st.sampled_from([-0.3, -0.05, 0.0, 0.1, 1e9])), "seed": draw(st.integers(0, 10**6))}


def run_path(case, ctx):
    n, _ = inject(ctx.native, case["fit"])
    ctx.nt(case["h"] > 1)
    watch(lambda: n.estimate(case["h"], case["S"], case["C"], case["seed"]), [], "long-run shortfall")


# --- the forest ---------------------------------------------------------------------------------------------------
@st.composite
def forest_case(draw):
    return {"rows": draw(st.sampled_from([150, 150, 200, 400, 1, 40])), "num": draw(st.integers(0, 3)), "text": draw(st.integers(0, 2)), "trees": draw(st.integers(1, 20)),
            "size": draw(st.sampled_from([3, 16, 64, 256])), "seed": draw(SEEDS), "full": draw(st.booleans()), "bad": draw(st.sampled_from(["no", "no", "no", "trees", "tree", "empty", "column", "seed"]))}


def run_forest(case, ctx):
    r = np.random.RandomState(case["seed"])
    n = case["rows"]
    d = {f"n{i}": r.standard_normal(n) for i in range(case["num"])}
    d |= {f"t{i}": r.choice(["abc", "xyz"] if case["full"] else ["", "b", "a longer text than the others"], n).astype(object) for i in range(case["text"])}
    bad = case["bad"]
    if bad == "empty" or not d:
        d, bad = {}, "empty"
    f = pd.DataFrame(d, index=range(n))
    kw = {"forest_size": case["trees"], "tree_size": case["size"], "random_seed": case["seed"] % 10**6}
    kw |= {"trees": {"forest_size": 0}, "tree": {"tree_size": -1}, "column": {"exclude_cols": ["missing"]}, "seed": {"random_seed": 2**80}}.get(bad, {})
    ctx.nt(n > 1)
    ctx.label(bad)
    watch(lambda: ctx.native.iforest.anomaly_scores(f, **kw), [f], "isolation forest" + ("" if bad == "no" else f", {bad}"), PANDAS)


FACETS = [Facet("operations", op_case, run_op, "the operation answers", 240, 3000, shards=8, tshards=8, variants=("native", "pure")),
          Facet("functions", func_case, run_func, "more than one residual", 400, 8000, shards=4, tshards=8),
          Facet("correlations", corr_case, run_corr, "more than 3 days", 120, 2000, shards=2, tshards=4),
          Facet("paths", path_case, run_path, "more than one step", 120, 2000, shards=2, tshards=4),
          Facet("forest", forest_case, run_forest, "more than one row", 160, 3000, shards=4, tshards=4)]
ASSUMPTIONS = ["memory is judged by growth per call that does not die down over successive windows of calls (caches of any kind may fill up first)",
               f"at most {PANDAS} interpreter blocks per call of the isolation forest are the doing of pandas, which leaves some behind when columns are selected"]
