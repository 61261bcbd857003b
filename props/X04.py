"""X04: computations running at the same time in several threads of one process give what each gives alone."""
import random
import sys
import threading

import numpy as np
from hypothesis import strategies as st

from props.N02 import flat
from props.X01 import OPS, same
from vf.core import Discard, Facet, HarnessError, Violation
from vf.fresh import fresh

SLOW = ("pin estimate", "ccc fit", "srisk", "lrmes", "dcc of fitted models", "lookup", "dcc fit")


def call(ns, step, args):
    name, _, p = step
    impl = OPS[name][0]
    try:
        return flat(impl.call(ns, impl.make(ns, args, p), args, p))
    except Discard:
        return None


def close(name, x, y):
    if x is None or y is None:
        return x is y
    fit = OPS[name][2]
    return len(x) == len(y) and np.allclose(x, y, rtol=1e-6 if fit else 1e-9, atol=1e-8 if fit else 1e-12, equal_nan=True)


def together(jobs, interval):
    """The results of the jobs run at the same time, one thread each, the interpreter switching between them as often as it can."""
    out, gate = [None] * len(jobs), threading.Barrier(len(jobs))

    def work(i):
        try:
            gate.wait(60)
            out[i] = ("ok", jobs[i]())
        except Violation as e:
            out[i] = ("violation", str(e))
        except BaseException as e:
            out[i] = ("raised", f"{type(e).__name__}: {e}")

    old = sys.getswitchinterval()
    sys.setswitchinterval(interval)
    try:
        ts = [threading.Thread(target=work, args=(i,), daemon=True) for i in range(len(jobs))]
        for t in ts:
            t.start()
        for t in ts:
            t.join(300)
    finally:
        sys.setswitchinterval(old)
    if any(t.is_alive() for t in ts):
        raise Violation("threads wait for one another forever", "deadlock")
    return out


@st.composite
def streams(draw):
    n = draw(st.integers(2, 6))
    kind = draw(st.sampled_from(["mixed", "mixed", "one operation", "one call"]))
    lead = draw(st.sampled_from(sorted(OPS)))

    def step(name=None):
        name = draw(st.sampled_from(sorted(OPS))) if name is None else name
        return [name, draw(st.integers(0, 3)), draw(st.integers(0, OPS[name][1] - 1))]
    first = step(lead)
    out = []
    for _ in range(n):
        out.append([first if kind == "one call" else step(lead if kind == "one operation" else None) for _ in range(draw(st.integers(1, 4)))])
    return {"streams": out, "share": draw(st.booleans()), "interval": draw(st.sampled_from([1e-6, 1e-6, 1e-5, 2e-4])), "variant": draw(st.sampled_from(["native", "native", "native", "pure"])),
            "g": draw(st.integers(0, 2**31 - 1))}


def run_threads(case, ctx):
    v = case["variant"]
    ns = ctx.variant(v)
    if v == "pure":
        case = dict(case, streams=[[s for s in q if s[0] != "isolation forest"] for q in case["streams"]])
    pool = {}

    def arguments(s, fresh_ones):
        if fresh_ones:
            return OPS[s[0]][0].args(np.random.RandomState(4000 + s[1]))
        if (s[0], s[1]) not in pool:
            pool[s[0], s[1]] = arguments(s, True)
        return pool[s[0], s[1]]

    for q in case["streams"]:
        for s in q:
            k = (v, *s)
            if k not in ctx.cache:
                ctx.cache[k] = call(ns, s, arguments(s, True))
    jobs = []
    for q in case["streams"]:
        work = [(s, arguments(s, not case["share"])) for s in q]
        jobs.append(lambda work=work: [call(ns, s, a) for s, a in work])
    np.random.seed(case["g"])
    random.seed(case["g"])
    before = np.random.get_state()[1].copy(), random.getstate()
    out = together(jobs, case["interval"])
    if not np.array_equal(before[0], np.random.get_state()[1]) or before[1] != random.getstate():
        raise Violation("the global random state changed", "global state")
    for q, r in zip(case["streams"], out):
        for i, s in enumerate(q):
            if r[0] != "ok":
                raise Violation(f"{v}: a thread performing {[x[0] for x in q]} next to {[x[0] for y in case['streams'] for x in y]} failed, {r[1]}", f"failed {s[0]}")
            want, got = ctx.cache[(v, *s)], r[1][i]
            if not close(s[0], want, got):
                raise Violation(f"{v} {s}: {None if got is None else got[:6]} next to {[x[0] for y in case['streams'] for x in y]}, {None if want is None else want[:6]} alone", f"differs {s[0]}")
    for (name, k), a in pool.items():
        if not same(a, OPS[name][0].args(np.random.RandomState(4000 + k))):
            raise Violation(f"{v} {name}: arguments shared between threads were changed", f"arguments {name}")
    ctx.label("shared arguments" if case["share"] else "own arguments", f"{len(jobs)} threads")
    ctx.nt(sum(bool(q) for q in case["streams"]) > 1)


# --- the first calls of a process, at the same time ----------------------------------------------------------------
@st.composite
def first_case(draw):
    steps = []
    for _ in range(draw(st.integers(2, 5))):
        n = draw(st.sampled_from([*[x for x in sorted(OPS) if x not in SLOW], "dataset"])) if not steps or draw(st.booleans()) else steps[-1][0]
        steps.append([n, draw(st.integers(0, 1)), draw(st.integers(0, OPS[n][1] - 1)) if n in OPS else 0])
    return {"steps": steps, "interval": draw(st.sampled_from([1e-6, 1e-5])), "variant": draw(st.sampled_from(["native", "native", "pure"]))}


def data(ns):
    d = ns.datasets.StockReturns.stocks_us
    return [float(len(d)), float(d.shape[1]), *map(float, d.sum()), float(d.index.asi8.sum())]


def at_once(ns, steps, interval):
    names = {"dataset": lambda: ns.datasets}
    for s in steps:  # modules are loaded one after the other
        names.get(s[0], lambda: (ns.alg, ns.measures))()
    if any(s[0] not in ("dataset",) for s in steps):
        for m in ("spread", "impact", "lob", "iforest", "mm", "mm1", "mm1sol", "lookup", "lookup1", "merton", "face", "payoff", "fft"):
            if m != "iforest" or any(s[0] == "isolation forest" for s in steps):
                getattr(ns, m)
    jobs = [(lambda: data(ns)) if s[0] == "dataset" else (lambda s=s, a=OPS[s[0]][0].args(np.random.RandomState(5000 + s[1])): call(ns, s, a)) for s in steps]
    return together(jobs, interval)


def run_first(case, ctx):
    v, steps = case["variant"], case["steps"]
    if v == "pure" and any(s[0] == "isolation forest" for s in steps):
        raise Discard("the isolation forest needs its extension")
    path = ctx.variant(v)._path
    got = fresh(v, path, at_once, steps, case["interval"])
    ctx.nt(len({s[0] for s in steps}) < len(steps))
    for s, r in zip(steps, got):
        ctx.label(s[0])
        if r[0] != "ok":
            raise Violation(f"{v} {s} among the first calls {steps} of a process: {r[1]}", f"first {s[0]}")
        k = (v, "first", *s)
        if k not in ctx.cache:
            ((kind, want),) = fresh(v, path, at_once, [s], 0.005)
            if kind != "ok":
                raise HarnessError(f"{s} fails alone: {want}")
            ctx.cache[k] = want
        if s[0] == "dataset":
            if r[1] != ctx.cache[k]:
                raise Violation(f"{v} dataset: another frame when several threads ask first", "first dataset")
        elif not close(s[0], ctx.cache[k], r[1]):
            raise Violation(f"{v} {s}: {r[1][:6]} among the first calls {steps}, {ctx.cache[k][:6]} alone", f"first {s[0]}")


@st.composite
def data_case(draw):
    return {"threads": [draw(st.integers(1, 30)) for _ in range(draw(st.integers(2, 8)))], "interval": draw(st.sampled_from([1e-6, 1e-5, 1e-4])), "write": draw(st.booleans())}


def accesses(ns, counts, interval, write):
    """Frames as the threads of a new process get them, all asking at once and again."""
    ns.datasets

    def work(n):
        out = []
        for _ in range(n):
            d = ns.datasets.StockReturns.stocks_us
            out.append((list(map(str, d.columns)), list(map(str, d.dtypes)), str(d.index.name), str(d.index.dtype), len(d), float(d.to_numpy(float).sum()), int(d.index.asi8.sum())))
            if write:
                d.iloc[:, 0] = 0.0
        return out
    return together([lambda n=n: work(n) for n in counts], interval)


def run_data(case, ctx):
    path = ctx.native._path
    if "data" not in ctx.cache:
        ((_, ctx.cache["data"]),) = fresh("native", path, accesses, [1], 0.005, False)
    want = ctx.cache["data"][0]
    for r in fresh("native", path, accesses, case["threads"], case["interval"], case["write"]):
        if r[0] != "ok":
            raise Violation(f"a thread accessing the data at the same time as others fails, {r[1]}", "dataset fails")
        for x in r[1]:
            if list(x) != list(want):
                raise Violation(f"the frame of one thread is {x}, of a single thread {want}", "dataset differs")
    ctx.nt(sum(case["threads"]) > len(case["threads"]))


FACETS = [Facet("dataset", data_case, run_data, "some thread asks more than once", 80, 1600, shards=2, tshards=4), Facet("threads", streams, run_threads, "two or more threads compute", 400, 8000, shards=6, tshards=8, variants=("native", "pure")),
          Facet("first", first_case, run_first, "two threads perform the same operation as the first of the process", 120, 2000, shards=2, tshards=4, variants=("native", "pure"))]
ASSUMPTIONS = ["each thread has its own model or measure object; arguments may be shared, for reading",
               "modules are imported before the threads start",
               "the warning filters are not judged: the interpreter's own warnings.catch_warnings is documented not to be thread-safe"]
