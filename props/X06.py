"""X06: a call that fails or is interrupted leaves nothing behind."""
import ast
import copy
import os
import random
import sys
import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from props.N02 import flat
from props.X01 import OPS, WHAT, global_state, same, states_equal_at
from vf.core import Discard, Facet, HarnessError, Violation
from vf.fresh import fresh


class Fault(Exception):
    """What the injected failures raise when they are not interruptions."""


FAULTS = {"interrupt": KeyboardInterrupt, "memory": MemoryError, "other": Fault, "arithmetic": FloatingPointError}
HEAVY = ("lookup",)


class DATA:
    args = staticmethod(lambda r: [])
    make = staticmethod(lambda ns, a, p: None)

    @staticmethod
    def call(ns, o, a, p):
        d = ns.datasets.StockReturns.stocks_us
        return [len(d), d.shape[1], d.sum().to_numpy(), d.index.asi8.sum() if p == 0 else d.index.year.to_numpy().sum()]


class WIDE:
    args = staticmethod(lambda r: [r.standard_normal((127, 40))])
    make = staticmethod(lambda ns, a, p: ns.measures.AbsorptionRatio(a[0]))
    call = staticmethod(lambda ns, o, a, p: [o.estimate((0.07, 0.2, 0.93)[p]), np.sort(o.eigvals)[-30:]])


CALLS = dict({n: v for n, v in OPS.items() if n not in HEAVY}, dataset=(DATA, 2, False), **{"many assets": (WIDE, 3, False)})
NAMES = sorted(CALLS)


def watch(path, on):
    """A tracer that calls on((file, line)) before each line of the package is executed."""
    root = os.path.join(path, "frds") + os.sep
    inside = {}

    def local(frame, event, arg):
        if event == "line":
            on((frame.f_code.co_filename[len(root):], frame.f_lineno))
        return local

    def trace(frame, event, arg):
        f = frame.f_code.co_filename
        if f not in inside:
            inside[f] = f.startswith(root)
        return local if inside[f] else None
    return trace


def guarded(root, file):
    """Lines where no interruption arrives, or none can be expected to be cleaned up after: the headers of with and try (executed once more on leaving, when the
    interpreter itself lets nothing in), the code that cleans up, and the insides of context managers."""
    out = set()
    for n in ast.walk(ast.parse(open(os.path.join(root, file), encoding="utf-8").read())):
        if isinstance(n, (ast.With, ast.AsyncWith)):
            out |= set(range(n.lineno, n.body[0].lineno)) | {n.lineno}
        elif isinstance(n, ast.Try):
            out.add(n.lineno)
            for x in n.finalbody:
                out |= set(range(x.lineno, x.end_lineno + 1))
        elif isinstance(n, ast.FunctionDef) and (n.name in ("__enter__", "__exit__") or any("contextmanager" in ast.unparse(d) for d in n.decorator_list)):
            out |= set(range(n.lineno, n.end_lineno + 1))
    return out


def load(ns):
    for m in ("alg", "measures", "datasets", "spread", "impact", "lob", "mm", "mm1", "mm1sol", "lookup", "lookup1", "merton", "face", "payoff", "fft"):
        getattr(ns, m)
    if ns._variant == "native":
        ns.iforest


def arguments(step):
    return CALLS[step[0]][0].args(np.random.RandomState(6000 + step[1]))


def attempt(ns, step, obj, args):
    try:
        return flat(CALLS[step[0]][0].call(ns, obj, args, step[2]))
    except Discard:
        return None


def profile(ns, step, path):
    """How often each line of the package runs in this call, in the order of first visits, and which of them only the first time in a process."""
    load(ns)
    args = arguments(step)
    impl = CALLS[step[0]][0]
    rounds = []
    for _ in range(2):
        visits = {}

        def on(line):
            visits[line] = visits.get(line, 0) + 1
        obj = impl.make(ns, args, step[2])
        sys.settrace(watch(path, on))
        try:
            attempt(ns, step, obj, args)
        finally:
            sys.settrace(None)
        rounds.append(visits)
    root = os.path.join(path, "frds")
    off = {f: guarded(root, f) for f in {a[0] for a in rounds[0]}}
    lines = [x for x in rounds[0].items() if x[0][1] not in off[x[0][0]]]
    return lines, [x for x in lines if x[0] not in rounds[1]]


def alone(ns, step):
    load(ns)
    args = arguments(step)
    return attempt(ns, step, CALLS[step[0]][0].make(ns, args, step[2]), args)


def disturbed(ns, case, lines, path):
    """The call broken off before the chosen visits of lines, each time made again, on the same object or the next."""
    load(ns)
    step = case["step"]
    impl = CALLS[step[0]][0]
    args = arguments(step)
    kept = copy.deepcopy(args)
    out = []
    obj = None
    for n, (line, visit, again) in enumerate(lines):
        if obj is None or not case["keep"]:
            obj = impl.make(ns, args, step[2])
        left = [visit]

        def on(at):
            if at == line:
                left[0] -= 1
                if left[0] == 0:
                    raise FAULTS[case["fault"]]("injected")
        np.random.seed(case["g"] + n)
        random.seed(case["g"] + n)
        before = global_state()
        sys.settrace(watch(path, on))
        try:
            attempt(ns, step, obj, args)
            stopped = False
        except tuple(FAULTS.values()):
            stopped = True
        except Exception as e:  # turned into another one on the way
            stopped = type(e).__name__
        finally:
            sys.settrace(None)
        after = global_state()
        changed = [w for i, w in enumerate(WHAT) if not states_equal_at(i, before, after)]
        if changed:
            raise Violation(f"{step}: {', '.join(changed)} changed by a call broken off before {line}, visit {visit}", f"settings {step[0]}")
        if not same(args, kept):
            raise Violation(f"{step}: an argument is {args} after the call was broken off before {line}, visit {visit}; it was {kept}", f"argument {step[0]}")
        if again or n == len(lines) - 1:
            out.append((stopped, attempt(ns, step, obj, args)))
        else:
            out.append((stopped, "not made"))
    others = [alone(ns, s) for s in case["others"]]
    return out, others, attempt(ns, step, impl.make(ns, arguments(step), step[2]), args)


def close(name, x, y):
    if x is None or y is None:
        return x is y
    fit = CALLS[name][2]
    return len(x) == len(y) and np.allclose(x, y, rtol=1e-6 if fit else 1e-9, atol=1e-8 if fit else 1e-12, equal_nan=True)


def a_step(draw, names=NAMES):
    n = draw(st.sampled_from(names))
    return [n, draw(st.integers(0, 2)), draw(st.integers(0, CALLS[n][1] - 1))]


@st.composite
def broken_case(draw):
    step = a_step(draw)
    return {"step": step, "where": draw(st.lists(st.tuples(st.integers(0, 2**31 - 1), st.sampled_from(["last", "first", "any"]), st.sampled_from([True, True, True, False])), min_size=1, max_size=4 if CALLS[step[0]][2] else 16)),
            "fault": draw(st.sampled_from(sorted(FAULTS))), "keep": draw(st.booleans()),
            "others": [a_step(draw) if draw(st.booleans()) else [step[0], draw(st.integers(0, 2)), draw(st.integers(0, CALLS[step[0]][1] - 1))] for _ in range(draw(st.integers(0, 2)))],
            "variant": draw(st.sampled_from(["native", "native", "pure"])), "g": draw(st.integers(0, 2**31 - 100))}


def wanted(v, path, step, ctx):
    k = (v, "alone", *step)
    if k not in ctx.cache:
        ctx.cache[k] = fresh(v, path, alone, step)
    return ctx.cache[k]


def run_broken(case, ctx):
    v, step = case["variant"], case["step"]
    path = ctx.variant(v)._path
    if v == "pure" and "isolation forest" in [s[0] for s in [step, *case["others"]]]:
        raise Discard("the isolation forest needs its extension")
    k = (v, "profile", *step)
    if k not in ctx.cache:
        ctx.cache[k] = fresh(v, path, profile, step, path)
    lines, once = ctx.cache[k]
    if not lines:
        raise Discard("no line of the package runs in this call")
    chosen = []
    for i, visit, again in case["where"]:
        r = np.random.RandomState(i)  # evenly over the lines
        few = once if once and not chosen and r.randint(2) else lines
        line, n = few[r.randint(len(few))]
        chosen.append((line, {"last": n, "first": 1, "any": 1 + r.randint(n)}[visit], again))
    out, others, anew = fresh(v, path, disturbed, case, chosen, path)
    want = wanted(v, path, step, ctx)
    for m, (stopped, got) in enumerate(out):
        if isinstance(got, str):
            continue
        if not close(step[0], want, got):
            where = [f"{a[0]}:{a[1]} (visit {n})" for a, n, _ in chosen[:m + 1]]
            raise Violation(f"{v} {step}: {got and got[:8]} when made again after {case['fault']} before {where}; {want and want[:8]} undisturbed", f"again {step[0]}")
    where = f"after {case['fault']} before {[f'{a[0]}:{a[1]} (visit {n})' for a, n, _ in chosen]}"
    for s, got in zip(case["others"], others):
        if not close(s[0], wanted(v, path, s, ctx), got):
            raise Violation(f"{v} {s}: {got and got[:6]} {where} of {step}; {(wanted(v, path, s, ctx) or [])[:6]} alone", f"other {s[0]}")
    if not close(step[0], want, anew):
        raise Violation(f"{v} {step}: {anew and anew[:8]} on a new object {where}; {want and want[:8]} undisturbed", f"new {step[0]}")
    k = sum(x[0] is True for x in out)
    ctx.label(step[0], "broken off once" if k == 1 else "several times" if k else "never")
    ctx.nt(k > 0)


# --- calls refused or failing by themselves ------------------------------------------------------------------------
class Broken:
    """Something that cannot be made an array."""

    def __array__(self, *a, **k):
        raise Fault("no array")

    def __getattr__(self, name):
        raise Fault(name)


BAD = ("short", "none", "text", "broken", "empty", "nan", "zero", "matrix", "huge")


def damage(x, how):
    if how == "none":
        return None
    if how == "text":
        return "text"
    if how == "broken":
        return Broken()
    if isinstance(x, np.ndarray) and x.dtype.kind in "fi":
        y = x.astype(float)
        if how == "short":
            return y[:-1]
        if how == "empty":
            return y[:0]
        if how == "matrix":
            return y[None]
        y = y.copy()
        y.flat[::3] = {"nan": np.nan, "zero": 0.0, "huge": 1e300}[how]
        return y * (0 if how == "zero" else 1)
    return {"nan": np.nan, "zero": 0.0, "huge": 1e300}.get(how, None)


@st.composite
def refused_case(draw):
    step = a_step(draw)
    return {"step": step, "how": draw(st.sampled_from(BAD)), "which": draw(st.integers(0, 20)), "strict": draw(st.booleans()), "times": draw(st.integers(1, 3)), "same": draw(st.booleans()),
            "others": [a_step(draw) for _ in range(draw(st.integers(0, 1)))], "variant": draw(st.sampled_from(["native", "native", "pure"])), "g": draw(st.integers(0, 2**31 - 1))}


def refuse(ns, case):
    load(ns)
    step = case["step"]
    impl = CALLS[step[0]][0]
    good = arguments(step)
    obj = impl.make(ns, good, step[2])
    np.random.seed(case["g"])
    random.seed(case["g"])
    raised = []
    for _ in range(case["times"]):
        bad = list(arguments(step))
        i = case["which"] % max(len(bad), 1)
        if bad and not (case["strict"] and case["same"]):
            bad[i] = damage(bad[i], case["how"])
        kept = copy.deepcopy([x for x in bad if not isinstance(x, Broken)])
        with warnings.catch_warnings():
            if case["strict"]:
                warnings.simplefilter("error")
                np.seterr(all="raise")
            before = global_state()
            try:
                flat(impl.call(ns, obj if case["strict"] and case["same"] else impl.make(ns, bad, step[2]), bad, step[2]))
                raised.append("")
            except Violation:
                raise
            except BaseException as e:
                raised.append(type(e).__name__)
            after = global_state()
            changed = [w for i, w in enumerate(WHAT) if not states_equal_at(i, before, after)]
        np.seterr(divide="warn", over="warn", under="ignore", invalid="warn")
        if changed:
            raise Violation(f"{step}: {', '.join(changed)} changed by a call that ended with {raised[-1] or 'a result'}", f"settings {step[0]}")
        if not same([x for x in bad if not isinstance(x, Broken)], kept):
            raise Violation(f"{step}: an argument changed in a call that ended with {raised[-1] or 'a result'}", f"argument {step[0]}")
    return raised, [alone(ns, s) for s in case["others"]], attempt(ns, step, obj, good)


def run_refused(case, ctx):
    v, step = case["variant"], case["step"]
    path = ctx.variant(v)._path
    if v == "pure" and "isolation forest" in [s[0] for s in [step, *case["others"]]]:
        raise Discard("the isolation forest needs its extension")
    raised, others, again = fresh(v, path, refuse, case)
    where = f"after {case['times']} calls with {'errors for warnings' if case['strict'] else ''} {case['how']} that ended with {raised}"
    for s, got in zip(case["others"], others):
        if not close(s[0], wanted(v, path, s, ctx), got):
            raise Violation(f"{v} {s}: {got and got[:6]} {where} of {step}; {(wanted(v, path, s, ctx) or [])[:6]} alone", f"other {s[0]}")
    want = wanted(v, path, step, ctx)
    if not close(step[0], want, again):
        raise Violation(f"{v} {step}: {again and again[:8]} {where}; {want and want[:8]} undisturbed", f"again {step[0]}")
    ctx.label(step[0], *({r or "no error" for r in raised}))
    ctx.nt(any(raised))


FACETS = [Facet("broken", broken_case, run_broken, "the call was broken off by the injected fault", 700, 12000, shards=6, tshards=8, variants=("native", "pure")),
          Facet("refused", refused_case, run_refused, "the call raised", 240, 5000, shards=4, tshards=4, variants=("native", "pure"))]
ASSUMPTIONS = ["faults are injected before lines of the package's Python code, as a signal or a failed allocation would arrive; compiled code is not interrupted",
               "a fit broken off may leave intermediate values in the model; the fit made again must give what it gives undisturbed"]
