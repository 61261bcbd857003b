"""X07: results do not depend on the kind of process they are computed in."""
import os

import numpy as np
from hypothesis import strategies as st

from props.X06 import CALLS, a_step, wanted
from vf import other
from vf.core import Facet, HarnessError, Violation

SETTINGS = other.settings(None, True)
FEW = st.integers(0, 9).map(lambda k: (0, 0, 1, 1, 1, 2, 2, 3, 4, 6)[k])


def modules(path):
    out = []
    for d, _, files in os.walk(os.path.join(path, "frds")):
        for f in files:
            if f.endswith(".py"):
                p = os.path.relpath(os.path.join(d, f), path)[:-3].split(os.sep)
                out.append(".".join(p[:-1] if p[-1] == "__init__" else p))
    return sorted(out)


def close(name, x, y):
    if x is None or y is None:
        return x is y
    fit = CALLS[name][2]
    return len(x) == len(y) and np.allclose(x, y, rtol=2e-3 if fit else 1e-9, atol=2e-3 if fit else 1e-12, equal_nan=True)


@st.composite
def case_(draw):
    some = lambda names: draw(st.lists(st.sampled_from(sorted(names)), min_size=0, max_size=draw(FEW), unique=True))
    steps = [a_step(draw) for _ in range(draw(st.integers(1, 12)))]
    slow = [i for i, s in enumerate(steps) if CALLS[s[0]][2]]
    steps = [s for i, s in enumerate(steps) if i not in slow[1:]]
    return {"steps": steps, "flags": some(other.FLAGS), "env": some(other.ENV), "settings": some(SETTINGS), "early": draw(st.booleans()), "place": draw(st.sampled_from(["plain", *other.PLACES])),
            "streams": draw(st.sampled_from(["plain", "plain", "plain", *other.STREAMS])), "order": draw(st.integers(0, 2**31 - 1)), "first": draw(st.integers(0, 6)), "variant": draw(st.sampled_from(["native", "native", "pure"]))}


def run(case, ctx):
    import random
    v = case["variant"]
    path = ctx.variant(v)._path
    if v == "pure":
        case = dict(case, steps=[s for s in case["steps"] if s[0] != "isolation forest"])
    names = modules(path)
    for s in case["steps"]:
        if wanted(v, path, s, ctx) is None:
            ctx.label("outside the domain")
    order = [m for m in random.Random(case["order"]).sample(names, len(names)) if not (v == "pure" and m.endswith("isolation_forest"))][:case["first"]]
    kind = [*case["flags"], *case["env"], *case["settings"], *[x for x in (case["place"], case["streams"]) if x != "plain"]]
    got = other.elsewhere({"variant": v, "path": path, "steps": case["steps"], "settings": case["settings"], "early": case["early"], "imports": order}, case["flags"], case["env"], case["place"], case["streams"])
    where = f"{v}, in a process with {', '.join(kind) or 'nothing special'}, imports {order}"
    for s, r in zip(case["steps"], got):
        if r[0] == "ok" and not close(s[0], wanted(v, path, s, ctx), r[1]):
            raise Violation(f"{s}: {None if r[1] is None else r[1][:6]} {where}, otherwise {(wanted(v, path, s, ctx) or [])[:6]}", f"differs {s[0]}")
    if got and got[-1][0] != "ok":
        at = case["steps"][len(got) - 1][0] if got[-1][0] == "raised" and len(got) <= len(case["steps"]) else "process"
        if "-14" in got[-1][1] or "return code -9" in got[-1][1]:
            raise HarnessError(got[-1][1])
        raise Violation(f"{at}: {got[-1][1]} {where}", f"{got[-1][0]} {at}")
    if len(got) != len(case["steps"]):
        raise HarnessError(f"{len(got)} answers to {len(case['steps'])} calls")
    ctx.label(*kind, v)
    ctx.nt(bool(kind) and bool(case["steps"]))


SCALE = 5  # quick-tier case counts are multiplied by this
FACETS = [Facet("process", case_, run, "a process that differs from the plain one, and at least one call", 120, 3000, shards=8, tshards=8, variants=("native", "pure"), weight=3)]
ASSUMPTIONS = ["results are compared to 1e-9, fitted estimates to 2e-3, since threads and memory alignment may change the order of sums in the numerical libraries",
               "the kinds of processes are those in which numpy, scipy and pandas themselves work"]
