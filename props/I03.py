"""I03: isolation-forest results do not depend on threads, CPUs or earlier calls."""
import json
import os
import subprocess
import sys
import threading

import numpy as np
from hypothesis import strategies as st

from props.I01 import big_frame
from vf.core import Facet, HarnessError, Violation
from vf.cpus import ALL, cpus, lib
from vf.framegen import to_frame
from vf.gen import SEEDS

lib()  # before the extension is loaded


@st.composite
def forest(draw):
    return {"n": draw(st.integers(1, 150)), "cols": draw(st.integers(1, 3)), "txt": draw(st.integers(0, 2)), "data": draw(SEEDS), "miss": draw(st.sampled_from([0.0, 0.2])),
            "forest": draw(st.integers(1, 120)), "tree": draw(st.integers(3, 60)), "seed": draw(st.integers(0, 10**6))}


def scores(ns, c):
    return ns.iforest.anomaly_scores(to_frame(big_frame(c)), forest_size=c["forest"], tree_size=c["tree"], random_seed=c["seed"])["AnomalyScore"].to_numpy()


def eq(got, want, what):
    if not np.allclose(got, want, rtol=1e-9, atol=0):
        k = int(np.argmax(np.abs(got - want)))
        raise Violation(f"{what}: row {k} scores {got[k]!r} instead of {want[k]!r}", what.split(":")[0])


CPUS = st.one_of(st.integers(0, 16), st.integers(0, 16), st.sampled_from([24, 40, 64, 100]))


@st.composite
def cpu_case(draw):
    return {"calls": [draw(forest()) for _ in range(draw(st.integers(1, 3)))],
            "plan": draw(st.lists(st.tuples(st.integers(0, 2), CPUS), min_size=3, max_size=8))}


def run_cpus(case, ctx):
    """Any number of CPUs, any order of calls."""
    ns = ctx.native
    calls = case["calls"]
    n0 = lib().vf_calls()
    with cpus(1):
        want = [scores(ns, c) for c in calls]
    for k, (o, m) in enumerate(case["plan"]):
        c = o % len(calls)
        with cpus(m):
            eq(scores(ns, calls[c]), want[c], f"CPUs: {m} CPUs, call {k}")
    if not all(((w > 0) & (w <= 1)).all() for w in want):
        raise Violation("a score is not in (0, 1]", "range")
    used = {m for _, m in case["plan"]}
    ctx.nt(len(used) > 1 and any(np.ptp(w) > 0 for w in want))
    ctx.label(f"{len(calls)} datasets", *("unknown" if m == 0 else "more CPUs than trees or rows" if m > min(c["n"], c["forest"]) else "CPUs"
                                          for m in used for c in calls), *(["CPU count asked for"] if lib().vf_calls() > n0 else []))


@st.composite
def thread_case(draw):
    return {"calls": [draw(forest()) for _ in range(draw(st.integers(2, 4)))], "rep": draw(st.integers(1, 6))}


def run_threads(case, ctx):
    """Calls from several Python threads at once (the extension releases the GIL)."""
    ns = ctx.native
    calls = case["calls"]
    want = [scores(ns, c) for c in calls]
    errors, got = [], [[] for _ in calls]

    def work(i):
        try:
            for _ in range(case["rep"]):
                got[i].append(scores(ns, calls[i]))
        except Exception as e:  # judged below
            errors.append(e)

    ts = [threading.Thread(target=work, args=(i,)) for i in range(len(calls))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errors:
        raise errors[0]
    ctx.nt(any(np.ptp(w) > 0 for w in want))
    for i, w in enumerate(want):
        for g in got[i]:
            eq(g, w, "concurrent calls")


SCRIPT = """
import sys, json
sys.path.insert(0, sys.argv[1])
from vf.cpus import cpus
import pandas as pd
from vf import deps
deps.ensure()
from vf.core import NS
from props.I03 import scores
ns = NS("native", sys.argv[2])
with cpus(int(sys.argv[4])):
    print(json.dumps([scores(ns, c).tolist() for c in json.loads(sys.argv[3])]))
"""


def run_process(case, ctx):
    """Another process, started with another CPU set and hash seed."""
    ns = ctx.native
    calls = case["calls"]
    want = [scores(ns, c) for c in calls]
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    m = 1 + case["cpu"] % 16
    env = dict(os.environ, PYTHONHASHSEED=str(case["hash"]), MALLOC_PERTURB_=str(case["hash"] % 255 + 1))
    cmd = [sys.executable, "-c", SCRIPT, root, ns._path, json.dumps(calls), str(m)]
    r = subprocess.run(cmd, env=env, capture_output=True, text=True, cwd=root)
    if r.returncode < 0:
        raise Violation(f"the process died from signal {-r.returncode}", "signal")
    if r.returncode != 0:
        raise HarnessError(r.stderr[-2000:])
    ctx.nt(any(np.ptp(w) > 0 for w in want))
    for g, w in zip(json.loads(r.stdout), want):
        eq(np.array(g), w, f"process: {m} CPUs")


SCALE = 3  # quick-tier case counts are multiplied by this
FACETS = [
    Facet("cpus", cpu_case, run_cpus, "at least two CPU counts and scores that differ", 300, 8000, shards=3, tshards=6, weight=2),
    Facet("threads", thread_case, run_threads, "scores that differ", 120, 3000, shards=2, tshards=4),
    Facet("process", lambda: st.fixed_dictionaries({"calls": st.lists(forest(), min_size=1, max_size=4), "cpu": st.integers(0, 63), "hash": st.integers(0, 10**6)}), run_process,
          "scores that differ", 12, 200, shards=3, tshards=6),
]
ASSUMPTIONS = ["the number of CPUs is learnt from std::thread, the C library, OpenMP, os.cpu_count or the affinity, all of which the check sets",
               "schedules are sampled by the operating system, not enumerated"]
