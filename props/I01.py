"""I01: isolation-forest scores converge to the exact expected path lengths."""
import math

import numpy as np
from hypothesis import strategies as st

from ref import iforest as ref
from vf.core import Discard, Facet, Violation
from vf.framegen import frame, ordered, to_frame
from vf.gen import SEEDS, logfl


@st.composite
def small(draw):
    cols = draw(frame(1, 7, 3))
    return {"cols": cols, "tree": draw(st.sampled_from([3, 3, 4, 4, 5, 6, 7, 8, 16, 256])), "forest": draw(st.sampled_from([3000, 6000, 20000])),
            "seed": draw(st.one_of(st.integers(0, 50), st.integers(0, 2**31 - 1)))}


@st.composite
def wide(draw):
    """More rows: one or two columns, whole-sample trees, so that the exact recursion stays small."""
    n = draw(st.integers(8, 14))
    if draw(st.booleans()):
        cols = [["n", draw(st.lists(st.one_of(st.integers(0, 40), st.sampled_from([1000, "nan"])), min_size=n, max_size=n))]]
    else:
        cols = [["n", draw(st.lists(st.integers(0, 4), min_size=n, max_size=n))],
                ["t", draw(st.lists(st.sampled_from(["", "a", "b", "ab", "zz"]), min_size=n, max_size=n))]]
    return {"cols": cols, "tree": draw(st.sampled_from([4, 8, n, 16, 32, 256])), "forest": 6000, "seed": draw(st.integers(0, 2**31 - 1))}


def run(case, ctx):
    cols = case["cols"]
    vals = ordered(cols)
    n = len(vals[0])
    if ref.n_samples(n, case["tree"]) > 1100:
        raise Discard("too many samples to enumerate")
    F, T = case["forest"], case["tree"]
    out = ctx.native.iforest.anomaly_scores(to_frame(cols), forest_size=F, tree_size=T, random_seed=case["seed"])
    s = out["AnomalyScore"].to_numpy()
    if s.shape != (n,) or not (np.all(s > 0) and np.all(s <= 1)):
        raise Violation(f"scores {s.tolist()} not in (0, 1]", "range")
    ctx.label("tree<rows" if T < n else "tree>=rows", *({"n": "numeric", "t": "text"}[c[0]] for c in cols),
              "missing" if any(v == "nan" for c in cols for v in c[1]) else "complete",
              "long texts" if any(c[0] == "t" and max(map(len, c[1])) > 32 for c in cols) else "short texts", "ties" if any(len(set(map(str, c[1]))) < n for c in cols) else "no ties", "height-limited" if math.ceil(math.log2(T)) < n - 1 else "full")
    L = -np.log2(s) * ref.c(T)
    moved = False
    for i in range(n):
        m, v = ref.moments(vals, i, T)
        tol = 6.5 * math.sqrt(v / F) + 12 * (math.ceil(math.log2(T)) + 3) / F + 1e-9
        moved |= v > 1e-9
        if not abs(L[i] - m) <= tol:
            raise Violation(f"row {i}: average path length {L[i]:.5f}, exact expectation {m:.5f} (tolerance {tol:.5f}, {F} trees of size {T})", "expectation")
    ctx.nt(moved)


@st.composite
def ranked(draw):
    """Many rows whose columns rank them alike: the expectation has a closed recursion for any size."""
    size = draw(st.sampled_from(["small"] * 8 + ["medium"] * 8 + ["tall"] * 3 + ["huge", "broad", "broad"]))
    n = draw({"small": st.integers(2, 60), "medium": st.integers(60, 300), "tall": st.integers(300, 4000), "huge": st.integers(65000, 70000), "broad": st.integers(2, 60)}[size])
    return {"n": n, "tree": draw(st.integers(3, 12) if size == "huge" else st.one_of(st.integers(3, 12), st.integers(3, 40), st.sampled_from([64, 128, 256, 256, 257, 300]))),
            "times": draw(st.integers(20, 150)) if size == "broad" else 1, "apart": draw(st.sampled_from([0, 0, 1, 2])), "sorted": draw(st.booleans()),
            "cols": draw(st.lists(st.sampled_from(["line", "exp", "int", "text", "long", "flat", "flattext"]), min_size=1, max_size=3).filter(lambda c: not all(x.startswith("flat") for x in c))),
            "order": draw(SEEDS), "forest": {"tall": 1000, "huge": 200}.get(size) or draw(st.sampled_from([1000, 4000])), "seed": draw(st.integers(0, 2**31 - 1))}


def run_ranked(case, ctx):
    n, T, F = case["n"], case["tree"], case["forest"]
    rank = np.arange(n) if case.get("sorted") and n > 300 else np.random.RandomState(case["order"]).permutation(n)
    make = {"line": lambda k: ["n", (0.1 * k - 7).tolist()], "exp": lambda k: ["n", np.exp(k / (10.0 if n < 1000 else 1000.0)).tolist()], "int": lambda k: ["n", [int(i) for i in k]],
            "text": lambda k: ["t", ["a" * (i // 20) + chr(65 + i % 20) for i in k] if n < 1000 else ["%05d" % i for i in k]], "long": lambda k: ["t", ["common start of a long name %06d" % i for i in k]],
            "flat": lambda k: ["n", [3.0] * n], "flattext": lambda k: ["t", ["same"] * n]}
    names = case["cols"] * case.get("times", 1)
    if case.get("apart"):  # all that matters comes last, or first
        names = sorted(names, key=lambda c: c.startswith("flat") == (case["apart"] == 2))
        names = [c for c in names for _ in range(6 if c.startswith("flat") and len(names) >= 20 else 1)]
    cols = [make[c](rank) for c in names]
    out = ctx.native.iforest.anomaly_scores(to_frame(cols), forest_size=F, tree_size=T, random_seed=case["seed"])
    flat = sum(c.startswith("flat") for c in names)
    want = ref.rank_moments(n, T, len(cols) - flat, flat)
    L = -np.log2(out["AnomalyScore"].to_numpy()) * ref.c(T)
    e, v = np.array(want)[rank].T
    H = math.ceil(math.log2(T))
    tol = 6.5 * np.sqrt(v / F) + 12 * (H + ref.c(min(n, T)) if min(n, T) > 1 else 1) / F + 1e-9
    ctx.nt(n > T)
    ctx.label("tree<rows" if T < n else "tree>=rows", "tree<<rows" if 4 * T < n else "tree large", "beyond 65535 rows" if n > 65535 else "over 300 rows" if n > 300 else "up to 300 rows", "20 columns or more" if len(cols) >= 20 else "few columns", *case["cols"])
    i = int(np.argmax(np.abs(L - e) / tol))
    if not np.all(np.abs(L - e) <= tol):
        raise Violation(f"row of rank {rank[i]} of {n}: average path length {L[i]:.5f}, exact expectation {e[i]:.5f} (tolerance {tol[i]:.5f}, {F} trees of size {T})", "expectation")
    # the average over rows varies less than each of them, and at most as much as the average row
    gap = abs(float(np.mean(L - e)))
    if not gap <= 6.5 * math.sqrt(float(np.mean(v)) / F) + 12.0 * (H + 3) / F:
        raise Violation(f"mean path length off by {gap:.5f} ({n} rows, {F} trees of size {T})", "mean")


@st.composite
def twokinds(draw):
    """Many rows of two kinds: every row must have the same chance of being sampled."""
    n = draw(st.one_of(st.integers(2, 400), st.integers(2, 400), st.integers(400, 4000), st.integers(400, 4000), st.integers(4000, 70000), st.integers(65500, 140000)))
    return {"n": n, "share": draw(logfl(1e-3, 1.0)), "rare": draw(st.sampled_from([0, 1])), "where": draw(st.sampled_from(["end", "start", "random", "even"])),
            "kind": draw(st.sampled_from(["n", "n", "t", "long", "nan"])), "tree": draw(st.one_of(st.integers(3, 40), st.sampled_from([64, 128, 256, 256, 257, 300]))), "order": draw(SEEDS), "flat": draw(st.integers(0, 2)) * (n < 70000),
            "forest": draw(st.sampled_from([1000, 4000])) if n < 500 else 1000 if n < 4000 else 300, "seed": draw(st.integers(0, 2**31 - 1))}


def run_twokinds(case, ctx):
    n, T, F = case["n"], case["tree"], case["forest"]
    m = min(n - 1, max(1, round(case["share"] * n)))
    at = np.zeros(n, bool)
    at[{"end": lambda: np.arange(n - m, n), "start": lambda: np.arange(m), "random": lambda: np.random.RandomState(case["order"]).permutation(n)[:m], "even": lambda: np.arange(m) * n // m}[case["where"]]()] = True
    one = at if case["rare"] else ~at
    lo, hi = {"n": (-1.5, 4), "t": ("abc", "abd"), "long": ("a name with the same start " + "x" * 20, "a name with the same start " + "x" * 19 + "y"), "nan": ("nan", -2.5)}[case["kind"]]
    kind = "t" if isinstance(hi, str) else "n"
    cols = [[kind, [hi if o else lo for o in one]]] * (1 + case["flat"])
    out = ctx.native.iforest.anomaly_scores(to_frame(cols), forest_size=F, tree_size=T, random_seed=case["seed"])
    L = -np.log2(out["AnomalyScore"].to_numpy()) * ref.c(T)
    want = ref.two_moments(n, int(one.sum()), T, case["kind"] == "nan")
    H = math.ceil(math.log2(T))
    ctx.nt(max(v for _, v in want) > 1e-6)
    ctx.label("tree<rows" if T < n else "tree>=rows", "beyond 65535 rows" if n > 65535 else "over 300 rows" if n > 300 else "up to 300 rows", case["kind"], case["where"])
    for o in (0, 1):
        e, v = want[o]
        tol = 6.5 * math.sqrt(v / F) + 12 * (H + 3) / F + 1e-9
        x = L[one == bool(o)]
        i = int(np.argmax(np.abs(x - e)))
        if not abs(x[i] - e) <= tol:
            raise Violation(f"a row of the {'larger' if o else 'smaller'} kind ({int(one.sum())} larger of {n}): average path length {x[i]:.5f}, exact expectation {e:.5f} (tolerance {tol:.5f}, {F} trees of size {T})", "expectation")


@st.composite
def big(draw):
    return {"n": draw(st.integers(1, 400)), "cols": draw(st.integers(1, 4)), "txt": draw(st.integers(0, 2)), "data": draw(SEEDS),
            "miss": draw(st.sampled_from([0.0, 0.0, 0.2])), "forest": draw(st.integers(1, 300)), "tree": draw(st.integers(3, 300)), "seed": draw(st.integers(0, 10**6))}


def big_frame(case):
    r = np.random.RandomState(case["data"])
    n = case["n"]
    cols = []
    for _ in range(case["cols"]):
        x = r.standard_normal(n)
        x[r.rand(n) < case["miss"]] = np.nan
        cols.append(["n", ["nan" if v != v else v for v in x.tolist()]])
    for _ in range(case["txt"]):
        pre = "name of a firm " * r.choice([0, 0, 0, 1, 3, 20])
        cols.append(["t", [pre + "abcdefghij"[: r.randint(0, 10)] + str(r.randint(0, 50)) for _ in range(n)]])
    return cols


def run_big(case, ctx):
    cols = big_frame(case)
    out = ctx.native.iforest.anomaly_scores(to_frame(cols), forest_size=case["forest"], tree_size=case["tree"], random_seed=case["seed"])
    s = out["AnomalyScore"].to_numpy()
    n, T = case["n"], case["tree"]
    if s.shape != (n,) or not (np.all(s > 0) and np.all(s <= 1)):
        raise Violation(f"scores not in (0, 1]: {s.min()!r}..{s.max()!r}", "range")
    L = -np.log2(s) * ref.c(T)
    H = math.ceil(math.log2(T))
    top = H + (ref.c(min(n, T)) if min(n, T) > 1 else 0.0)
    if not (np.all(L >= -1e-9) and np.all(L <= top + 1e-6)):
        raise Violation(f"path lengths {L.min()!r}..{L.max()!r} outside [0, {top!r}]", "path")
    # every tree partitions its sample: with the whole sample in each tree the mean of 2^-path cannot exceed one row per leaf
    ctx.nt(n > 2)
    ctx.label("tree<rows" if T < n else "tree>=rows")


SCALE = 2  # quick-tier case counts are multiplied by this
FACETS = [
    Facet("small", small, run, "the path length of some row is random", 480, 8000, shards=4, tshards=8, weight=2,
          probes=({"cols": [["n", [1, 2, 3, 4]], ["t", ["a", "b", "c", "dd"]]], "tree": 4, "forest": 20000, "seed": 7},
                  {"cols": [["n", [1, "nan", 3, "nan"]]], "tree": 4, "forest": 20000, "seed": 1021})),
    Facet("wide", wide, run, "the path length of some row is random", 160, 3000, shards=3, tshards=8, weight=2),
    Facet("ranked", ranked, run_ranked, "fewer rows per tree than rows", 240, 6000, shards=2, tshards=8, weight=2),
    Facet("twokinds", twokinds, run_twokinds, "the path length is random", 240, 6000, shards=2, tshards=8, weight=2),
    Facet("range", big, run_big, "at least 3 rows", 300, 6000, shards=2, tshards=4),
]
ASSUMPTIONS = ["scores of F trees are compared with the exact expectation within 6.5 standard errors (exact variance) plus 12 worst-case path lengths over F",
               "text cells are without NUL and taken as UTF-8"]
