"""I02: isolation-forest scores depend only on the order of values and on equality."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from props.I01 import big_frame
from ref import iforest as ref
from vf.core import Facet, Violation
from vf.framegen import frame, to_frame, values
from vf.gen import SEEDS

MAPS = {
    "affine": lambda v: 3 * v + 7, "cube": lambda v: v**3, "atan": np.arctan, "half": lambda v: v / 2, "int": lambda v: v,
}


@st.composite
def case_(draw):
    kind = draw(st.sampled_from(["explicit", "explicit", "random"]))
    if kind == "explicit":
        src = {"cols": draw(frame(1, 12, 4, other=True))}
    else:
        src = {"n": draw(st.integers(2, 120)), "cols": draw(st.integers(1, 3)), "txt": draw(st.integers(0, 2)), "data": draw(SEEDS),
               "miss": draw(st.sampled_from([0.0, 0.3]))}
    return {"src": src, "forest": draw(st.integers(1, 60)), "tree": draw(st.integers(3, 40)), "seed": draw(st.integers(0, 10**6)),
            "maps": draw(st.lists(st.sampled_from(sorted(MAPS) + ["rank", "rank", "wide"]), min_size=4, max_size=4)), "dup": draw(st.lists(st.integers(0, 119), max_size=4)),
            "index": draw(st.sampled_from(["range", "reversed", "text", "dates", "dup", "multi"])), "name": draw(st.sampled_from(["AnomalyScore", "x", "c0", "0", "", " x ", "Anomaly Score", "é"])),
            "drop": draw(st.lists(st.booleans(), min_size=8, max_size=8)), "pos": draw(st.integers(0, 6)), "mode": draw(st.sampled_from(["bool", "dates", "category"]))}


def rank(v):
    """Ranks with gaps: strictly increasing, missing stays missing."""
    v = np.asarray(v, float)
    u = np.unique(v[~np.isnan(v)])
    return np.where(np.isnan(v), np.nan, np.searchsorted(u, v) * 2.0 - 5)


def index_of(kind, n):
    if kind == "reversed":
        return pd.Index(range(n - 1, -1, -1), name="r")
    if kind == "text":
        return pd.Index([f"k{(i * 7) % n}" for i in range(n)], name="id")
    if kind == "dates":
        return pd.date_range("2020-01-31", periods=n, freq="D")[::-1]
    if kind == "dup":
        return pd.Index([i // 2 for i in range(n)])
    if kind == "multi":
        return pd.MultiIndex.from_arrays([[i % 3 for i in range(n)], list(range(n))], names=["a", "b"])
    return pd.RangeIndex(n)


def run(case, ctx):
    cols = case["src"]["cols"] if isinstance(case["src"]["cols"], list) else big_frame(case["src"])
    n = len(cols[0][1])
    # duplicate some rows
    extra = [i % n for i in case["dup"]]
    cols = [[c[0], list(c[1]) + [c[1][i] for i in extra]] for c in cols]
    N = n + len(extra)
    kw = dict(forest_size=case["forest"], tree_size=case["tree"], random_seed=case["seed"])
    f = ctx.native.iforest.anomaly_scores
    d = to_frame(cols)
    base = f(d.copy(), **kw)["AnomalyScore"].to_numpy()
    ctx.nt(N > 2 and np.ptp(base) > 0)
    ctx.label(*({"n": "numeric", "t": "text", "b": "bool"}[c[0]] for c in cols), case["index"])

    def eq(got, want, what):
        got = np.asarray(got, float)
        if got.shape != want.shape or not np.allclose(got, want, rtol=1e-9, atol=0):
            raise Violation(f"{what}: scores {got.tolist()[:12]}, expected {want.tolist()[:12]}", what)

    # equal rows get equal scores
    for k, i in enumerate(extra):
        if base[n + k] != base[i]:
            raise Violation(f"row {n + k} equals row {i}, but scores {base[n + k]!r} != {base[i]!r}", "equal rows")
    # strictly increasing transformations
    t = d.copy()
    j = 0
    for c in t.columns:
        if t[c].dtype == float:
            v = t[c].to_numpy()
            m = case["maps"][j % 4]
            j += 1
            with np.errstate(all="ignore"):
                w = rank(v) if m in ("rank", "wide") else MAPS[m](v)
            # only where it is strictly increasing in floating point as well
            if m not in ("rank", "wide"):
                a, b = np.unique(v[~np.isnan(v)]), np.unique(w[~np.isnan(w)])
                if len(a) != len(b) or not np.array_equal(np.isnan(v), np.isnan(w)):
                    w = rank(v)
            if m == "wide" and not np.isnan(w).any():  # integers that doubles do not tell apart
                i, far = ((w + 5) / 2).astype(np.int64), case["seed"] % 4
                t[c] = i + 2**62 if far == 0 else i + np.iinfo(np.int64).min if far == 1 else i.astype(np.uint64) + np.uint64(2**63 + 1) if far == 2 else i + (2**53 - 1)
                ctx.label("wide integers")
            elif m == "int" and not np.isnan(w).any() and np.all(np.abs(w) < 1e15) and np.all(w == np.round(w)):
                t[c] = w.astype(np.int64)
                ctx.label("integers")
            else:
                t[c] = w
    eq(f(t, **kw)["AnomalyScore"], base, "increasing transformation")
    # text column as numbers of the same order, at the end of the numeric columns
    txt = [i for i, c in enumerate(cols) if c[0] == "t"]
    if txt:
        num = [c for c in cols if c[0] == "n"]
        out = list(num)
        for i in txt:
            keys = [ref.key(v) for v in cols[i][1]]
            pos = {k: r for r, k in enumerate(sorted(set(keys)))}
            out.append(["n", [float(pos[k]) for k in keys]])
        eq(f(to_frame(out), **kw)["AnomalyScore"], base, "text order")
        s = d.copy()
        for i in txt:
            s.isetitem(i, s.iloc[:, i].astype("string"))
        eq(f(s, **kw)["AnomalyScore"], base, "pandas strings")
        if any(not v.isascii() for i in txt for v in cols[i][1]):
            ctx.label("beyond ASCII")
    # index and name pass through in row order
    g = d.copy()
    g.index = index_of(case["index"], N)
    out = f(g, name=case["name"], **kw)
    if list(out.columns) != [case["name"]] or not out.index.equals(g.index) or list(out.index.names) != list(g.index.names):
        raise Violation(f"returned columns {list(out.columns)} and index {out.index[:5]}", "index")
    eq(out[case["name"]], base, "index")
    # excluding equals dropping; other kinds of columns are ignored
    names = list(d.columns)
    drop = [c for c, k in zip(names, case["drop"]) if k]
    rest = [c for c in names if c not in drop]
    if drop and any(d[c].dtype != bool for c in rest):
        ctx.label("excluded")
        eq(f(d.copy(), exclude_cols=drop, **kw)["AnomalyScore"], f(d.drop(columns=drop), **kw)["AnomalyScore"].to_numpy(), "exclude_cols")
        e = d.copy()
        for c in drop:
            e[c] = e[c].iloc[::-1].to_numpy()
        eq(f(e, exclude_cols=drop, **kw)["AnomalyScore"], f(d.copy(), exclude_cols=drop, **kw)["AnomalyScore"].to_numpy(), "excluded content")
    o = d.copy()
    extra_col = {"bool": np.arange(N) % 2 == 0, "dates": pd.date_range("2000-01-01", periods=N), "category": pd.Categorical(["u", "v"] * N)[:N]}[case["mode"]]
    o.insert(min(case["pos"], o.shape[1]), "zz", extra_col)
    eq(f(o, **kw)["AnomalyScore"], base, "ignored column")


SCALE = 3  # quick-tier case counts are multiplied by this
FACETS = [Facet("relations", case_, run, "at least 3 rows and scores that differ", 1500, 30000, shards=6, tshards=8)]
ASSUMPTIONS = ["text cells are without NUL", "values of numeric columns are distinct as doubles, or 64-bit integers"]
