"""X02: the sample dataset is the shipped file, whatever was done with frames handed out before."""
import csv
import io
import os
import pickle
import zipfile

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vf.core import NS, Facet, HarnessError, Violation
from vf.gen import SEEDS, fl


def shipped(path):
    """The shipped file, read without pandas."""
    p = os.path.join(path, "frds", "datasets", "stocks_us.csv.zip")
    if not os.path.exists(p):
        raise HarnessError("the shipped data file has moved")
    z = zipfile.ZipFile(p)
    rows = list(csv.reader(io.TextIOWrapper(z.open(z.namelist()[0]), "utf-8")))
    head, body = rows[0], [r for r in rows[1:] if r]
    k = head.index("Date")
    dates = np.array([r[k][:19].replace(" ", "T") for r in body], "datetime64[s]")
    cols = [c for i, c in enumerate(head) if i != k]
    data = np.array([[float(x) if x else np.nan for i, x in enumerate(r) if i != k] for r in body])
    return cols, dates, data


def judge(df, want, when):
    cols, dates, data = want
    if not isinstance(df, pd.DataFrame):
        raise Violation(f"{when}: not a frame but {type(df)}", "type")
    if list(df.columns) != cols:
        raise Violation(f"{when}: columns {list(df.columns)} instead of {cols}", "columns")
    if df.columns.name is not None or df.attrs:
        raise Violation(f"{when}: columns named {df.columns.name!r}, attributes {df.attrs}", "columns")
    if not isinstance(df.index, pd.DatetimeIndex) or df.index.name != "Date":
        raise Violation(f"{when}: index {type(df.index).__name__} named {df.index.name!r}", "index")
    if len(df) != len(dates) or not np.array_equal(df.index.to_numpy().astype("datetime64[s]"), dates):
        raise Violation(f"{when}: {len(df)} dates, not those of the file ({len(dates)})", "index")
    if any(t != np.float64 for t in df.dtypes):
        raise Violation(f"{when}: types {list(df.dtypes)}", "types")
    v = df.to_numpy()
    if not np.allclose(v, data, rtol=1e-12, atol=1e-15, equal_nan=True):
        i, j = np.argwhere(~np.isclose(v, data, rtol=1e-12, atol=1e-15, equal_nan=True))[0]
        raise Violation(f"{when}: {cols[j]} on {dates[i]} is {v[i, j]!r}, the file says {data[i, j]!r}", "values")


OPS = ("cell", "column", "scale", "values", "drop rows", "drop columns", "new column", "rename", "index name", "columns name", "columns", "index", "sort", "fill",
       "attrs", "clear", "astype", "series", "update", "clip", "extend", "reset", "index data", "columns data")


def modify(df, op, x, r):
    i, j = r.randint(len(df)) if len(df) else 0, r.randint(df.shape[1]) if df.shape[1] else 0
    c = df.columns[j] if df.shape[1] else None
    if op == "attrs":
        df.attrs["x"] = x
    elif op == "index name":
        df.index.name = "changed"
    elif op == "columns name":
        df.columns.name = "changed"
    elif op in ("index data", "columns data"):  # the array behind an axis
        a = getattr(df, op.split()[0]).values
        if len(a) and a.flags.writeable:
            k = r.randint(len(a))
            a[k] = np.datetime64("1999-12-31") if a.dtype.kind == "M" else "written" if a.dtype.kind == "O" else 0
    elif op == "clear":
        df.drop(index=df.index, inplace=True)
    elif op == "reset":
        df.reset_index(inplace=True, drop=True)
    elif op == "index":
        df.index = range(len(df))
    elif c is None or not len(df):
        return
    elif op == "cell":
        df.iloc[i, j] = x
    elif op == "column":
        df[c] = x
    elif op == "scale":
        df *= x
    elif op == "values":
        a = df.values
        if a.flags.writeable:
            a[i, j] = x
        b = df[c].to_numpy()
        if b.flags.writeable:
            b[:] = x
    elif op == "drop rows":
        df.drop(index=df.index[: i + 1], inplace=True)
    elif op == "drop columns":
        df.drop(columns=[c], inplace=True)
    elif op == "new column":
        df.insert(0, f"n{df.shape[1]}", x)
    elif op == "rename":
        df.rename(columns={c: "renamed"}, inplace=True)
    elif op == "columns":
        df.columns = [f"k{n}" for n in range(df.shape[1])]
    elif op == "sort":
        df.sort_values(c, inplace=True)
    elif op == "fill":
        df.where(df > 0, x, inplace=True)
    elif op == "astype":
        df[c] = df[c].astype(str)
    elif op == "series":
        s = df[c]
        s.iloc[i] = x
    elif op == "update":
        df.update(pd.DataFrame({c: [x]}, index=[df.index[i]]))
    elif op == "clip":
        df.clip(upper=0.0, inplace=True)
    elif op == "extend":
        df.loc[pd.Timestamp("2030-01-01")] = x


@st.composite
def case_st(draw):
    return {"ops": draw(st.lists(st.one_of(
        st.just(["get"]),
        st.tuples(st.just("modify"), st.integers(0, 5), st.sampled_from(OPS), fl(-1e3, 1e3)).map(list),
        st.sampled_from([["chdir"], ["again"], ["pickle"], ["compute"], ["access twice"]])), min_size=1, max_size=14)), "seed": draw(SEEDS)}


def run(case, ctx):
    ns = NS("native", ctx.native._path)  # freshly imported: the first access counts too
    if "want" not in ctx.cache:
        ctx.cache["want"] = shipped(ctx.native._path)
    want = ctx.cache["want"]
    D, r = ns.datasets, np.random.RandomState(case["seed"])
    held, changed, home, dirty = [], 0, os.getcwd(), set()
    try:
        for n, op in enumerate([*case["ops"], ["get"]]):
            if op[0] in ("get", "access twice"):
                f = D.StockReturns.stocks_us
                judge(f, want, f"access {len(held)} (step {n}, after {changed} modifications)")
                held.append(f)
                ctx.nt(changed > 0)
            elif op[0] == "modify":
                f = held[op[1] % len(held)] if held else D.StockReturns.stocks_us
                if not held:
                    held.append(f)
                dirty.add(id(f))
                try:
                    modify(f, op[2], op[3], r)
                except (TypeError, ValueError, KeyError):  # pandas does not allow it on what the frame has become
                    pass
                changed += 1
                ctx.label(op[2])
            elif op[0] == "chdir":
                os.chdir("/")
            elif op[0] == "again":
                held.append(type(D.StockReturns)().stocks_us)
                judge(held[-1], want, f"another instance (step {n})")
            elif op[0] == "pickle" and held:
                held.append(pickle.loads(pickle.dumps(held[0])))
                dirty.add(id(held[-1]))
            elif op[0] == "compute":
                D.StockReturns.stocks_us.pct_change().mean()
        for k, f in enumerate(held):
            if id(f) not in dirty:
                judge(f, want, f"frame {k}, itself never modified, after {changed} modifications of others")
        ctx.label(f"{min(len(held), 4)} frames")
    finally:
        os.chdir(home)


SCALE = 4  # quick-tier case counts are multiplied by this
FACETS = [Facet("accesses", case_st, run, "an access after a modification of an earlier frame", 500, 12000, shards=4, tshards=8)]
ASSUMPTIONS = ["the shipped file itself is the definition of the data", "modifications go through pandas; raw buffers of an immutable index are not overwritten"]
