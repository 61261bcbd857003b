"""Frames for the isolation forest."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vf.gen import fl

NUM = st.one_of(st.integers(-3, 3).map(float), fl(-100, 100), st.sampled_from([float("nan"), float("inf"), -1e300, 0.0]))
TXT = st.one_of(st.text(alphabet="abA z0~", max_size=6), st.text(alphabet="ab~é日ÿ", max_size=4))
# a beginning shared by the cells of a column: texts that differ only after many characters
PREFIX = st.one_of(st.just(""), st.builds(lambda c, k: c * k, st.sampled_from(["a", "ab", "z~0"]), st.sampled_from([8, 16, 31, 32, 33, 64, 100, 260])))


@st.composite
def frame(draw, min_rows=1, max_rows=8, max_cols=4, min_cols=1, other=False):
    """{"num": [[...]], "txt": [[...]], "bool": k, "order": positions}"""
    n = draw(st.integers(min_rows, max_rows))
    k = draw(st.integers(min_cols, max_cols))
    cols = []
    for _ in range(k):
        if draw(st.integers(0, 2)) == 0:
            pre, keep = draw(PREFIX), draw(st.booleans())
            cells = draw(st.lists(TXT, min_size=n, max_size=n))
            cols.append(["t", [c if keep and not c else pre + c for c in cells]])
        else:
            vals = draw(st.lists(NUM, min_size=n, max_size=n))
            cols.append(["n", ["nan" if v != v else "inf" if v == float("inf") else v for v in vals]])
    if other:
        for _ in range(draw(st.integers(0, 2))):
            cols.insert(draw(st.integers(0, len(cols))), ["b", draw(st.lists(st.booleans(), min_size=n, max_size=n))])
    return cols


def values(col):
    return [float(v) if col[0] == "n" else v for v in col[1]]


def to_frame(cols, index=None):
    d = {f"c{i}": pd.Series(values(c), dtype=object if c[0] == "t" else float if c[0] == "n" else bool) for i, c in enumerate(cols)}
    f = pd.DataFrame(d)
    if index is not None:
        f.index = index
    return f


def ordered(cols):
    """Value lists in the order of the forest's attributes: numeric columns, then text columns."""
    return [values(c) for c in cols if c[0] == "n"] + [values(c) for c in cols if c[0] == "t"]
