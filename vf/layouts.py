"""The same numbers in other memory layouts, storage types and containers."""
import numpy as np
import pandas as pd

INTS = ("int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64")
LAYOUTS = ("plain", "strided", "reversed", "column", "readonly", "bigendian", "unaligned", "fortran")
CONTAINERS = ("list", "tuple", "series", "indexed")
ALL = LAYOUTS + INTS + ("float32",) + CONTAINERS


def fits(a, dtype):
    i = np.iinfo(dtype)
    return bool(np.all(a == np.round(a))) and a.min() >= i.min and a.max() <= i.max


def make(a, how, containers=False, f32=True):
    """(`a` as `how`, what was actually done).  Falls back to a strided view where `how` does not apply."""
    a = np.array(a, float)
    if how in INTS:
        return (a.astype(how), how) if a.size and fits(a, how) else make(a, "strided")
    if how == "float32":
        return (a.astype(how), how) if f32 and np.array_equal(a.astype(how).astype(float), a) else make(a, "reversed")
    if how in CONTAINERS:
        if not containers or a.ndim != 1:
            return make(a, "strided")
        if how == "list":
            return a.tolist(), how
        if how == "tuple":
            return tuple(a.tolist()), how
        return pd.Series(a, index=None if how == "series" else np.arange(len(a))[::-1] + 3), how
    if how == "strided":
        big = np.full(tuple(2 * n + 1 for n in a.shape), -7.7e77)
        v = big[tuple(slice(1, 2 * n + 1, 2) for n in a.shape)]
        v[...] = a
        return v, how
    if how == "reversed":
        s = tuple(slice(None, None, -1) for _ in a.shape)
        return np.ascontiguousarray(a[s])[s], how
    if how == "column":
        big = np.full((*a.shape, 3), 6.6e66)
        big[..., 1] = a
        return big[..., 1], how
    if how == "readonly":
        a.setflags(write=False)
        return a, how
    if how == "bigendian":
        return a.astype(">f8"), how
    if how == "unaligned":
        buf = np.zeros(a.nbytes + 1, np.uint8)
        v = buf[1:].view(np.float64).reshape(a.shape)
        v[...] = a
        return v, how
    if how == "fortran":
        return np.asfortranarray(a), how
    return a, "plain"
