"""K01: the multi-cohort modified Merton model equals its Matlab reference."""
import numpy as np
from hypothesis import strategies as st
from scipy.special import ndtri

from ref import merton as ref
from vf.core import Discard, Facet, Violation
from vf.mertongen import NAMES, accounting, compare, draw_w, model, unpack


def run(case, ctx):
    fs, p, N, n2 = unpack(case)
    w = draw_w(case["seed"], n2, 3 * N)
    try:
        want = ref.multi(fs, p, N, w)
    except ref.Ambiguous:
        raise Discard("sorting decided by rounding noise")
    except ref.NoYield:
        raise Discard("no promised yield")
    f = fs.reshape(-1, 1) if case["column"] else fs
    m = np.mean(want["mdef"])
    ctx.nt(0 < m < 1 and case["HN"] < N)
    ctx.label("guarantee" if case["g"] else "no guarantee", "H=T" if case["HN"] == N else "H<T", "never defaults" if m == 0 else "always" if m == 1 else "sometimes defaults",
              f"{len(fs)} states")
    got = ctx.native.mm.mod_merton_computation(f.copy(), list(p), N, n2, w.copy())
    o = compare(got, want, p[4], "computation", ctx.label)
    accounting(o, p, "computation")


@st.composite
def seed_case(draw):
    return dict(draw(model(max_n2=80, rolled=True)), rs=draw(st.one_of(st.none(), st.integers(0, 2**31 - 1))))


def same(a, b):
    return all(np.array_equal(np.asarray(x), np.asarray(y), equal_nan=True) for x, y in zip(a, b))


def run_seed(case, ctx):
    fs, p, N, n2 = unpack(case)
    try:
        ref.face_value(p[2], np.log(p[2] / p[6]), p[7], p[1], p[0], p[8])
    except ref.NoYield:
        raise Discard("no promised yield")
    f = ctx.native.mm.mod_merton_computation
    kw = {} if case["rs"] is None else {"random_seed": case["rs"]}
    seed = 1 if case["rs"] is None else case["rs"]
    a = f(fs.copy(), list(p), N, n2, **kw)
    np.random.seed(7)
    st0 = np.random.get_state()[1].copy()
    b = f(fs.copy(), list(p), N, n2, **kw)
    if not same(a, b):
        raise Violation("the same seed gives different results", "reproducible")
    if not np.array_equal(st0, np.random.get_state()[1]):
        raise Violation("the global random state changed", "global state")
    w = ndtri(np.random.RandomState(seed).rand(3 * N, n2)).T
    c = f(fs.copy(), list(p), N, n2, w=np.ascontiguousarray(w))
    if not all(np.allclose(x, y, rtol=1e-9, atol=1e-9, equal_nan=True) for x, y in zip(a, c)):
        raise Violation("without shocks, the result is not that of normal shocks from the seed", "own shocks")
    other = f(fs.copy(), list(p), N, n2, random_seed=seed + 1)
    if len(np.unique(a[11])) > 10 and same(a, other):
        raise Violation("another seed gives the same paths", "seed ignored")
    accounting(dict(zip(NAMES, a)), p, "seeded computation")
    ctx.nt(0 < np.mean(a[9]) < 1)
    # parameters of the same values in another container
    for q in (tuple(p), np.array(p)):
        if not same(f(fs.copy(), q, N, n2, w=w), c):
            raise Violation(f"parameters as {type(q).__name__} give another result", "container")


SCALE = 2  # quick-tier case counts are multiplied by this
FACETS = [Facet("reference", lambda: model(rolled=True), run, "default is possible but not certain and some loans are rolled over", 1500, 20000, shards=7, tshards=8, weight=2),
          Facet("seed", seed_case, run_seed, "default is possible but not certain", 1000, 16000, shards=2, tshards=4)]
ASSUMPTIONS = ["the reference is a scalar transcription of the Matlab sources shipped with the package (ModMertonComputation.m, LoanPayoff.m, fftsmooth.m, FindFaceValueIndiv.m)",
               "sorting keys within 1e-14 of a rounding boundary, which the reference sorts by noise, are not judged",
               "promised yields are accurate to the solver's tolerance, so values agree to 2e-7 of bank assets; debt maturity in whole steps and below loan maturity (the Matlab code does not run otherwise) and number of paths a multiple of 40"]
