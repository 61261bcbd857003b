"""K02: the single-cohort model and its solver objective equal their Matlab reference."""
import numpy as np
from hypothesis import strategies as st
from scipy.special import ndtri

from ref import merton as ref
from vf.core import Discard, Facet, Violation
from vf.gen import fl, logfl
from vf.mertongen import NAMES, accounting, compare, draw_w, model, unpack


@st.composite
def single(draw):
    return dict(draw(model(max_n2=160, max_fs=4)), extra=draw(st.booleans()), rs=draw(st.integers(0, 2**31 - 1)))


def run(case, ctx):
    fs, p, N, n2 = unpack(case)
    w = draw_w(case["seed"], n2, 3 * N if case["extra"] else N)
    try:
        want = ref.single(fs, p, N, w[:, :N])
    except ref.Ambiguous:
        raise Discard("sorting decided by rounding noise")
    except ref.NoYield:
        raise Discard("no promised yield")
    m = np.mean(want["mdef"])
    ctx.nt(0 < m < 1 and case["HN"] < N)
    ctx.label("guarantee" if case["g"] else "no guarantee", "H=T" if case["HN"] == N else "H<T", "never defaults" if m == 0 else "always" if m == 1 else "sometimes defaults",
              f"{len(fs)} states", "longer shocks" if case["extra"] else "exact shocks")
    f = ctx.native.mm1.mod_single_cohort_computation
    o = compare(f(fs.copy(), list(p), N, n2, w.copy()), want, p[4], "computation", ctx.label)
    accounting(o, p, "computation")
    # shocks of its own: normal shocks from the seed
    a = f(fs.copy(), list(p), N, n2, random_seed=case["rs"])
    c = f(fs.copy(), list(p), N, n2, ndtri(np.random.RandomState(case["rs"]).rand(N, n2)).T)
    if not all(np.allclose(x, y, rtol=1e-9, atol=1e-9, equal_nan=True) for x, y in zip(a, c)):
        raise Violation("without shocks, the result is not that of normal shocks from the seed", "own shocks")
    accounting(dict(zip(NAMES, a)), p, "seeded computation")


@st.composite
def solution_case(draw):
    c = draw(model(max_n2=160, max_fs=1))
    return dict(c, E=draw(fl(0, 2)), sigE=draw(fl(0, 2)), scalar=draw(st.sampled_from(["float", "np", "list", "array"])), F=draw(logfl(0.3, 4.0)))


def run_solution(case, ctx):
    fs, p, N, n2 = unpack(case)
    q = list(p)
    q[2] = case["F"]
    w = ndtri(np.random.RandomState(1).rand(N, n2)).T
    try:
        want = ref.single(fs, q, N, w)
    except ref.Ambiguous:
        raise Discard("sorting decided by rounding noise")
    except ref.NoYield:
        raise Discard("no promised yield")
    b = {"float": (float(fs[0]), case["F"]), "np": (np.float64(fs[0]), case["F"]), "list": [float(fs[0]), case["F"]], "array": np.array([fs[0], case["F"]])}[case["scalar"]]
    arg = list(p)
    got = np.asarray(ctx.native.mm1sol.mod_single_cohort_solution(b, arg, N, n2, case["E"], case["sigE"]), float)
    if arg != p:
        raise Violation(f"the caller's parameters became {arg}", "parameters changed")
    if got.shape != (2,):
        raise Violation(f"the objective has shape {got.shape}, a solver for two unknowns needs two values", "shape")
    scale = float(np.max(want["LH"])) + p[4]
    Lt, Et = want["full"]
    ctx.nt(Et[0] > 1e-3 * scale and case["F"] != p[2])
    ctx.label(case["scalar"])
    if not abs(got[0] - (case["E"] - want["Et"][0])) <= 4e-7 * scale:
        raise Violation(f"equity error {got[0]!r}, expected {case['E'] - want['Et'][0]!r}", "equity")
    if min(Et[1], Et[2]) > 1e-3 * scale and not abs(got[1] - (case["sigE"] - want["sigEt"][0])) <= 1e-2 * 2e-7 / 1e-4 * 10:
        raise Violation(f"volatility error {got[1]!r}, expected {case['sigE'] - want['sigEt'][0]!r}", "volatility")
    # it vanishes at the model's own equity value and volatility
    o = dict(zip(NAMES, ctx.native.mm1.mod_single_cohort_computation(fs.copy(), q, N, n2)))
    zero = np.asarray(ctx.native.mm1sol.mod_single_cohort_solution(b, list(p), N, n2, float(o["Et"][0]), float(o["sigEt"][0])), float)
    if np.isfinite(o["sigEt"][0]) and not np.all(np.abs(zero) <= 1e-12):
        raise Violation(f"at the model's own equity value and volatility the objective is {zero.tolist()}", "root")


SCALE = 2  # quick-tier case counts are multiplied by this
FACETS = [Facet("reference", single, run, "default is possible but not certain before the loans mature", 3000, 40000, shards=5, tshards=8, weight=2),
          Facet("solution", solution_case, run_solution, "equity is worth something and the loan size differs from the one in the parameters", 2400, 30000, shards=3, tshards=8)]
ASSUMPTIONS = ["the reference is a scalar transcription of ModSingleCohortComputation.m and ModSingleCohortSolution.m",
               "sorting keys closer than the nine decimals the translation sorts by are not judged; own shocks come from numpy's generator, as Matlab's stream cannot be reproduced",
               "values agree to 2e-7 of bank assets; debt maturity in whole steps and number of paths a multiple of 40"]
