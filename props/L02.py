"""L02: the long-run MES is the documented Monte Carlo average, reproducibly."""
import numpy as np
from hypothesis import strategies as st

from ref import lrmes as ref
from vf.core import Discard, Facet, Violation
from vf.garchgen import pair_regime, simulate_pair
from vf.gen import SEEDS, fl
from vf.lrmesgen import fitted, inject, pars, perfect, tol

VARIANTS = ("native", "pure")
C = st.one_of(fl(-0.4, 0.2), st.sampled_from([-0.1, 0.0, 1e9, -1.0]))
SIM = {"h": st.integers(1, 40), "S": st.integers(1, 150), "C": C, "seed": st.integers(0, 10**9)}


def D(**kw):
    return st.fixed_dictionaries(kw)


def agree(got, want, what, n, t):
    if not abs(got - want) <= t * (1 + abs(want)):
        raise Violation(f"{what}: {got!r}, expected {want!r} ({n} events)", "average")


def run_state(case, ctx):
    f, q = case["fit"], case["sim"]
    for v in VARIANTS:
        o, (ei, si, em, sm) = inject(ctx.variant(v), f)
        try:
            want, n = ref.estimate(ei, si, em, sm, pars(f), f["a"], f["b"], q["h"], q["S"], q["C"], q["seed"], perfect(f))
        except ref.Tie:
            raise Discard("tie")
        ctx.nt(0 < n < q["S"])
        ctx.label("no event" if n == 0 else "all events" if n == q["S"] else "some events")
        np.random.seed(case["glob"] % 2**32)
        agree(o.estimate(q["h"], q["S"], q["C"], q["seed"]), want, v, n, tol(f))
        agree(o.estimate(h=q["h"], S=q["S"], C=q["C"], random_seed=q["seed"]), want, f"{v} again", n, tol(f))


OPS = st.one_of(
    st.tuples(st.just("est"), st.integers(0, 1), st.integers(1, 25), st.integers(1, 60), C, st.integers(0, 3)),
    st.tuples(st.just("fit"), st.integers(0, 1)),
    st.tuples(st.just("global"), SEEDS),
    st.tuples(st.just("draw"), st.integers(1, 5)),
)


@st.composite
def real_case(draw):
    return {"twin": draw(st.sampled_from([None] * 10 + [1.0, 1.0, -1.0, 0.5, 2.0])), "pair": draw(pair_regime(80, 250)), "ops": [list(o) for o in draw(st.lists(OPS, min_size=1, max_size=8))],
            "last": [draw(st.integers(1, 30)), draw(st.integers(10, 200)), draw(C), draw(st.integers(0, 3))],
            "variant": draw(st.sampled_from(["native", "native", "pure"]))}


def run_real(case, ctx):
    """End to end: simple returns in, several objects over the same data, any calls in between."""
    ns = ctx.variant(case["variant"])
    x, y = simulate_pair(case["pair"], 0)
    if case["twin"]:  # an index fund, a levered one, a short one
        x = case["twin"] * y
    fi, mk = np.expm1(np.clip(x, -60, 60) / 100), np.expm1(np.clip(y, -60, 60) / 100)
    # the models of the documentation: GJR-GARCH-DCC on percentage log returns
    m1, m2 = ns.alg.GJRGARCHModel(100 * np.log(1 + fi)), ns.alg.GJRGARCHModel(100 * np.log(1 + mk))
    d = ns.alg.GJRGARCHModel_DCC(m1, m2)
    d.fit()
    if not (m1.estimation_success and m2.estimation_success and d.estimation_success):
        raise Discard("estimation failed")
    s = {k: {n: getattr(m.parameters, n) for n in ("mu", "omega", "alpha", "gamma", "beta")} for k, m in (("i", m1), ("m", m2))}
    objs = [ns.measures.LongRunMarginalExpectedShortfall(fi.copy(), mk.copy()) for _ in range(2)]
    seen = {}
    events = 0
    for k, op in enumerate(case["ops"] + [["est", 0, *case["last"]], ["est", 1, *case["last"]]]):
        if op[0] == "global":
            np.random.seed(op[1] % 2**32)
        elif op[0] == "draw":
            np.random.random(op[1])
        elif op[0] == "fit":
            objs[op[1]].dcc_model.fit()
        else:
            q = tuple(op[2:])
            got = objs[op[1]].estimate(q[0], q[1], q[2], q[3])
            if q not in seen:
                try:
                    seen[q] = ref.estimate(m1.resids, m1.sigma2, m2.resids, m2.sigma2, s, d.parameters.a, d.parameters.b, *q, "near" if case["twin"] else False)
                except ref.Tie:
                    continue
            want, n = seen[q]
            events += 0 < n < q[1]
            if not abs(got - want) <= (1e-5 if case["twin"] else 1e-6) * (1 + abs(want)):
                raise Violation(f"{case['variant']} step {k} {op}: {got!r}, expected {want!r} ({n} events)", "history")
    ctx.nt(events > 0)
    ctx.label(case["variant"], "tracker" if case["twin"] else "firm")


def run_defaults(case, ctx):
    """The documented defaults: 22 days, 10000 paths, a fall of 10 %, seed 42."""
    f = case["fit"]
    o, (ei, si, em, sm) = inject(ctx.native, f)
    try:
        want, n = ref.estimate(ei, si, em, sm, pars(f), f["a"], f["b"], 22, 10000, -0.1, 42, perfect(f))
    except ref.Tie:
        raise Discard("tie")
    ctx.nt(0 < n < 10000)
    agree(o.estimate(), want, "default call", n, tol(f))


@st.composite
def extreme_case(draw):
    """Many paths, many days of data or a long horizon: one of them at a time."""
    how = draw(st.sampled_from(["paths", "data", "horizon"]))
    S, h, T = {"paths": (st.integers(10001, 40000), st.integers(1, 2), 60), "data": (st.integers(5, 60), st.integers(2, 25), 4000), "horizon": (st.integers(2, 12), st.integers(100, 1200), 60)}[how]
    f = draw(fitted(60))
    return {"how": how, "fit": dict(f, T=draw(st.integers(300, T))) if how == "data" else f, "sim": {"h": draw(h), "S": draw(S), "C": draw(C), "seed": draw(st.integers(0, 10**9))},
            "variant": draw(st.sampled_from(VARIANTS))}


def run_extreme(case, ctx):
    f, q = case["fit"], case["sim"]
    o, (ei, si, em, sm) = inject(ctx.variant(case["variant"]), f)
    try:
        want, n = ref.estimate(ei, si, em, sm, pars(f), f["a"], f["b"], q["h"], q["S"], q["C"], q["seed"], perfect(f))
    except ref.Tie:
        raise Discard("tie")
    ctx.nt(0 < n < q["S"])
    ctx.label(case["how"], case["variant"])
    agree(o.estimate(q["h"], q["S"], q["C"], q["seed"]), want, f"{case['variant']}, {case['how']}", n, tol(f))


FACETS = [
    Facet("extremes", extreme_case, run_extreme, "some but not all paths are systemic", 60, 1500, shards=4, tshards=8, variants=VARIANTS, weight=3),
    Facet("defaults", lambda: D(fit=fitted(60)), run_defaults, "some but not all paths are systemic", 6, 100, shards=2, weight=3),
    Facet("state", lambda: D(fit=fitted(120), sim=D(**SIM), glob=SEEDS), run_state, "some but not all paths are systemic", 900, 20000, shards=5, tshards=8,
          variants=VARIANTS, weight=2),
    Facet("history", real_case, run_real, "at least one estimate with some but not all paths systemic", 240, 6000, shards=5, tshards=8, variants=VARIANTS, weight=3),
]
ASSUMPTIONS = ["the resampling scheme (one Generator per seed, one draw of h days per path in path order) is the documented one and part of reproducibility",
               "paths whose market return is within 1e-9 of the threshold are not judged"]
