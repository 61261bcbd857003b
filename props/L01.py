"""L01: one simulated path of the long-run MES follows the documented forecast recursion."""
import numpy as np
from hypothesis import strategies as st

from ref import lrmes as ref
from vf.core import Discard, Facet, Violation
from vf.gen import SEEDS, fl, length, logfl
from vf.lrmesgen import asset, fitted, inject, pars, perfect, tol

VARIANTS = ("native", "pure")
C = st.one_of(fl(-0.4, 0.3), st.sampled_from([-0.1, 0.0, 1e9, -1.0]), st.just(1e9))


@st.composite
def path_case(draw):
    t, s = draw(fl(0, 1)), draw(st.one_of(fl(0, 1), st.sampled_from([0.0, 1.0])))
    i, m = draw(asset()), draw(asset())
    twin = draw(st.sampled_from([0.0] * 8 + [1.0, -1.0]))  # a firm that moves one for one with, or against, the market
    return {"twin": twin, "i": i, "m": m, "a": 0.5 * t * s, "b": s - 0.5 * t * s, "h": draw(length(1, 40, 600)), "seed": draw(SEEDS), "C": draw(C),
            "zi": draw(fl(-4, 4)), "zm": draw(fl(-4, 4)), "vi": draw(logfl(0.05, 30)), "vm": draw(logfl(0.05, 30)),
            "rho": draw(fl(-0.99, 0.99)), "qbar": draw(fl(-0.99, 0.99)), "explicit": draw(st.one_of(st.none(), st.lists(st.tuples(fl(-5, 5), fl(-5, 5)), min_size=1, max_size=6)))}


def run_path(case, ctx):
    if case["twin"]:
        case = dict(case, zi=case["twin"] * case["zm"], rho=case["twin"], qbar=case["twin"])
    if case["explicit"]:
        inv = np.array([list(p) for p in case["explicit"]])
    else:
        inv = np.random.RandomState(case["seed"]).standard_normal((case["h"], 2))
    s = {"i": dict(case["i"], sigma2=case["vi"], resid=case["zi"] * np.sqrt(case["vi"])),
         "m": dict(case["m"], sigma2=case["vm"], resid=case["zm"] * np.sqrt(case["vm"]))}
    try:
        want, event = ref.path(inv.tolist(), case["C"], s, case["rho"], case["qbar"], case["a"], case["b"], bool(case["twin"]))
    except (ref.Tie, ZeroDivisionError):
        raise Discard("tie or 0/0")
    ctx.nt(event and len(inv) > 1 and case["a"] > 0 and case["i"]["gamma"] > 0)
    ctx.label("event" if event else "no event", "one for one" if case["twin"] else "own shocks")
    Q = np.array([[1.0, case["qbar"]], [case["qbar"], 1.0]])
    for v in VARIANTS:
        ns = ctx.variant(v)
        if v not in ctx.cache:
            ctx.cache[v] = ns.measures.LongRunMarginalExpectedShortfall(np.array([0.01, -0.02, 0.03]), np.array([0.01, 0.02, -0.03]))
        o = ctx.cache[v]
        for m, p in ((o.firm_model, case["i"]), (o.market_model, case["m"])):
            m.parameters = type(m).Parameters(p["mu"], p["omega"], p["alpha"], p["gamma"], p["beta"], -1.0)
        got, ev = o.simulation(innovation=inv.copy(), C=case["C"], firm_var=case["vi"], mkt_var=case["vm"], firm_resid=s["i"]["resid"],
                               mkt_resid=s["m"]["resid"], a=case["a"], b=case["b"], rho=case["rho"], Q_bar=Q.copy())
        if bool(ev) != event:
            raise Violation(f"{v} method: systemic event {bool(ev)}, expected {event}", "event")
        if not abs(got - want) <= (1e-6 if case["twin"] else 1e-8) * (1 + abs(want)):
            raise Violation(f"{v} method: firm return {got!r}, expected {want!r}", "return")


@st.composite
def one_case(draw):
    return {"fit": draw(st.one_of(fitted(), fitted(400))), "h": draw(length(1, 30, 500)), "C": draw(C), "seed": draw(st.integers(0, 10**6))}


def run_one(case, ctx):
    """A single path through `estimate` (which uses the compiled routine where there is one)."""
    f = case["fit"]
    for v in VARIANTS:
        o, (ei, si, em, sm) = inject(ctx.variant(v), f)
        try:
            want, n = ref.estimate(ei, si, em, sm, pars(f), f["a"], f["b"], case["h"], 1, case["C"], case["seed"], perfect(f))
        except ref.Tie:
            raise Discard("tie")
        ctx.nt(n == 1 and f["a"] > 0 and case["h"] > 1)
        ctx.label("event" if n else "no event")
        got = o.estimate(case["h"], 1, case["C"], case["seed"])
        if not abs(got - want) <= tol(f) * (1 + abs(want)):
            raise Violation(f"{v}: a single path gives {got!r}, expected {want!r} (event: {bool(n)})", "path")


SCALE = 4  # quick-tier case counts are multiplied by this
FACETS = [
    Facet("method", path_case, run_path, "a systemic path of several days with leverage and moving correlation", 3000, 50000, shards=4, tshards=8, variants=VARIANTS),
    Facet("single", one_case, run_one, "a systemic path of several days with moving correlation", 2400, 40000, shards=4, tshards=8, variants=VARIANTS),
]
ASSUMPTIONS = ["paths whose market return is within 1e-9 of the threshold are not judged",
               "models are put in a fitted state by setting resids, sigma2, parameters and estimation_success, the attributes fit sets"]
