"""K04: the published simulation study shows what its building blocks give."""
import contextlib
import io
import math
import os
import random
import re
import tempfile
import warnings
from pathlib import Path

import numpy as np
from hypothesis import strategies as st
from scipy.interpolate import griddata
from scipy.optimize import brentq
from scipy.special import ndtri

from ref import merton as ref
from vf.core import Facet, HarnessError, Violation
from vf.gen import SEEDS
from vf.mertongen import NAMES

FS = np.arange(33) * 0.05 - 0.8
R, DEP, PAY, T, H, N, LTV = 0.01, 0.005, 0.002, 10, 5, 10, 0.66
BOOKD = 0.63 * np.mean(np.exp(R * np.arange(1, T + 1)))
D = BOOKD * math.exp(R * H)
UNIT = 0.2 * math.sqrt(0.5) * math.sqrt(10)
FILES = ("figure2_PayoffsAtDMat.pdf", "figure3_mVe.pdf", "figure4_mdef.pdf", "figure5_panel_a_mdefsingles.pdf", "figure5_panel_b_mertalt.pdf")
ROWS = ("Agg. Borrower Asset Value", "Bank Asset Value", "Bank Market Equity/Market Assets", "Bank 5Y RN Default Prob.", "Bank Credit Spread (%)",
        "Merton 5Y RN Default Prob.", "Merton Credit Spread (%)")


def merton_fit(E, vE):
    """Asset value and volatility of the standard Merton model (with payout) that have this equity; None when not unique."""
    q, paid = math.exp(-PAY * H), 1 - math.exp(-PAY * H)
    call = lambda A, s: ref.bls(A, D, R, H, s, PAY)[0] + A * paid

    def assets(s):
        return brentq(lambda a: call(a, s) - E, 1e-9, E / paid + 10, xtol=1e-15, rtol=1e-14)

    def gap(s):
        A = assets(s)
        d1 = (math.log(A / D) + (R - PAY + s * s / 2) * H) / (s * math.sqrt(H))
        return (q * ref.cdf(d1) + paid) * A * s / E - vE
    grid = np.geomspace(2e-3, 3, 60)
    g = [gap(s) for s in grid]
    k = [i for i in range(59) if (g[i] < 0) != (g[i + 1] < 0)]
    if len(k) != 1:
        return None
    s = brentq(gap, grid[k[0]], grid[k[0] + 1], xtol=1e-14, rtol=1e-13)
    return assets(s), s


def distance(A, s):
    return (math.log(A) - math.log(D) + (R - PAY - s * s / 2) * H) / (s * math.sqrt(H))


def expected(ns, n, cache):
    if n in cache:
        return cache[n]
    p = [R, T, 0.66, H, D, 0.5, LTV, 0.2, DEP, PAY, 0.5]
    w = ndtri(np.random.RandomState(1).rand(3 * N, n)).T
    o = dict(zip(NAMES, ns.mm.mod_merton_computation(FS / UNIT, list(p), N, n, w)))
    o = {k: np.asarray(v, float) for k, v in o.items()}
    K = len(FS)
    fits = [merton_fit(o["Et"][k], o["sigEt"][k]) for k in range(K)]
    o["fits"] = fits
    o["mertdef"] = np.array([np.nan if f is None else ref.cdf(-distance(*f)) for f in fits])
    q = D * math.exp(-R * H)
    o["mertsp"] = np.array([np.nan if f is None else math.log(q / (q - ref.bls(f[0], D, R, H, f[1], PAY)[1])) / H for f in fits])
    o["ratio"] = o["Et"] / (o["Et"] + o["Bt"])
    o["spread"] = np.log(q / o["Bt"]) / H
    o["alt"] = np.array([ref.cdf(-distance(o["Lt"][k], o["sigLt"][k])) if o["sigLt"][k] > 0 else np.nan for k in range(K)])
    sfs = (np.arange(69) * 0.05 - 2.6) / UNIT
    F = 0.4 + 0.01 * np.arange(105)
    for name, rho, sig in (("cohort", 0.5, 0.2), ("borrower", 0.99, 0.2 * math.sqrt(0.5))):
        g = np.meshgrid(sfs, [sig], [R], F, indexing="ij")
        _, _, E, _, m, v = ns.lookup1.mod_single_merton_create_lookup(DEP, PAY, 5, H, BOOKD, rho, LTV, g[0], g[2], g[3], g[1], N, n)
        pts = np.column_stack([E.ravel(), v.ravel()])
        o[name] = griddata(pts, m.ravel(), (o["Et"], o["sigEt"]), method="cubic")
        # the same with the table shaken in its last digits: where that matters, the triangulation decides
        shaken = pts * (1 + 1e-13 * np.random.RandomState(0).standard_normal(pts.shape))
        other = griddata(shaken, m.ravel(), (o["Et"], o["sigEt"]), method="cubic")
        o[name + " clear"] = np.isclose(o[name], other, rtol=0, atol=1e-7)
    o["j0"] = int(np.argmin(np.abs(o["mFt"] - math.exp(R * T / 2))))
    cache[n] = o
    return o


def snapshot(fig):
    """Data, limits and texts of a figure."""
    axes = []
    for ax in fig.get_axes():
        items = []
        for a in ax.get_children():
            if a in ax.collections and hasattr(a, "get_offsets"):
                items.append(("dots", np.array(a.get_offsets(), float)))
            elif a in ax.lines:
                items.append(("line", np.column_stack([np.array(a.get_xdata(), float), np.array(a.get_ydata(), float)])))
        leg = ax.get_legend()
        axes.append(dict(items=items, legend=[t.get_text() for t in leg.get_texts()] if leg else None, labels=(ax.get_xlabel(), ax.get_ylabel()), title=ax.get_title()))
    return axes


def run(case, ctx):
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.figure
    import matplotlib.pyplot as plt

    ns, n = ctx.native, case["n"]
    o = expected(ns, n, ctx.cache.setdefault("study", {}))
    sim = ns.mmsim.simulate
    saved = {}
    save = matplotlib.figure.Figure.savefig

    def record(self, fname, *a, **k):
        saved[os.path.abspath(os.fspath(fname))] = snapshot(self)
        return save(self, fname, *a, **k)
    with tempfile.TemporaryDirectory() as tmp:
        work = os.path.join(tmp, "work")
        there = os.path.join(tmp, case["dir"])
        os.makedirs(work)
        os.makedirs(there, exist_ok=True)
        before = os.getcwd()
        np.random.seed(case["state"])
        random.seed(case["state"])
        states = (np.random.get_state()[1].copy(), np.random.get_state()[2], random.getstate())
        out = io.StringIO()
        matplotlib.figure.Figure.savefig = record
        try:
            os.chdir(work)
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                filters = list(warnings.filters)
                err = np.geterr()
                with contextlib.redirect_stdout(out):
                    if case["how"] == "cwd":
                        sim(Nsim=n)
                    elif case["how"] == "path":
                        sim(n, Path(there))
                    else:
                        sim(n, direc=there)
                after = list(warnings.filters)
        finally:
            os.chdir(before)
            matplotlib.figure.Figure.savefig = save
            plt.close("all")
        target = work if case["how"] == "cwd" else there
        files = sorted(os.path.relpath(os.path.join(d, f), tmp) for d, _, fs in os.walk(tmp) for f in fs)
        want = sorted(os.path.relpath(os.path.join(target, f), tmp) for f in FILES)
        if files != want:
            raise Violation(f"files written: {files}, expected {want}", "files")
        for f in files:
            with open(os.path.join(tmp, f), "rb") as h:
                if h.read(5) != b"%PDF-":
                    raise Violation(f"{f} is not a PDF file", "files")
        figs = {os.path.basename(k): v for k, v in saved.items()}
    ctx.nt()
    ctx.label(case["how"], f"{n} paths")
    if after != filters:
        raise Violation("the warning filters changed", "filters")
    if np.geterr() != err:
        raise Violation("numpy's error handling changed", "geterr")
    now = (np.random.get_state()[1], np.random.get_state()[2], random.getstate())
    if not (np.array_equal(states[0], now[0]) and states[1:] == now[1:]):
        raise Violation("the global random state changed", "state")
    judge_table(out.getvalue(), o)
    if set(figs) != set(FILES):
        raise HarnessError(f"figures saved in another way: {sorted(figs)}")
    judge_figures(figs, o, ctx)


def judge_table(text, o):
    j = [o["j0"], o["j0"] + 8, o["j0"] - 8]
    values = (o["mFt"], o["Lt"], o["ratio"], o["mdef"], o["spread"] * 100, o["mertdef"], o["mertsp"] * 100)
    at = -1
    for row, val in zip(ROWS, values):
        lines = [k for k, l in enumerate(text.splitlines()) if l.strip().startswith(row)]
        if len(lines) != 1 or lines[0] <= at:
            raise Violation(f"{len(lines)} rows {row!r} in the table, or out of order:\n{text}", "rows")
        at = lines[0]
        got = [float(x) for x in re.findall(r"-?\d+\.\d+|nan", text.splitlines()[at].strip()[len(row):])]
        if len(got) != 3:
            raise Violation(f"row {row!r} has values {got}", "rows")
        for g, k, what in zip(got, j, ("no", "+ve", "-ve")):
            if not (np.isnan(val[k]) or abs(g - val[k]) <= 0.005 + 1e-4):
                raise Violation(f"table {row} ({what} shock): {g}, expected {val[k]:.4f}", f"table {row}")


def same(a, b, tol, free=0):
    if a.shape != b.shape:
        return False
    bad = ~((np.abs(a - b) <= tol) | (np.isnan(a) & np.isnan(b))).all(axis=1)
    return bad.sum() <= free


def judge_figures(figs, o, ctx):
    mF, j0 = o["mFt"], o["j0"]
    xy = lambda y: np.column_stack([mF, y])

    def need(ax, kind, data, what, tol=1e-6, free=0):
        cand = [d for k, d in ax["items"] if k == kind]
        if not any(same(d, data, tol, free) for d in cand):
            near = min((float(np.nanmax(np.abs(d - data))) for d in cand if d.shape == data.shape), default=None)
            raise Violation(f"{what} is not shown (nearest {kind} differ by {near})", what)

    def order(ax, names, sets, what):
        """legend entries belong to the artists in their order"""
        if ax["legend"] != names:
            raise Violation(f"{what}: legend {ax['legend']}", f"legend {what}")
        for name, (kind, d), want in zip(names, ax["items"], sets):
            if not same(d, want, 1e-3, len(d) // 3):
                raise Violation(f"{what}: what is called {name!r} is not that", f"legend {what}")
    fit_ok = ~np.isnan(o["mertdef"])
    ctx.label(f"unique Merton fits: {'all' if fit_ok.all() else 'most' if fit_ok.mean() > 0.8 else 'few'}")

    def dots_where(ax, y, ok, what, tol, free, kind="dots"):
        """as need, for the states where the expected value is determined"""
        cand = [d for k, d in ax["items"] if k == kind and d.shape == (len(mF), 2)]
        y = np.asarray(y)
        for d in cand:
            if np.max(np.abs(d[:, 0] - mF)) < 1e-6 and (~((np.abs(d[:, 1] - y) <= tol) | (np.isnan(y) & np.isnan(d[:, 1]))) & ok).sum() <= free:
                return d
        worst = [float(np.nanmax(np.where(ok, np.abs(d[:, 1] - y), 0))) for d in cand]
        raise Violation(f"{what} is not shown (largest differences {worst})", what)
    # figure 2: payoffs at debt maturity in the state without shock
    f2 = figs[FILES[0]]
    if len(f2) != 3:
        raise Violation(f"figure 2 has {len(f2)} panels", "panels")
    FH = o["FH"][:, j0]
    mface = o["face"][:, j0].max() * math.exp(-R * (T - H) / 2)
    need(f2[0], "dots", np.column_stack([FH, o["LH"][:, j0] + o["face"][:, j0] * (math.exp(PAY * H) - 1)]), "figure 2 bank assets")
    need(f2[1], "dots", np.column_stack([FH, o["EH"][:, j0]]), "figure 2 bank equity")
    need(f2[2], "dots", np.column_stack([FH, o["BH"][:, j0]]), "figure 2 bank debt")
    for ax, segs, what in ((f2[0], [(0, 0, mface, mface), (mface, mface, 2.5, mface)], "assets"), (f2[1], [(0, 0, D, 0), (D, 0, mface, mface - D), (mface, mface - D, 2.5, mface - D)], "equity"),
                           (f2[2], [(0, 0, D, D), (D, D, 2.5, D)], "debt")):
        for a, b, c, d in segs:
            need(ax, "line", np.array([[a, b], [c, d]], float), f"figure 2 payoff line of {what}")
    f3 = figs[FILES[1]][0]
    need(f3, "dots", xy(o["Et"]), "figure 3 equity")
    if "equity" not in f3["labels"][1].lower():
        raise Violation(f"figure 3 calls bank equity {f3['labels'][1]!r}", "figure 3 label")
    f4, fa, fb = figs[FILES[2]][0], figs[FILES[3]][0], figs[FILES[4]][0]
    drawn = []
    for ax, what in ((f4, "figure 4"), (fa, "figure 5a"), (fb, "figure 5b")):
        need(ax, "dots", xy(o["mdef"]), f"{what} default probabilities")
        drawn.append(dots_where(ax, o["mertdef"], fit_ok, f"{what} Merton default probabilities", 1e-4, 4))
    one = dots_where(fa, o["cohort"], o["cohort clear"], "figure 5a single cohort", 1e-5, 3, "line")
    two = dots_where(fa, o["borrower"], o["borrower clear"], "figure 5a single borrower", 1e-5, 3, "line")
    alt = dots_where(fb, o["alt"], np.ones(len(mF), bool), "figure 5b Merton with actual assets", 1e-4, 2, "line")
    actual = xy(o["mdef"])
    order(f4, ["Actual", "Merton Model"], [actual, drawn[0]], "figure 4")
    order(fa, ["Actual", "Single cohort", "Single borrower", "Merton Model"], [actual, one, two, drawn[1]], "figure 5a")
    order(fb, ["Actual", "Merton w/ actual asset value and volatility", "Merton Model"], [actual, alt, drawn[2]], "figure 5b")


def case_of():
    return st.fixed_dictionaries({"n": st.sampled_from([40, 40, 80, 120]), "how": st.sampled_from(["cwd", "given", "given", "path"]), "dir": st.sampled_from(["out", "a b/c", "out.pdf", "ü"]), "state": SEEDS})


FACETS = [Facet("study", case_of, run, "the study ran", 24, 300, shards=8, tshards=8, weight=4)]
ASSUMPTIONS = ["the multi-cohort computation and lookup tables are taken from the package itself (decided by K01 to K03)",
               "Merton estimates are compared where the equity equations have exactly one solution, and may be off in 4 of 33 states (the solver starts from one guess)",
               "interpolated probabilities are compared where rounding does not decide the triangulation"]
