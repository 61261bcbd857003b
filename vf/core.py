"""Facets, violations and the child-side runner.

A property is a list of facets.  A facet couples a Hypothesis strategy producing a
JSON-able case with a `run(case, ctx)` function that judges it against an oracle.
"""
import dataclasses
import hashlib
import importlib
import json
import math
import os
import sys
import time
import traceback
import warnings


class Violation(Exception):
    """The code under test broke the property on this case."""

    def __init__(self, msg, sig=""):
        super().__init__(msg)
        self.sig = sig


class HarnessError(Exception):
    """The machinery itself cannot do its work: an error exit, never a violation."""


class Discard(Exception):
    """The generated case is outside the property's domain (counted, not judged)."""


@dataclasses.dataclass
class Facet:
    name: str
    strategy: object  # callable() -> hypothesis strategy
    run: object  # callable(case, ctx)
    rule: str  # what makes a case non-trivial
    quick: int = 100
    thorough: int = 2000
    shards: int = 1  # processes used in the quick tier
    tshards: int = 4
    weight: float = 1.0
    env: dict = None  # extra environment of the child
    launcher: tuple = ()  # command prefix of the child (e.g. taskset)
    variants: tuple = ("native",)
    probes: tuple = ()  # cases always run first


class NS:
    """The modules of one build variant of frds, imported side by side."""

    MODS = {
        "frds": "frds",
        "alg": "frds.algorithms",
        "garch": "frds.algorithms._garch",
        "mgarch": "frds.algorithms._mgarch",
        "measures": "frds.measures",
        "lrmes": "frds.measures._long_run_mes",
        "spread": "frds.measures.spread",
        "impact": "frds.measures.price_impact",
        "lob": "frds.measures.lob_slope",
        "datasets": "frds.datasets",
        "iforest": "frds.algorithms.isolation_forest",
        "mm": "frds.measures.modified_merton.mod_merton_computation",
        "mm1": "frds.measures.modified_merton.mod_single_cohort_computation",
        "mm1sol": "frds.measures.modified_merton.mod_single_cohort_solution",
        "lookup": "frds.measures.modified_merton.mod_merton_create_lookup",
        "lookup1": "frds.measures.modified_merton.mod_single_merton_create_lookup",
        "mmsim": "frds.measures.modified_merton.mod_merton_simulation",
        "merton": "frds.measures.modified_merton.merton_solution",
        "face": "frds.measures.modified_merton.find_face_value_indiv",
        "payoff": "frds.measures.modified_merton.loan_payoff",
        "fft": "frds.measures.modified_merton.fftsmooth",
    }

    def __init__(self, variant, path):
        self._variant = variant
        self._path = path
        self._mods = {}

    def _swap_in(self):
        saved = {k: v for k, v in sys.modules.items() if k == "frds" or k.startswith("frds.")}
        for k in saved:
            del sys.modules[k]
        sys.modules.update(self._mods)
        sys.path.insert(0, self._path)
        importlib.invalidate_caches()
        return saved

    def _swap_out(self, saved):
        for k in [k for k in sys.modules if k == "frds" or k.startswith("frds.")]:
            self._mods[k] = sys.modules.pop(k)
        sys.modules.update(saved)
        sys.path.remove(self._path)

    def load(self, dotted):
        if dotted in self._mods:
            return self._mods[dotted]
        saved = self._swap_in()
        try:
            mod = importlib.import_module(dotted)
            root = sys.modules["frds"].__path__[0]
            if not root.startswith(self._path):
                raise HarnessError(f"imported frds from {root}, wanted {self._path}")
        finally:
            self._swap_out(saved)
        return self._mods[dotted]

    def __getattr__(self, name):
        if name.startswith("_") or name not in NS.MODS:
            raise AttributeError(name)
        return self.load(NS.MODS[name])


class Ctx:
    def __init__(self, paths, tier, seed):
        self.tier, self.seed = tier, seed
        self._ns = {v: NS(v, p) for v, p in paths.items()}
        self.cache = {}
        self.reset()

    def reset(self):
        self.labels = set()
        self.nontrivial = False

    @property
    def native(self):
        return self._ns["native"]

    @property
    def pure(self):
        return self._ns["pure"]

    def variant(self, name):
        return self._ns[name]

    def label(self, *names):
        self.labels.update(names)

    def nt(self, cond=True):
        if cond:
            self.nontrivial = True


def case_key(case):
    return hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()[:24]


def known_sigs(prop):
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
    if not os.path.exists(path):
        return {}
    with open(path) as f:
        data = json.load(f)
    return {(e["facet"], e["sig"]): e for e in data.get("findings", []) if e["property"] == prop}


def judge(facet, case, ctx):
    """Run one case.  Returns None, or (message, sig) for a violation."""
    ctx.reset()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            import numpy as np

            with np.errstate(all="ignore"):
                facet.run(case, ctx)
    except Violation as e:
        return (str(e), e.sig)
    except (HarnessError, Discard, KeyboardInterrupt, MemoryError):
        raise
    except Exception as e:
        tb = traceback.format_exc(limit=-6)
        return (f"unexpected {type(e).__name__}: {e}\n{tb}", f"exc:{type(e).__name__}")
    return None


def run_shard(prop, facet, shard, nshards, ctx, out_path, budget_s, n_examples):
    """Hypothesis search of one facet in this process; writes a JSON report."""
    from hypothesis import HealthCheck, Phase, given, seed, settings
    from hypothesis.errors import UnsatisfiedAssumption
    import hypothesis

    known = known_sigs(prop)
    cur_path = out_path + ".cur"
    rep = dict(facet=facet.name, shard=shard, evaluations=0, discarded=0, labels={}, known={}, samples=[],
               violation=None, budget_hit=False, harness_error=None)
    nontrivial, seen, failed = set(), set(), {}
    t0 = time.time()
    first_fail = [None]
    shrink_s = 40.0

    def one(case):
        key = case_key(case)
        if key in failed:
            raise Violation(*failed[key])
        if key in seen:
            return
        now = time.time()
        if first_fail[0] is not None and now - first_fail[0] > shrink_s:
            return
        if now - t0 > budget_s:
            rep["budget_hit"] = True
            return
        with open(cur_path, "w") as f:
            json.dump(case, f)
        rep["evaluations"] += 1
        try:
            res = judge(facet, case, ctx)
        except Discard:
            rep["discarded"] += 1
            seen.add(key)
            raise UnsatisfiedAssumption()
        if ctx.nontrivial:
            if key not in nontrivial:
                nontrivial.add(key)
                if len(rep["samples"]) < 2:
                    rep["samples"].append(case)
        for l in ctx.labels:
            rep["labels"][l] = rep["labels"].get(l, 0) + 1
        if res is not None:
            if (facet.name, res[1]) in known:
                rep["known"][res[1]] = rep["known"].get(res[1], 0) + 1
                seen.add(key)
                return
            failed[key] = res
            if first_fail[0] is None:
                first_fail[0] = now
            rep["violation"] = dict(case=case, msg=res[0], sig=res[1])
            raise Violation(*res)
        seen.add(key)

    try:
        if shard == 0:
            for case in facet.probes:
                one(case)
        strat = facet.strategy()
        test = given(strat)(one)
        test = settings(
            max_examples=max(1, n_examples), database=None, deadline=None, derandomize=False,
            suppress_health_check=list(HealthCheck), phases=(Phase.generate, Phase.shrink),
            print_blob=False, report_multiple_bugs=False, verbosity=hypothesis.Verbosity.quiet,
        )(test)
        test = seed(ctx.seed * 1009 + shard * 7919 + int(hashlib.sha256(facet.name.encode()).hexdigest()[:6], 16))(test)
        test()
    except Violation:
        pass
    except HarnessError as e:
        rep["harness_error"] = f"{e}"
    except BaseException as e:  # Flaky & co.: keep the recorded failing case
        if not failed:
            rep["harness_error"] = traceback.format_exc()[-3000:]
    rep["nontrivial"] = sorted(nontrivial)
    rep["wall"] = time.time() - t0
    with open(out_path + ".tmp", "w") as f:
        json.dump(rep, f)
    os.rename(out_path + ".tmp", out_path)
