"""Write MANIFEST.json from properties.jsonl and the checks that exist."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "V01": "Hypothesis generation against an independent reference recursion, plus metamorphic relations",
    "V02": "Hypothesis generation against a reference Gaussian likelihood, shift and scale relations",
    "V03": "Hypothesis generation of return series; invariants of the fit, self-consistency, batch optimality",
    "V04": "stateful (history) generation of fit sequences over shared models against fresh-model runs",
    "M01": "Hypothesis generation against scipy's bivariate normal, mirror and sign relations",
    "M02": "Hypothesis generation of return pairs; feasibility, self-consistency, batch dominance relations",
    "M03": "Hypothesis generation against an independent reference recursion, metamorphic relations",
    "M04": "Hypothesis generation against a reference likelihood; invariants and dominance of the fit",
    "N01": "differential testing of two builds (with and without the compiled extension) on generated inputs",
    "N02": "metamorphic testing: the same generated numbers under different layouts, types and containers",
    "N03": "fuzzing of AddressSanitizer and UBSan builds with generated inputs",
    "N04": "repetition of generated calls under memory, reference-count, file and thread monitors",
    "L01": "Hypothesis generation against a reference path recursion, both builds",
    "L02": "Hypothesis generation against a reference Monte Carlo; call-history generation",
    "S01": "Hypothesis generation against the formula on independently obtained shortfalls, multi-firm relations",
    "I01": "generated frames against an exact dynamic-programming expectation with sampling-error bounds; invariants",
    "I02": "metamorphic testing of generated frames (monotone transformations, column selection, equality)",
    "I03": "metamorphic testing over CPU affinities, processes, thread schedules and call histories",
    "R01": "Hypothesis generation against numerical integration of the lognormal law, no-arbitrage relations",
    "R02": "round-trip testing: generated firm -> observables -> estimated put, monotonicity relations",
    "R03": "Hypothesis generation against a reference eigen-decomposition; histories of estimates",
    "R04": "Hypothesis generation against a reference Monte Carlo and exact binomial expectation",
    "R05": "Hypothesis generation against reference statistics, equivariance relations",
    "R06": "Hypothesis generation against reference formulas and exact-recovery round trips",
    "R07": "Hypothesis generation against reference formulas, decomposition and invariance relations",
    "R08": "Hypothesis generation against reference formulas, mirror and homogeneity relations",
    "R09": "Hypothesis generation against an extended-precision mixture likelihood, differential between forms",
    "R10": "Hypothesis generation of counts; invariants of the estimate; histories of estimates on one object",
    "K01": "differential testing against an independent transcription of the Matlab reference, accounting invariants",
    "K02": "differential testing against an independent transcription of the Matlab reference",
    "K03": "reference formulas, round trips and table-versus-direct differential on generated arguments",
    "K04": "differential testing against an independent simulation written from the Matlab reference",
    "X01": "stateful generation of call sequences with before/after comparison of arguments and global state",
    "X02": "stateful generation of accesses and in-place modifications against the parsed shipped file",
    "X06": "exceptions injected before generated lines and visits of the package's code, and calls with unusable arguments, then the calls made again against undisturbed ones",
    "X07": "generated processes (interpreter options, environment, directory, streams, settings, import order) running generated calls, against a plain process",
    "X05": "model-based histories of operations, copies, pickles and damage, against the same history without copies; transfers to fresh processes",
    "X04": "generated combinations of calls in threads under varied switch intervals, compared with each call alone",
    "X03": "generated mismatching shapes must raise, matching shapes must not",
}
NOTE = {}
DEFAULT = ("Searches generated inputs with an explicit oracle and shrinks failures to a replay file; it shows the "
           "property on the cases counted in the evidence, not on all. Trusts numpy/scipy and the oracle code in /verif.")
checks, na = [], []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    pid = json.loads(line)["id"]
    if os.path.exists(os.path.join(ROOT, "props", pid + ".py")):
        checks.append(dict(property=pid, quick_cmd=f"./run.sh {pid} --tier quick", thorough_cmd=f"./run.sh {pid} --tier thorough",
                           evidence_file=f"evidence/{pid}.json", technique=TECH[pid], level="exploration",
                           level_note=NOTE.get(pid, DEFAULT)))
    else:
        na.append(dict(property=pid, reason="no check built yet"))
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na), f, indent=1)
    f.write("\n")
print(len(checks), "checks;", [x["property"] for x in na], "not claimed")
