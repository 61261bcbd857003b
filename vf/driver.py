"""Check one property: build, fan the facets out over processes, write the evidence."""
import argparse
import hashlib
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

from vf import build, deps

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NPROC = min(8, os.cpu_count() or 1)


def asan_env():
    def lib(n):
        return subprocess.check_output(["gcc", f"-print-file-name={n}"], text=True).strip()
    return {
        "LD_PRELOAD": lib("libasan.so") + " " + lib("libubsan.so"),
        "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:handle_segv=1:detect_stack_use_after_return=1:max_malloc_fill_size=67108864:quarantine_size_mb=64",
        "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:abort_on_error=1",
        "PYTHONMALLOC": "malloc",
    }


def spawn(job, facet, outdir, tag):
    env = dict(os.environ)
    env["PYTHONPATH"] = ROOT
    env["HYPOTHESIS_STORAGE_DIRECTORY"] = os.path.join(outdir, "hyp")
    if "asan" in facet.variants:
        env.update(asan_env())
    if facet.env:
        env.update(facet.env)
    err = open(os.path.join(outdir, tag + ".err"), "w")
    cmd = list(facet.launcher) + [sys.executable, "-m", "vf.child", json.dumps(job)]
    return subprocess.Popen(cmd, cwd=ROOT, env=env, stdout=err, stderr=err, start_new_session=True)


def crash_report(err):
    """The lines of a sanitiser's report that matter, else the end of the output."""
    lines = [x for x in err.splitlines() if not x.startswith("Extension modules")]
    for k, x in enumerate(lines):
        if "ERROR: AddressSanitizer" in x or "runtime error:" in x or "Assertion" in x or "terminate called" in x:
            return "\n".join(y[:300] for y in lines[k:k + 25])
    return "\n".join(lines)[-2500:]


def write_replay(prop, facet, case, msg):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha256(json.dumps([facet, case], sort_keys=True).encode()).hexdigest()[:10]
    p = os.path.join(d, f"{prop}-{facet}-{h}.json")
    with open(p, "w") as f:
        json.dump(dict(property=prop, facet=facet, case=case, message=msg), f, indent=1)
    return p


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--facet")
    ap.add_argument("--budget", type=float)
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    deps.ensure()
    sys.path.insert(0, ROOT)
    mod = importlib.import_module(f"props.{a.property}")
    facets = [f for f in mod.FACETS if not a.facet or f.name == a.facet]
    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        facets = [f for f in mod.FACETS if f.name == r["facet"]]
    paths = {}
    for v in sorted({v for f in facets for v in f.variants}):
        paths[v] = build.build(v)

    outdir = tempfile.mkdtemp(prefix=f"frds-verif-{a.property}-")
    try:
        return check(a, mod, facets, paths, seed, outdir, t0)
    finally:
        shutil.rmtree(outdir, ignore_errors=True)


def check(a, mod, facets, paths, seed, outdir, t0):
    prop, tier = a.property, a.tier
    if a.replay:
        f = facets[0]
        job = dict(property=prop, facet=f.name, paths=paths, tier=tier, seed=seed, replay=os.path.abspath(a.replay))
        p = spawn(job, f, outdir, "replay")
        rc = p.wait()
        print(open(os.path.join(outdir, "replay.err")).read()[-6000:])
        if rc != 0:
            print(f"VIOLATION property={prop} replay={a.replay}")
        return 1 if rc else 0

    budget = a.budget or (240.0 if tier == "quick" else 3600.0)
    jobs = []
    for f in facets:
        n = f.quick * getattr(mod, "SCALE", 1) if tier == "quick" else f.thorough
        k = f.shards if tier == "quick" else max(f.shards, f.tshards)
        if n <= 0:
            continue
        for s in range(k):
            tag = f"{f.name}-{s}"
            jobs.append((f, tag, dict(property=prop, facet=f.name, paths=paths, tier=tier, seed=seed, shard=s, nshards=k,
                                      out=os.path.join(outdir, tag + ".json"), budget_s=budget, n=-(-n // k))))
    jobs.sort(key=lambda j: -j[0].weight)
    running, reports, violations, errors = [], [], [], []
    queue = list(jobs)
    while queue or running:
        while queue and len(running) < NPROC:
            f, tag, job = queue.pop(0)
            running.append((f, tag, job, spawn(job, f, outdir, tag), time.time()))
        time.sleep(0.05)
        still = []
        for f, tag, job, p, ts in running:
            rc = p.poll()
            if rc is None:
                if time.time() - ts > budget + 200:
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
                    # one call that never comes back: inconclusive by time alone, so an error, not a violation
                    errors.append(f"{tag}: no answer within {budget + 200:.0f} s")
                else:
                    still.append((f, tag, job, p, ts))
                continue
            err = open(os.path.join(outdir, tag + ".err"), errors="replace").read()
            if os.path.exists(job["out"]):
                with open(job["out"]) as fh:
                    rep = json.load(fh)
                reports.append(rep)
                if rep["harness_error"]:
                    errors.append(f"{tag}: {rep['harness_error']}")
                if rep["violation"]:
                    v = rep["violation"]
                    violations.append((f.name, v["case"], v["msg"]))
            elif rc < 0 or rc in (134, 139, 136, 132):
                # died from a signal inside native code: the case it was running is the failing input
                cur = job["out"] + ".cur"
                if rc in (-signal.SIGKILL, -signal.SIGTERM) or not os.path.exists(cur):
                    errors.append(f"{tag}: ended by signal {rc}\n{err[-2000:]}")
                else:
                    with open(cur) as fh:
                        case = json.load(fh)
                    violations.append((f.name, case, f"the process died (status {rc}) on this input:\n{crash_report(err)}"))
            else:
                errors.append(f"{tag}: exit {rc}\n{err[-3000:]}")
        running = still

    per_facet = {}
    distinct = set()
    samples = []
    for rep in reports:
        d = per_facet.setdefault(rep["facet"], dict(evaluations=0, discarded=0, distinct_nontrivial=set(), labels={}, excluded_known={}))
        d["evaluations"] += rep["evaluations"]
        d["discarded"] += rep["discarded"]
        d["distinct_nontrivial"].update(rep["nontrivial"])
        for k, v in rep["labels"].items():
            d["labels"][k] = d["labels"].get(k, 0) + v
        for k, v in rep["known"].items():
            d["excluded_known"][k] = d["excluded_known"].get(k, 0) + v
        if rep["budget_hit"]:
            d["inconclusive"] = "time budget reached; remaining cases skipped"
        if rep["shard"] == 0:
            samples += [dict(facet=rep["facet"], case=c) for c in rep["samples"][:1]]
        distinct.update(rep["facet"] + k for k in rep["nontrivial"])
    rules = {f.name: f.rule for f in facets}
    for k, d in per_facet.items():
        d["distinct_nontrivial"] = len(d["distinct_nontrivial"])
        d["rule"] = rules[k]
    evidence = dict(
        property=prop, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=sum(r["evaluations"] for r in reports),
            distinct_nontrivial=len(distinct),
            rule="cases are drawn by Hypothesis strategies per facet; non-trivial per facet: "
                 + "; ".join(f"[{k}] {v}" for k, v in rules.items()),
            samples=json.loads(json.dumps(samples))[:12],
            facets=per_facet,
        ),
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])),
        wall_s=round(time.time() - t0, 2),
        violations=len(violations),
    )
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    ev = os.path.join(ROOT, "evidence", f"{prop}.json")
    with open(ev + ".tmp", "w") as fh:
        json.dump(evidence, fh, indent=1)
    os.rename(ev + ".tmp", ev)

    for name, case, msg in violations:
        p = write_replay(prop, name, case, msg)
        print(f"--- facet {name}\n{msg[:3000]}\ncase: {json.dumps(case)[:1500]}")
        print(f"VIOLATION property={prop} replay={p}")
    if violations:
        return 1
    if errors:
        print("ERROR of the check:\n" + "\n".join(errors), file=sys.stderr)
        return 2
    # findings recorded in known_findings.json: shown on every run
    from vf.core import known_sigs
    for (fname, sig), e in sorted(known_sigs(prop).items()):
        hits = per_facet.get(fname, {}).get("excluded_known", {}).get(sig, 0)
        if hits:
            print(f"KNOWN-FINDING: property={prop} {e['what']} [{hits} cases excluded]")
    tot = evidence["coverage"]
    print(f"{prop}: held on {tot['evaluations']} cases ({tot['distinct_nontrivial']} distinct non-trivial), "
          f"{evidence['wall_s']} s, tier {tier}, seed {seed}")
    for k, d in per_facet.items():
        print(f"   {k}: {d['evaluations']} evaluated, {d['distinct_nontrivial']} non-trivial, "
              f"{d['discarded']} discarded, labels {d['labels']}" + (" INCONCLUSIVE(budget)" if "inconclusive" in d else ""))
    return 0


if __name__ == "__main__":
    try:
        code = main()
    except Exception:  # the check could not do its work: neither held nor violated
        import traceback
        traceback.print_exc()
        code = 2
    sys.exit(code)
