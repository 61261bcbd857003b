"""One shard of one facet, or one replayed case, in its own process."""
import faulthandler
import importlib
import json
import sys

from vf import deps

deps.ensure()
from vf.core import Ctx, HarnessError, judge, run_shard, Discard  # noqa: E402

if __name__ == "__main__":
    faulthandler.enable()
    job = json.loads(sys.argv[1])
    mod = importlib.import_module(f"props.{job['property']}")
    facet = {f.name: f for f in mod.FACETS}[job["facet"]]
    ctx = Ctx(job["paths"], job["tier"], job["seed"])
    if "replay" in job:
        with open(job["replay"]) as f:
            case = json.load(f)["case"]
        res = judge(facet, case, ctx)
        print("REPRODUCED: " + res[0] if res else "case passes")
        sys.exit(1 if res else 0)
    run_shard(job["property"], facet, job["shard"], job["nshards"], ctx, job["out"], job["budget_s"], job["n"])
