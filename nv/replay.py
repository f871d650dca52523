"""Run harnesses on the real (jitted) code with concrete inputs.

python -m nv.replay FILE     FILE: {"prop","tier","runs":[{"job","inputs"}]}
                             or a violation record written by a check."""
import os
os.environ.setdefault("NUMBA_BOUNDSCHECK", "1")
import importlib
import json
import sys
import traceback
import warnings


def main():
    d = json.load(open(sys.argv[1]))
    if "runs" not in d:
        d = {"prop": d["property"], "tier": d["tier"], "runs": [{"job": d["job"], "inputs": d["inputs"]}]}
    from . import harness
    sys.path.insert(0, harness.REPO)
    warnings.simplefilter("ignore")
    import numpy as np
    np.seterr(all="ignore")
    mod = importlib.import_module(f"nv.props.{d['prop'].lower()}")
    jobs = {j.name: j for j in mod.JOBS(d.get("tier", "quick"))}
    results = []
    for i, r in enumerate(d["runs"]):
        job = jobs[r["job"]]
        env = harness.RealEnv(r["inputs"], d.get("tier", "quick"))
        try:
            job.fn(env, **job.cfg)
            x = {"i": i, "status": "ok", "detail": f"{env.nchecks} checks held"}
        except harness.AssumeFailed:
            x = {"i": i, "status": "assume", "detail": "assumption does not hold in floating point"}
        except harness.ReplayFailure as e:
            x = {"i": i, "status": "fail", "detail": str(e)}
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            loc = next((f"{f.filename}:{f.lineno}" for f in reversed(tb) if "/neutralocean/" in f.filename), "harness")
            x = {"i": i, "status": "exception", "detail": f"raised {type(e).__name__}: {str(e)[:300]} @ {loc}"}
        results.append(x)
        print("REPLAY-PART " + json.dumps(x), flush=True)
    print("REPLAY-RESULT " + json.dumps({"results": results}), flush=True)
    bad = any(x["status"] in ("fail", "exception") for x in results)
    sys.exit(1 if bad else 0)


if __name__ == "__main__":
    main()
