"""Driver: python -m nv.main <PROPERTY> [--tier quick|thorough]"""
import argparse
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("NV_REPO", "/repo")


def _run(args):
    prop, idx, tier, seed, budget = args
    from . import harness
    mod = importlib.import_module(f"nv.props.{prop.lower()}")
    job = mod.JOBS(tier)[idx]
    return idx, harness.run_job(job, tier, seed, budget)


def _child(conn, args):
    try:
        conn.send(_run(args))
    except BaseException as e:  # reported by the parent
        import traceback
        conn.send((args[1], "".join(traceback.format_exception(e))[-800:]))
    conn.close()


def run_all(args, jobs, nproc, deadline):
    """Run each harness in a process of its own; a crash or an overrun of one is
    reported as a harness that decided nothing."""
    from .harness import JobResult
    ctx = mp.get_context("spawn")
    todo, live = list(args), {}
    try:
        yield from _run_all(ctx, todo, live, jobs, nproc, deadline)
    finally:  # the caller may stop early
        for pr, rd, _ in live.values():
            pr.kill()
            pr.join()


def _run_all(ctx, todo, live, jobs, nproc, deadline):
    from .harness import JobResult
    while todo or live:
        while todo and len(live) < nproc and time.time() < deadline:
            x = todo.pop(0)
            rd, wr = ctx.Pipe(duplex=False)
            pr = ctx.Process(target=_child, args=(wr, x), daemon=True)
            pr.start()
            wr.close()
            live[x[1]] = (pr, rd, min(deadline, time.time() + x[4] + 120))
        if not live:
            for x in todo:
                r = JobResult(jobs[x[1]].name)
                r.unsupported.append("not run: out of time")
                yield x[1], r
            return
        mp.connection.wait([v[1] for v in live.values()], timeout=1.0)
        for i, (pr, rd, dl) in list(live.items()):
            got = None
            if rd.poll():
                try:
                    _, got = rd.recv()
                except EOFError:
                    pr.join(5)
                    got = f"process ended ({pr.exitcode})"
            elif time.time() > dl:
                got = "out of time"
            else:
                continue
            if pr.is_alive() and isinstance(got, str):
                pr.kill()
            pr.join()
            rd.close()
            del live[i]
            if isinstance(got, str):
                r = JobResult(jobs[i].name)
                r.unsupported.append("harness: " + got)
                got = r
            yield i, got


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith(f"finding: property={prop} "):
                key, _, what = line[len(f"finding: property={prop} "):].strip().partition(" ")
                out.append((key, what))
    return out


def replay_proc(payload, timeout):
    """Run the harness on the real jitted code in a fresh process."""
    d = tempfile.mkdtemp(prefix="nvreplay.")
    try:
        f = os.path.join(d, "in.json")
        json.dump(payload, open(f, "w"))
        env = dict(os.environ, NUMBA_CACHE_DIR=d, PYTHONDONTWRITEBYTECODE="1")
        t = time.time()
        try:
            p = subprocess.run([sys.executable, "-m", "nv.replay", f], cwd=VERIF, env=env, timeout=timeout,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        except subprocess.TimeoutExpired:
            return {"timeout": True, "wall": time.time() - t, "results": []}
        out = None
        for line in p.stdout.splitlines():
            if line.startswith("REPLAY-RESULT "):
                out = json.loads(line[len("REPLAY-RESULT "):])
        if out is None:
            part = [json.loads(l[len("REPLAY-PART "):]) for l in p.stdout.splitlines() if l.startswith("REPLAY-PART ")]
            return {"crash": p.returncode, "stderr": p.stderr[-2000:], "results": part, "wall": time.time() - t}
        out["wall"] = time.time() - t
        return out
    finally:
        import shutil
        shutil.rmtree(d, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("NV_JOBS", "8")))
    ap.add_argument("--only", default=None)
    ap.add_argument("--no-replay", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    tier = "thorough" if a.tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    prop = a.prop.upper()
    t0 = time.time()
    mod = importlib.import_module(f"nv.props.{prop.lower()}")
    jobs = mod.JOBS(tier)
    budget = 420.0 if tier == "quick" else 3000.0
    idxs = [i for i, j in enumerate(jobs) if a.only is None or any(x in j.name for x in a.only.split(","))]
    args = [(prop, i, tier, seed, jobs[i].opts.get("max_time", budget)) for i in idxs]
    from .harness import JobResult
    results = {}
    nproc = max(1, min(a.jobs, len(args)))
    deadline = t0 + (700 if tier == "quick" else 6 * 3600)
    known = known_findings(prop)
    violations, unreplayed, known_hit = [], [], {}
    replays = 0
    for i, r in run_all(args, jobs, nproc, deadline):
        results[i] = r
        if a.v:
            print(f"[{jobs[i].name}] {r.wall:.1f}s complete={r.complete} stop={r.stop} cex={len(r.cex)} "
                  f"unsup={len(r.unsupported)} inc={len(r.inconclusive)} tol={r.tolerated} wit={len(r.witness)}/{sum(w['robust'] for w in r.witness)} {r.stats}", flush=True)
            for c in r.cex[:3]:
                print("   CEX", c["kind"], c["msg"], c["models"][0], flush=True)
            for u in sorted(set(r.unsupported))[:4]:
                print("   UNSUPPORTED", u, flush=True)
            for u in sorted(set(r.inconclusive))[:6]:
                print("   INCONCLUSIVE", u, flush=True)
        # 1. counterexamples: replay on the real code; the first one confirmed ends the check
        job = jobs[i]
        for c in r.cex:
            if a.no_replay:
                continue
            if violations:
                break
            payload = {"prop": prop, "tier": tier, "runs": [
                {"job": job.name, "inputs": m} for m in c["models"]]}
            rr = replay_proc(payload, job.replay_timeout)
            replays += 1
            bad = [x for x in rr["results"] if x["status"] in ("fail", "exception")]
            if rr.get("timeout") and c["kind"] == "hang":
                n = len(rr["results"])
                bad = [{"status": "hang", "detail": "does not terminate on the real code", "i": min(n, len(c["models"]) - 1)}]
            if rr.get("crash") is not None and not bad:
                bad = [{"status": "crash", "detail": f"process died ({rr['crash']}) {rr['stderr'][-300:]}", "i": len(rr["results"])}] \
                    if rr["crash"] < 0 else []
            if bad:
                b = bad[0]
                k = next((kk for kk in known if kk[0] in f"{job.name}:{b['detail']}"), None)
                rec = {"property": prop, "tier": tier, "job": job.name, "solver_says": c["msg"],
                       "real_code_says": b["detail"], "inputs": c["models"][b["i"]]}
                if k:
                    known_hit[k[0]] = k[1]
                else:
                    violations.append(rec)
            else:
                unreplayed.append({"job": job.name, "msg": c["msg"], "kind": c["kind"], "models": c["models"][:1],
                                   "replay": rr["results"][:2], "stderr": rr.get("stderr", "")[-500:]})
        if violations:
            break
    for i in idxs:
        if i not in results:
            results[i] = JobResult(jobs[i].name)
            results[i].stop = "not run: a violation was confirmed before"
    # 2. witnesses of explored paths: validate the encoding against the real code
    wit_runs, wit_ok, wit_bad = [], 0, []
    if not violations and not a.no_replay and getattr(mod, "WITNESS", True):
        lim = getattr(mod, "WITNESS_LIMIT", {}).get(tier, 24 if tier == "quick" else 120)
        per = max(1, lim // max(1, len(idxs)))
        for i in idxs:
            if jobs[i].witness:
                for w in results[i].witness[:max(per, 1)]:
                    if w["robust"]:
                        wit_runs.append({"job": jobs[i].name, "inputs": w["inputs"]})
        wit_runs = wit_runs[:lim]
        if wit_runs:
            rr = replay_proc({"prop": prop, "tier": tier, "runs": wit_runs}, 400 if tier == "quick" else 1500)
            for x in rr["results"]:
                if x["status"] == "ok":
                    wit_ok += 1
                elif x["status"] in ("fail", "exception"):
                    wit_bad.append(x)
            if rr.get("crash") is not None:
                wit_bad.append({"status": "crash", "detail": rr["stderr"][-1500:], "i": len(rr["results"])})
            for b in wit_bad:
                run = wit_runs[min(b["i"], len(wit_runs) - 1)]
                k = next((kk for kk in known if kk[0] in f"{run['job']}:{b['detail']}"), None)
                if k:
                    known_hit[k[0]] = k[1]
                    continue
                if b["status"] == "crash" and not (isinstance(rr.get("crash"), int) and rr["crash"] < 0):
                    unreplayed.append({"job": run["job"], "msg": "replay process failed", "kind": "crash",
                                       "models": [], "replay": [b], "stderr": ""})
                    continue
                violations.append({"property": prop, "tier": tier, "job": run["job"],
                                   "solver_says": "property holds in the encoding (witness of an explored path)",
                                   "real_code_says": b["detail"], "inputs": run["inputs"]})

    # evidence -----------------------------------------------------------
    R = [results[i] for i in idxs]
    tot = {}
    for r in R:
        for k, v in r.stats.items():
            tot[k] = round(tot.get(k, 0) + v, 3)
    incomplete = [f"{r.name}: {r.stop}" for r in R if not r.complete and r.stop != "stopped at counterexamples"]
    unsup = sorted({f"{r.name}: {u}" for r in R for u in r.unsupported})
    inc = sorted({f"{r.name}: {u}" for r in R for u in r.inconclusive})
    vacuous = [r.name for r in R if not r.witness and not r.cex and not (r.stop or "").startswith("not run")]
    funcs = sorted({f for i in idxs for f in jobs[i].funcs})
    files = sorted({os.path.relpath(f, REPO) for r in R for f in r.files})
    samples = [s for r in R for s in r.samples][:6]
    decided = [r for r in R if r.reached and not r.unsupported]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": int(tot.get("paths", 0)),
            "transitions": int(tot.get("decisions", 0)),
            "traces_validated_against_impl": wit_ok,
            "samples": samples or [{"note": "no path reached its end"}],
            "harnesses": [{"name": jobs[i].name, "bounds": jobs[i].bounds, "paths": results[i].stats.get("paths", 0),
                           "complete": results[i].complete, "obligations": results[i].stats.get("obligations", 0),
                           "solver_s": results[i].stats.get("solver_s", 0), "wall_s": round(results[i].wall, 2),
                           "within_tolerance": results[i].tolerated,
                           "end_reachable": bool(results[i].witness)} for i in idxs],
            "functions_encoded": funcs,
            "source_files_encoded": files,
            "queries": int(tot.get("queries", 0)), "queries_unsat": int(tot.get("unsat", 0)),
            "queries_sat": int(tot.get("sat", 0)),
            "obligations_checked": int(tot.get("obligations", 0)),
            "obligations_closed_by_simplifier": int(tot.get("trivial", 0)),
            "solver_time_s": round(tot.get("solver_s", 0.0), 3),
            "branch_queries_unknown": int(tot.get("unknown_branch", 0)),
            "inconclusive": inc[:50], "unsupported": unsup[:50], "incomplete": incomplete,
            "counterexamples_not_reproduced": unreplayed[:20],
            "vacuous_harnesses": vacuous,
            "exhaustive": not (incomplete or unsup or inc or unreplayed or vacuous),
            "known_findings_hit": sorted(known_hit),
        },
        "assumptions": sorted({x for i in idxs for x in jobs[i].assumes} | set(getattr(mod, "ASSUMES", []))),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    extra = getattr(mod, "EXTRA_EVIDENCE", None)
    if extra:
        ev["coverage"].update(extra())
    if a.only is None:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w"), indent=1)
    for k, v in known_hit.items():
        print(f"KNOWN-FINDING: property={prop} {k} {v}")
    print(f"{prop} {tier}: {len(idxs)} harnesses, {tot.get('paths', 0)} paths, {tot.get('obligations', 0)} obligations, "
          f"{tot.get('queries', 0)} queries, solver {tot.get('solver_s', 0):.1f}s, witnesses on real code {wit_ok}/{len(wit_runs)}, "
          f"wall {time.time() - t0:.1f}s")
    if violations:
        os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
        for n, v in enumerate(violations[:3]):
            f = os.path.join(VERIF, "evidence", "replay", f"{prop}-{n}.json")
            json.dump(v, open(f, "w"), indent=1)
            print(f"  {v['job']}: {v['real_code_says']}")
            print(f"VIOLATION property={prop} replay={f}")
        sys.exit(1)
    for u in (inc + unsup + incomplete)[:12]:
        print("  NOT-DECIDED", u)
    for u in vacuous:
        print("  VACUOUS", u)
    for u in unreplayed[:5]:
        print("  NOT-REPRODUCED", u["job"], u["msg"], json.dumps(u["replay"])[:400], u["stderr"][-300:])
    if not decided:
        sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    main()
