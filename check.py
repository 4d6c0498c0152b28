#!/opt/venv/bin/python
"""check.py <PROPERTY> [--tier quick|thorough] [--case KEY] [--replay FILE] [--list]"""
from __future__ import annotations

import argparse
import importlib
import json
import math
import multiprocessing as mp
import os
import random
import sys
import time
from concurrent.futures import ProcessPoolExecutor, as_completed
from concurrent.futures.process import BrokenProcessPool

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
from symx import runner  # noqa: E402

runner.base_env()


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("{"):
                d = json.loads(line)
                if d.get("property") == prop:
                    out.append(d)
    return out


def match_known(known, key, label):
    for k in known:
        if k["case"] == key and label.startswith(k["label"]):
            return k
    return None


def obs_equal(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return bool(a) == bool(b)
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        if math.isinf(a) or math.isinf(b):
            return a == b
        return abs(a - b) <= 1e-6 * max(abs(a), abs(b)) + 1e-9
    return a == b


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--case")
    ap.add_argument("--replay")
    ap.add_argument("--list", action="store_true")
    ap.add_argument("-j", type=int, default=min(8, os.cpu_count() or 4))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    prop, tier = a.prop.upper(), a.tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t_start = time.monotonic()
    hard_end = t_start + (840 if tier == "quick" else 3 * 3600)

    if a.replay:
        d = json.load(open(a.replay))
        runner.init_worker("con", prop)
        r = runner.replay_case(prop, d["case"], d.get("tier", tier), d["values"], d.get("seed", 1))
        print(json.dumps(r, indent=1, default=str))
        return 1 if r["failures"] else 0

    ctx = mp.get_context("fork")
    # the case list is computed in a child so that this process stays free of repo code
    with ProcessPoolExecutor(1, mp_context=ctx) as ex:
        info = ex.submit(case_info, prop, tier).result()
    keys = info["keys"]
    if a.list:
        print("\n".join(keys))
        return 0
    if a.case:
        keys = [k for k in keys if a.case in k]
    budget = info["budget"]

    results, broken = [], []
    pool = ProcessPoolExecutor(min(a.j, max(1, len(keys))), mp_context=ctx,
                               initializer=runner.init_worker, initargs=("sym", prop))
    futs = {pool.submit(runner.explore_case, prop, k, seed, tier, budget): k for k in keys}
    try:
        for f in as_completed(futs, timeout=max(5, hard_end - 120 - time.monotonic())):
            try:
                r = f.result()
            except BrokenProcessPool:
                broken.append(futs[f])
                continue
            except Exception as x:
                broken.append(f"{futs[f]}: {type(x).__name__} {x}")
                continue
            results.append(r)
            if a.v:
                st = r["st"]
                print(f"  {r['key']}: paths {st['paths']} ok {r['completed']} checks {r['checks']} "
                      f"obl {st['obligations']}/{st['discharged']} unk {st['unknown_obligations']} "
                      f"cand {len(r['candidates'])} unsup {sum(r['unsupported'].values())} "
                      f"q {st['queries']} solver {st['solver_s']:.1f}s wall {r['wall']:.1f}s "
                      f"{'BUDGET ' if r['budget_exceeded'] else ''}{r['notes'] or ''} "
                      f"{r['unsupported'] or ''} {r['gaps'] or ''}", flush=True)
    except TimeoutError:
        broken.append("time limit")
    procs = list(getattr(pool, "_processes", {}).values() or [])
    pool.shutdown(wait=False, cancel_futures=True)
    for p in procs:
        if p.is_alive():
            p.kill()

    # ---------------------------------------------------------------- replay on the real code
    order = {k: i for i, k in enumerate(keys)}
    results.sort(key=lambda r: order[r["key"]])
    jobs = []
    for r in results:
        per_label = {}
        for label, valss in r["candidates"]:
            n = per_label.get(label, 0)
            per_label[label] = n + 1
            if n < 4:
                for vals in valss:
                    jobs.append(("cand", r["key"], label, vals, None))
    rng = random.Random(seed)
    path_jobs = []
    for r in results:
        for p in r["paths"]:
            path_jobs.append(("path", r["key"], p["status"], p["values"], p["obs"]))
    cap = info["replay_cap"]
    if len(path_jobs) > cap:
        keep = []
        by_key = {}
        for j in path_jobs:
            by_key.setdefault(j[1], []).append(j)
        for v in by_key.values():
            rng.shuffle(v)
        while len(keep) < cap and any(by_key.values()):
            for k in list(by_key):
                if by_key[k] and len(keep) < cap:
                    keep.append(by_key[k].pop())
        path_jobs = keep
    jobs += path_jobs
    rep = []
    pool = ProcessPoolExecutor(min(a.j, max(1, (len(jobs) + 3) // 4)), mp_context=ctx,
                               initializer=runner.init_worker, initargs=("con", prop))
    futs = {pool.submit(runner.replay_case, prop, j[1], tier, j[3], seed): j for j in jobs}
    try:
        for f in as_completed(futs, timeout=max(20, hard_end - time.monotonic())):
            try:
                rep.append((futs[f], f.result()))
            except BrokenProcessPool:
                broken.append(f"replay {futs[f][1]}")
            except Exception as x:
                broken.append(f"replay {futs[f][1]}: {type(x).__name__} {x}")
    except TimeoutError:
        broken.append("replay time limit")
    procs = list(getattr(pool, "_processes", {}).values() or [])
    pool.shutdown(wait=False, cancel_futures=True)
    for p in procs:
        if p.is_alive():
            p.kill()

    # ---------------------------------------------------------------- verdict
    violations, known_hits = {}, {}
    known = known_findings(prop)
    confirmed, cand_seen = set(), set()
    validated = aborted = mismatch = 0
    mism, gaps = [], {}
    for j, r in rep:
        kind, key, label, vals, obs = j
        if kind == "cand":
            cand_seen.add((key, label))
        if r["gap"]:
            gaps[r["gap"]] = gaps.get(r["gap"], 0) + 1
            continue
        if r["aborted"] and not r["failures"]:
            aborted += 1
            continue
        if r["failures"]:
            for flabel, detail in r["failures"]:
                k = match_known(known, key, flabel)
                if k is not None:
                    known_hits[k["id"]] = k
                    if kind == "cand":
                        confirmed.add((key, label))
                    continue
                violations.setdefault((key, flabel), (vals, detail, label))
                if kind == "cand":
                    confirmed.add((key, label))
            continue
        if kind == "path" and obs is not None:
            validated += 1
            con = dict(r["obs"])
            for ol, ov in obs:
                if ol in con and ov is not None and not obs_equal(con[ol], ov):
                    mismatch += 1
                    mism.append((key, ol, ov, con[ol]))
                    break
    unconfirmed = sorted(c for c in cand_seen if c not in confirmed)

    tot = {}
    for r in results:
        for k, v in r["st"].items():
            tot[k] = max(tot.get(k, 0), v) if k.startswith("max") else tot.get(k, 0) + v
    funcs = sorted({f"{f}:{q}" for r in results for f, q in r["funcs"] if "<lambda>" not in q})
    unsupported = {}
    notes = {}
    for r in results:
        for k, v in r["unsupported"].items():
            unsupported[k] = unsupported.get(k, 0) + v
        for k, v in r["notes"].items():
            notes[k] = notes.get(k, 0) + v
        for k, v in r["gaps"].items():
            gaps[k] = gaps.get(k, 0) + v
    budget_hit = [r["key"] for r in results if r["budget_exceeded"]]
    vacuous = [r["key"] for r in results if r["completed"] == 0 or r["checks"] == 0]
    cut = {k: v for k, v in notes.items() if k.startswith(("real value concretised", "max_paths"))}
    incomplete = bool(cut or budget_hit or unsupported or broken or unconfirmed or vacuous or gaps
                      or tot.get("unknown_obligations", 0))
    wall = time.monotonic() - t_start
    samples = []
    for r in results[:6]:
        if r["paths"]:
            p = r["paths"][0]
            samples.append({"case": r["key"], "inputs": _short(p["values"]),
                            "observed": _short(dict(p["obs"] or []))})
    cov = {
        "states": tot.get("paths", 0), "transitions": tot.get("decisions", 0),
        "traces_validated_against_impl": validated,
        "samples": samples,
        "explanation": "states = completed symbolic paths, transitions = solver-decided branch "
                       "decisions, traces_validated = path models re-run on the unmodified code "
                       "with all checks holding concretely",
        "cases": len(results), "checks": sum(r["checks"] for r in results),
        "obligations": tot.get("obligations", 0), "discharged": tot.get("discharged", 0),
        "unknown_obligations": tot.get("unknown_obligations", 0),
        "unknown_branches": tot.get("unknown_branches", 0),
        "solver_queries": tot.get("queries", 0), "solver_s": round(tot.get("solver_s", 0), 2),
        "max_query_s": round(tot.get("max_query_s", 0), 2),
        "infeasible_or_cut_paths": tot.get("aborted", 0),
        "loop_bound_hits": tot.get("bound_hits", 0),
        "concretisations": tot.get("concretised", 0),
        "functions_encoded": funcs, "bounds": info["bounds"], "stubs": info["stubs"],
        "outside": info["outside"],
        "replayed_candidates": sum(1 for j, _ in rep if j[0] == "cand"),
        "replay_aborted": aborted, "replay_observation_mismatch": mismatch,
        "unconfirmed_counterexamples": [f"{k}: {l}" for k, l in unconfirmed][:20],
        "unsupported": unsupported, "budget_exceeded_cases": budget_hit,
        "vacuous_cases": vacuous, "harness_gaps": gaps, "worker_errors": broken,
        "notes": notes, "complete_within_bounds": not incomplete,
        "reached": sorted({c for r in results for c in r["covered"]}),
    }
    ev = {"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick",
          "seed": seed, "level": "model_checking", "coverage": cov, "wall_s": round(wall, 2)}
    if not a.case and not os.environ.get("SYMX_NOEV"):
        os.makedirs(f"{VERIF}/evidence", exist_ok=True)
        json.dump(ev, open(f"{VERIF}/evidence/{prop}.json", "w"), indent=1, default=str)

    print(f"{prop} [{tier}] cases {len(results)}/{len(keys)} paths {tot.get('paths', 0)} "
          f"decisions {tot.get('decisions', 0)} obligations {tot.get('obligations', 0)} "
          f"(discharged {tot.get('discharged', 0)}, unknown {tot.get('unknown_obligations', 0)}) "
          f"queries {tot.get('queries', 0)} solver {tot.get('solver_s', 0):.1f}s "
          f"replayed ok {validated} aborted {aborted} mismatch {mismatch} wall {wall:.1f}s")
    for m in mism[:8]:
        print("  observation mismatch:", m)
    for k, l in unconfirmed[:10]:
        print(f"  INCONCLUSIVE counterexample not reproducing on the real code: {k}: {l}")
    for k, v in list(unsupported.items())[:10]:
        print(f"  INCONCLUSIVE unsupported ({v} paths): {k}")
    for k in budget_hit[:10]:
        print(f"  INCONCLUSIVE exploration budget exceeded: {k}")
    for k, v in cut.items():
        print(f"  INCONCLUSIVE not all values explored: {k} ({v})")
    for k in vacuous[:10]:
        print(f"  INCONCLUSIVE no completed path: {k}")
    for k, v in list(gaps.items())[:10]:
        print(f"  INCONCLUSIVE harness gap ({v}): {k}")
    for k in broken[:10]:
        print(f"  INCONCLUSIVE worker: {k}")
    for k in known_hits.values():
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    if violations:
        os.makedirs(f"{VERIF}/replays", exist_ok=True)
        for i, ((key, label), (vals, detail, orig)) in enumerate(sorted(violations.items(), key=str)):
            path = f"{VERIF}/replays/{prop}_{i}.json"
            json.dump({"property": prop, "case": key, "label": label, "values": vals, "tier": tier,
                       "seed": seed, "detail": detail, "found_as": orig}, open(path, "w"), indent=1,
                      default=str)
            if i < 12:
                print(f"  violated: {key}: {label}  inputs {json.dumps(_short(vals), default=str)[:600]} "
                      f"{str(detail)[-300:] if detail else ''}")
            if i == 0:
                print(f"VIOLATION property={prop} replay={path}")
            if i >= 30:
                break
        return 1
    done = [r for r in results if r["completed"] and r["checks"]]
    if not done or validated == 0:
        print(f"ERROR: nothing decided for {prop}")
        return 2
    return 0


def _short(d):
    return {k: v for k, v in list(d.items())[:24]} if isinstance(d, dict) else d


def case_info(prop, tier):
    runner.import_repo()
    mod = importlib.import_module(f"props.{prop.lower()}")
    return {"keys": [c[0] for c in mod.cases(tier)], "budget": getattr(mod, "BUDGET", {}).get(
        tier, 150 if tier == "quick" else 3000),
        "bounds": getattr(mod, "BOUNDS", ""), "stubs": getattr(mod, "STUBS", []),
        "outside": getattr(mod, "OUTSIDE", ""),
        "replay_cap": getattr(mod, "REPLAY_CAP", 300 if tier == "quick" else 1500)}


if __name__ == "__main__":
    sys.exit(main())
