"""python -m vlib.runner <PROPERTY> [--tier quick|thorough] : run one property's check."""
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import pickle
import signal
import sys
import time
import traceback

import vlib  # noqa: F401  (extends sys.path)

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
for p in (REPO,):
    if p not in sys.path:
        sys.path.insert(0, p)
if VERIF not in sys.path:
    sys.path.insert(0, VERIF)


def jsonable(x):
    import numpy as np
    from fractions import Fraction
    import torch
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist())
    if isinstance(x, Fraction):
        return float(x)
    if isinstance(x, (bool, int, float, str)) or x is None:
        return x
    if isinstance(x, torch.dtype):
        return str(x)
    if isinstance(x, bytes):
        return x.hex()
    return repr(x)


def child(inst, conn, budget):
    """one instance, in its own process"""
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    t0 = time.time()
    out = {"name": inst["name"], "group": inst.get("group", inst["name"]), "proved": [], "undecided": [], "cex": [], "validated": 0,
           "samples": [], "mismatch": []}
    try:
        import torch
        torch.set_num_threads(1)
        torch.manual_seed(0)
        from vlib import harness as H
        stats = H.Stats()
        deadline = t0 + budget
        kind = inst.get("kind", "tensor")
        body = inst["body"]
        tol = inst.get("tol", 2e-4)
        if kind == "tensor":
            res, proved = H.explore(inst, body, stats, deadline)
            replay = lambda c: H.run_body_concrete(body, c, tol)  # noqa: E731
        elif kind == "shape":
            from vlib import shapes
            res, proved = shapes.explore_shapes(inst, body, stats, deadline)
            replay = lambda c: shapes.run_shape_concrete(body, c)  # noqa: E731
        else:
            # custom engine: inst['explore'](inst, stats, deadline) -> (outcomes, proved); inst['replay'](cex) -> (h, err)
            res, proved = inst["explore"](inst, stats, deadline)
            replay = inst["replay"]
        out["proved"] = sorted(proved)
        nwit = 0
        for o in res:
            if o[0] == "witness":
                if nwit >= inst.get("validate", 3):
                    continue
                nwit += 1
                h, err = replay(o[2])
                if err == "assume":
                    continue
                if err is None and not h.fail:
                    out["validated"] += 1
                    if len(out["samples"]) < 1:
                        out["samples"].append({"instance": inst["name"], "claims": list(dict.fromkeys(o[1]))[:8], "input": jsonable(o[2])})
                else:
                    out["mismatch"].append({"err": err, "fail": h.fail, "input": jsonable(o[2])})
            elif o[0] == "nowitness":
                out["undecided"].append("no witness for a proved path (vacuity undecided): %s" % (o[1],))
            elif o[0] == "undecided":
                out["undecided"].append(o[1])
            elif o[0] == "cex":
                h, err = replay(o[2])
                stats.replays += 1
                rep = err is not None and err != "assume" or bool(h.fail)
                out["cex"].append({"label": o[1], "reproduced": bool(rep), "fail": h.fail, "err": err, "input": jsonable(o[2])})
        out["stats"] = {"queries": stats.queries, "solver_s": round(stats.solver_s, 3), "branches": stats.branches, "paths": stats.paths,
                        "unsat": stats.unsat, "sat": stats.sat, "unknown": stats.unknown, "witness": stats.witness,
                        "functions": sorted(stats.functions), "claims": dict(stats.claims)}
    except Exception:  # noqa: BLE001
        out["undecided"].append("harness error: " + traceback.format_exc()[-2500:])
    out["wall"] = round(time.time() - t0, 2)
    try:
        conn.send(pickle.dumps(out))
    except Exception:  # noqa: BLE001
        conn.send(pickle.dumps({"name": inst["name"], "group": inst.get("group"), "undecided": ["unpicklable result"], "proved": [], "cex": [],
                                "validated": 0, "samples": [], "mismatch": []}))
    conn.close()


def run_all(insts, jobs, total_budget):
    t_end = time.time() + total_budget
    pending = sorted(insts, key=lambda i: -i.get("cost", 1))
    running, results = [], []
    ctx = mp.get_context("fork")
    while pending or running:
        while pending and len(running) < jobs:
            inst = pending.pop(0)
            left = t_end - time.time()
            if left < 2:
                results.append({"name": inst["name"], "group": inst.get("group", inst["name"]), "undecided": ["total time budget exhausted"],
                                "proved": [], "cex": [], "validated": 0, "samples": [], "mismatch": []})
                continue
            b = min(inst.get("budget", 120), left)
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(inst, w, b))
            p.start()
            w.close()
            running.append((p, r, inst, time.time() + b * 1.3 + 45))
        time.sleep(0.02)
        still = []
        for p, r, inst, dl in running:
            got = None
            if r.poll(0):
                try:
                    got = pickle.loads(r.recv())
                except EOFError:
                    got = {"name": inst["name"], "group": inst.get("group", inst["name"]), "undecided": ["instance process died"], "proved": [],
                           "cex": [], "validated": 0, "samples": [], "mismatch": []}
            elif time.time() > dl:
                p.kill()
                got = {"name": inst["name"], "group": inst.get("group", inst["name"]), "undecided": ["instance killed at its time limit"],
                       "proved": [], "cex": [], "validated": 0, "samples": [], "mismatch": []}
            if got is not None:
                results.append(got)
                p.join(5)
                if p.is_alive():
                    p.kill()
            else:
                still.append((p, r, inst, dl))
        running = still
    return results


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", default=None)
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    pid = a.prop
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    os.environ["VERIF_TIER_RUN"] = tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        mod = importlib.import_module("checks." + pid.lower())
        insts = mod.instances(tier)
    except Exception:  # noqa: BLE001
        # the repository no longer imports: nothing can be decided
        traceback.print_exc()
        print("ERROR property=%s: harness could not be built from the current tree" % pid)
        return 3
    if a.only:
        insts = [i for i in insts if a.only in i["name"]]
    total = 780 if tier == "quick" else 6600
    results = run_all(insts, a.jobs, getattr(mod, "TOTAL", total))
    known = []
    kf = os.path.join(VERIF, "KNOWN_FINDINGS.json")
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf)) if k.get("property") == pid and k.get("status") == "open"]
    viol, kn, spurious = [], [], []
    for r in results:
        for c in r["cex"]:
            if not c["reproduced"]:
                spurious.append((r, c))
                continue
            hit = None
            for k in known:
                if k["instance"] == r["name"] and (k.get("claim") is None or c["label"].startswith(k["claim"])):
                    hit = k
            (kn if hit else viol).append((r, c, hit))
    groups = {}
    for r in results:
        ok = bool(r["proved"]) and not r["undecided"] and not r["mismatch"] and not any(not c["reproduced"] for c in r["cex"])
        if any(c["reproduced"] for c in r["cex"]):
            ok = True
        groups.setdefault(r["group"], []).append(ok)
    undecided_groups = sorted(g for g, l in groups.items() if not any(l))
    tot = {k: sum(r.get("stats", {}).get(k, 0) for r in results) for k in ("queries", "solver_s", "branches", "paths", "unsat", "sat", "unknown", "witness")}
    funcs = sorted(set(f for r in results for f in r.get("stats", {}).get("functions", [])))
    claims = {}
    for r in results:
        for k, v in r.get("stats", {}).get("claims", {}).items():
            claims[k] = claims.get(k, 0) + v
    samples = [s for r in results for s in r["samples"]][:4]
    validated = sum(r["validated"] for r in results)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "model_checking"),
        "coverage": {
            "states": tot["paths"], "transitions": tot["branches"], "traces_validated_against_impl": validated, "samples": samples,
            "explanation": "bounded symbolic execution of the real code; states = completed symbolic paths (each stands for every input satisfying its path condition), transitions = solver-decided branch points, traces_validated = solver-produced inputs re-run on the real concrete code with every claim re-evaluated",
            "functions_encoded": funcs, "queries": tot["queries"], "queries_unsat": tot["unsat"], "queries_sat": tot["sat"], "queries_unknown": tot["unknown"],
            "solver_s": round(tot["solver_s"], 2), "reachability_witnesses": tot["witness"], "claims": claims,
            "groups_without_verdict": undecided_groups, "bounds": getattr(mod, "BOUNDS", ""), "outside": getattr(mod, "OUTSIDE", ""),
            "instances": [{"name": r["name"], "proved": r["proved"], "undecided": r["undecided"][:3], "wall_s": r.get("wall"),
                           "queries": r.get("stats", {}).get("queries", 0), "solver_s": r.get("stats", {}).get("solver_s", 0)} for r in sorted(results, key=lambda r: r["name"])],
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])), "wall_s": round(time.time() - t0, 2), "violations": len(viol),
    }
    EVD = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
    os.makedirs(EVD, exist_ok=True)
    json.dump(ev, open(os.path.join(EVD, pid + ".json"), "w"), indent=1)
    for r in sorted(results, key=lambda r: r["name"]):
        if a.v or r["undecided"] or r["mismatch"] or any(not c["reproduced"] for c in r["cex"]):
            print("  instance %-28s proved=%d undecided=%d cex=%d validated=%d wall=%s paths=%s q=%s" % (
                r["name"], len(r["proved"]), len(r["undecided"]), len(r["cex"]), r["validated"], r.get("wall"), r.get("stats", {}).get("paths"), r.get("stats", {}).get("queries")))
            for u in r["undecided"][:3]:
                print("     undecided:", u)
            for m in r["mismatch"][:2]:
                print("     mismatch:", str(m)[:600])
            for c in r["cex"]:
                if not c["reproduced"]:
                    print("     counterexample not reproduced on the real code (not reported):", c["label"], str(c["input"])[:400])
    rc = 0
    seen = set()
    for r, c, k in kn:
        if k["id"] not in seen:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
            seen.add(k["id"])
    if viol:
        rdir = os.path.join(EVD, "replay")
        os.makedirs(rdir, exist_ok=True)
        for i, (r, c, _) in enumerate(viol[:5]):
            path = os.path.join(rdir, "%s-%s.json" % (pid, hashlib.sha1((r["name"] + c["label"]).encode()).hexdigest()[:8]))
            json.dump({"property": pid, "instance": r["name"], "claim": c["label"], "failing_claims": c["fail"], "exception": c["err"], "input": c["input"],
                       "how": "the input was found by the solver and re-executed on the real code of /repo, where the listed claims fail"}, open(path, "w"), indent=1)
            print("violated: %s [%s] %s %s" % (c["label"].split("\n")[0][:200], r["name"], c["fail"], c["err"] or ""))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        rc = 1
    elif undecided_groups:
        # the property held on everything that was decided; without a verdict for most of it there is no answer
        print("INCONCLUSIVE property=%s: no verdict for %s" % (pid, ", ".join(undecided_groups)))
        if 2 * len(undecided_groups) > len(groups):
            rc = 3
    print("%s %s: %d instances, %d paths, %d queries (%d unsat, %d sat, %d unknown), solver %.1fs, %d validated runs, wall %.1fs -> exit %d" % (
        pid, tier, len(results), tot["paths"], tot["queries"], tot["unsat"], tot["sat"], tot["unknown"], tot["solver_s"], validated, time.time() - t0, rc))
    return rc


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
