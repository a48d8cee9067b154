#!/opt/veriftools/pyvenv/bin/python
"""check.py PROPERTY: decide one property on the current tree of /repo.

Exit 0: holds on everything explored.  Exit 1 with a VIOLATION line: broken,
reproduced on the real code.  Anything else is an error of the check."""
import json
import os
import random
import shutil
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

from registry import CHECKS           # noqa: E402
from sx import driver                 # noqa: E402


def load_known(prop):
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("{"):
                e = json.loads(line)
                if e["property"] == prop:
                    out.append(e)
    return out


def match_known(known, rec):
    for e in known:
        if e["func"] == rec["func"] and e["label"] == rec["label"] \
                and e.get("detail", "") in rec.get("detail", ""):
            return e
    return None


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.monotonic()
    spec = CHECKS[prop]
    entries = spec["harnesses"]
    only = os.environ.get("VERIF_ONLY")
    fast = os.environ.get("VERIF_FAST") == "1"      # stop at the first violation
    if only:
        entries = [e for e in entries if e["func"] == only]
    total_budget = float(os.environ.get("VERIF_BUDGET", 600 if tier == "quick" else 6000))
    nworkers = int(os.environ.get("VERIF_JOBS") or max(1, min(8, os.cpu_count() or 1)))
    known = load_known(prop)
    tmp = tempfile.mkdtemp(prefix="sxcheck")
    evdir = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    rpdir = os.path.join(evdir, "replays")
    os.makedirs(rpdir, exist_ok=True)
    for f in os.listdir(rpdir):
        if f.startswith(prop + "-"):
            os.unlink(os.path.join(rpdir, f))
    pool = driver.Pool(nworkers)
    rep = driver.Replayer(nworkers, tmp)
    violations, known_hits, problems, mism = [], {}, [], []
    parts = []
    validated = 0
    rnd = random.Random(seed)
    status = 0
    try:
        for i, ent in enumerate(entries):
            if fast and any(match_known(known, v) is None for v in violations):
                break
            bounds = dict(ent.get("bounds", {}))
            if tier == "thorough":
                bounds.update(ent.get("thorough", {}))
            left = total_budget - (time.monotonic() - t0)
            budget = max(20.0, left / (len(entries) - i) * 1.5)
            r = driver.explore(pool, ent["module"], ent["func"], bounds, min(budget, max(left, 20.0)),
                               path_s=ent.get("path_s", 60), sample_p=ent.get("sample_p", 0.03),
                               stop_on_violation=1 if fast else 30, seed=seed, known=[e for e in known if e["func"] == ent["func"]])

            def task(values):
                return {"harness": ent["module"], "func": ent["func"], "bounds": bounds,
                        "values": values}

            # --- counterexamples: reproduce on the real code
            viols = [x for x in r["results"] if x["status"] == "violation"]
            incon = [x for x in r["results"] if x["status"] == "inconclusive"]
            groups = {}
            for x in viols:
                groups.setdefault((x["label"], x["detail"][:80]), []).append(x)
            cand = []
            for g in groups.values():
                cand.extend(g[:3])
            cand = cand[:24]
            rnd.shuffle(incon)
            cand_i = [x for x in incon if x.get("values") is not None][:24 if tier == "quick" else 80]
            nsamp = 16 if tier == "quick" else 60
            samples = r["samples"]
            rnd.shuffle(samples)
            samples = samples[:max(nsamp, 0)]
            tasks = [task(x["values"]) for x in cand if x.get("values") is not None]
            order = [x for x in cand if x.get("values") is not None]
            res = rep.run(tasks + [task(x["values"]) for x in cand_i]
                          + [task(x["values"]) for x in samples])
            unrep = 0
            nrep = {}
            for x, got in zip(order, res[:len(order)]):
                if got and got["status"] == "violation":
                    rec = {"func": ent["func"], "label": got["label"], "detail": got["detail"],
                           "values": x["values"], "module": ent["module"], "bounds": bounds,
                           "model_label": x["label"], "trace": got.get("trace", "")}
                    nrep[(x["label"], x["detail"][:80])] = True
                    violations.append(rec)
            for key, g in groups.items():
                if key not in nrep:
                    unrep += len(g)
                    problems.append(f"{ent['func']}: counterexample for '{key[0]}' ({key[1]}) "
                                    f"does not reproduce on the real code")
            for x, got in zip(cand_i, res[len(order):len(order) + len(cand_i)]):
                if got and got["status"] == "violation":
                    violations.append({"func": ent["func"], "label": got["label"],
                                       "detail": got["detail"], "values": x["values"],
                                       "module": ent["module"], "bounds": bounds,
                                       "model_label": "inconclusive path: " + x["label"],
                                       "trace": got.get("trace", "")})
            shown = []
            ok = 0
            for x, got in zip(samples, res[len(order) + len(cand_i):]):
                if got is None or got["status"] == "timeout":
                    continue
                if got["status"] == "violation":
                    violations.append({"func": ent["func"], "label": got["label"],
                                       "detail": got["detail"], "values": x["values"],
                                       "module": ent["module"], "bounds": bounds,
                                       "model_label": "path sample", "trace": got.get("trace", "")})
                elif got["status"] == "ok" and got["obs"] == x["obs"]:
                    ok += 1
                    if len(shown) < 2:
                        shown.append({"harness": ent["func"], "inputs": x["values"],
                                      "observed": x["obs"]})
                else:
                    mism.append({"func": ent["func"], "values": x["values"], "model": x["obs"],
                                 "real": got["obs"], "status": got["status"]})
            validated += ok
            need = set(ent.get("reach", [])) - set(r["reached"])
            if need and not viols and not violations:
                problems.append(f"VACUOUS {ent['func']}: never reached {sorted(need)}")
                status = 3
            done = r["paths"].get("ok", 0)
            if not r["exhausted"]:
                problems.append(f"{ent['func']}: {r['left']} subtrees unexplored (time)")
            if incon:
                kinds = {}
                for x in incon:
                    kinds[x["label"]] = kinds.get(x["label"], 0) + 1
                problems.append(f"{ent['func']}: inconclusive paths {kinds}")
            parts.append({
                "harness": f"{ent['module']}.{ent['func']}", "what": ent.get("what", ""),
                "bounds": bounds, "paths": r["paths"], "exhausted": r["exhausted"],
                "left": r["left"], "reached": r["reached"], "incomplete": r["incomplete"],
                "solver": {k: (round(v, 3) if isinstance(v, float) else v)
                           for k, v in r["stats"].items()},
                "functions": sorted(f for f in r["functions"] if f.startswith("dataladmetadatamodel")),
                "unreproduced": unrep, "validated": ok, "wall_s": round(r["wall_s"], 2),
                "samples": shown})
    finally:
        pool.close()
        rep.close()
        shutil.rmtree(tmp, ignore_errors=True)

    fresh = []
    seen = set()
    broken = [v for v in violations if v["label"] in
              ("unexpected SyntaxError", "unexpected ImportError", "unexpected ModuleNotFoundError")]
    if broken:
        # the interface itself is gone: nothing can be said about the property
        problems.append(f"cannot run: {broken[0]['label']} {broken[0]['detail']}")
        violations = [v for v in violations if v not in broken]
        status = 3
    for v in violations:
        e = match_known(known, v)
        if e is not None:
            known_hits[e["label"]] = e
            continue
        key = (v["func"], v["label"], v["detail"][:60])
        if key in seen:
            continue
        seen.add(key)
        fresh.append(v)
    for e in known:
        # listed findings are announced whenever their harness was explored
        print(f"KNOWN-FINDING: property={prop} {e['what']}"
              + ("" if e["label"] in known_hits else " (not met in this run)"))
    for n, v in enumerate(fresh):
        path = os.path.join(rpdir, f"{prop}-{n}.json")
        with open(path, "w") as f:
            json.dump({"harness": v["module"], "func": v["func"], "bounds": v["bounds"],
                       "values": v["values"], "label": v["label"], "detail": v["detail"],
                       "model_label": v["model_label"],
                       "replay_cmd": f"{driver.REAL_PYTHON} {VERIF}/sx/real.py {path}"}, f, indent=1)
        if n < 8:
            print(f"VIOLATION property={prop} replay={path}")
            print(f"  {v['func']}: {v['label']} {v['detail'][:300]}")
    for p in problems[:20]:
        print("NOTE:", p)
    if mism:
        print(f"NOTE: {len(mism)} path samples behave differently on the real code "
              f"(model mismatch), e.g. {json.dumps(mism[0])[:600]}")

    tot = lambda k: sum(p["solver"].get(k, 0) for p in parts)
    paths = sum(sum(p["paths"].values()) for p in parts)
    funcs = sorted({f for p in parts for f in p["functions"]})
    import re as _re
    funcs = [f for f in funcs if _re.search(spec.get("functions", "."), f)]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": paths,
            "transitions": tot("branches") + tot("forced"),
            "traces_validated_against_impl": validated,
            "samples": [s for p in parts for s in p["samples"]][:6],
            "exhaustive": all(p["exhausted"] for p in parts)
            and not any(p["paths"].get("inconclusive") or p["incomplete"] for p in parts),
            "explanation": "states: symbolic paths executed to their end; transitions: branch "
                           "decisions put to the solver on them; traces_validated_against_impl: "
                           "path models re-run on the real code with real git and the same "
                           "observations.",
            "functions_encoded": funcs,
            "queries": tot("queries"), "queries_sat": tot("sat"), "queries_unsat": tot("unsat"),
            "queries_unknown": tot("unknown"), "solver_s": round(tot("solver_s"), 2),
            "assertions_proved_by_solver": tot("proved"),
            "assertions_decided_without_query": tot("proved_concrete"),
            "concretisations": tot("concretised"),
            "harnesses": [{k: v for k, v in p.items() if k not in ("functions", "samples")}
                          for p in parts],
            "notes": problems, "model_mismatches": mism[:5],
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": len(fresh),
    }
    with open(os.path.join(evdir, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{prop} [{tier}]: {paths} paths, {tot('queries')} queries ({tot('solver_s'):.1f}s solver), "
          f"{validated} traces validated, {len(fresh)} violations, "
          f"exhaustive={ev['coverage']['exhaustive']}, {ev['wall_s']}s")
    if fresh:
        sys.exit(1)
    sys.exit(status)


if __name__ == "__main__":
    main()
