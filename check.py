#!/opt/venv/bin/python
"""
Decides one property: every harness of the property is explored symbolically on the instrumented /repo source, each
counterexample is replayed on the untouched code, and the evidence file is rewritten.

  check.py PROPERTY [--tier quick|thorough] [--harness NAME ...] [--budget S] [--debug]
  check.py --replay FILE
"""
import argparse
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
PYTHON = "/opt/venv/bin/python"
EVIDENCE = os.path.join(ROOT, "evidence")
KNOWN = os.path.join(ROOT, "known_findings.json")
REPO = os.environ.get("VERIF_REPO", "/repo")


def child_env():
    env = dict(os.environ)
    env.update({"PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONNOUSERSITE": "1", "MPLBACKEND": "agg",
                "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "BROWSER": "true"})
    env.pop("PYTHONPATH", None)
    return env


def list_harnesses(prop):
    """ [(module, name, budget, tiers, bounds)] of a property, read in a child process. """
    code = ("import sys,json,io,importlib,glob,os,warnings\n"
            "warnings.simplefilter('ignore')\n"
            f"sys.path.insert(0,{REPO!r}); sys.path.insert(0,{ROOT!r})\n"
            "out=sys.stdout; sys.stdout=io.StringIO()\n"
            "from symex import ctx\n"
            f"mods=['harness.'+os.path.basename(p)[:-3] for p in sorted(glob.glob({ROOT!r}+'/harness/{prop.lower()}*.py'))]\n"
            "res=[]\n"
            "for m in mods:\n"
            "    before={k:set(v) for k,v in ctx.REGISTRY.items()}\n"
            "    importlib.import_module(m)\n"
            f"    for n,e in ctx.REGISTRY.get({prop!r},{{}}).items():\n"
            f"        if n not in before.get({prop!r},set()):\n"
            "            res.append({'module':m,'name':n,'budget':e['budget'],'tiers':e['tiers'],'bounds':e['bounds'],'doc':e['doc'],'shards':e['shards']})\n"
            "sys.stdout=out\n"
            "print(json.dumps(res))\n")
    proc = subprocess.run([PYTHON, "-c", code], capture_output=True, text=True, env=child_env(), cwd=ROOT, timeout=300)
    if proc.returncode:
        raise RuntimeError(proc.stderr[-3000:])
    return json.loads(proc.stdout.strip().splitlines()[-1])


def run_worker(prop, item, tier, budget, scratch, debug):
    shard, shards = item["shard"]
    out = os.path.join(scratch, f"{item['module']}.{item['name']}.{shard}.json")
    cmd = [PYTHON, "-m", "symex.worker", "--module", item["module"], "--property", prop, "--harness", item["name"],
           "--tier", tier, "--budget", str(budget), "--out", out, "--shard", str(shard), str(shards)]
    if debug:
        cmd.append("--debug")
    log = os.path.join(scratch, f"{item['name']}.{shard}.log")
    with open(log, "w", encoding="utf-8") as stream:
        try:
            proc = subprocess.run(cmd, stdout=None if debug else stream, stderr=None if debug else stream,
                                  env=child_env(), cwd=ROOT, timeout=budget + 90)
            code = proc.returncode
        except subprocess.TimeoutExpired:
            code = "timeout"
    if os.path.exists(out):
        with open(out, encoding="utf-8") as stream:
            return json.load(stream)
    with open(log, encoding="utf-8") as stream:
        tail = stream.read()[-2500:]
    return {"harness": item["name"], "module": item["module"], "error": f"worker ended with {code}: {tail}",
            "exhausted": False, "stats": {}, "counterexamples": [], "samples": [], "labels": {}, "functions": [],
            "notes": {}, "wall_s": 0.0, "bounds": item["bounds"], "doc": item["doc"]}


def run_replay(prop, module, name, tier, assignments, timeout=240):
    cmd = [PYTHON, "-m", "symex.replay", "--module", module, "--property", prop, "--harness", name, "--tier", tier]
    try:
        proc = subprocess.run(cmd, input=json.dumps(assignments), capture_output=True, text=True, env=child_env(),
                              cwd=ROOT, timeout=timeout)
        return json.loads(proc.stdout.strip().splitlines()[-1])
    except (subprocess.TimeoutExpired, json.JSONDecodeError, IndexError):
        if len(assignments) == 1:
            return [{"outcome": "crash", "trace": []}]
        return [run_replay(prop, module, name, tier, [a], 60)[0] for a in assignments]


def merge(parts):
    """ One result per harness from the results of its shards. """
    merged = {}
    for part in parts:
        if part["harness"] not in merged:
            merged[part["harness"]] = part
            continue
        res = merged[part["harness"]]
        res["exhausted"] = res["exhausted"] and part["exhausted"]
        res["error"] = res.get("error") or part.get("error")
        for key, value in part["stats"].items():
            res["stats"][key] = res["stats"].get(key, 0) + value
        for field in ("labels", "notes"):
            for key, value in part[field].items():
                res[field][key] = res[field].get(key, 0) + value
        res["counterexamples"] += part["counterexamples"]
        res["samples"] = res["samples"][:20] + part["samples"][:20]
        res["functions"] = sorted(set(res["functions"]) | set(part["functions"]))
        res["wall_s"] = max(res["wall_s"], part["wall_s"])
    return list(merged.values())


def load_known(prop):
    if not os.path.exists(KNOWN):
        return []
    with open(KNOWN, encoding="utf-8") as stream:
        return [f for f in json.load(stream)["findings"] if f["property"] == prop]


def replay_file(path):
    with open(path, encoding="utf-8") as stream:
        data = json.load(stream)
    res = run_replay(data["property"], data["module"], data["harness"], data["tier"], [data["assignment"]])[0]
    print(json.dumps(res, indent=1))
    return 1 if res["outcome"] == "violation" else 0


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument("property", nargs="?")
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    parser.add_argument("--harness", nargs="*")
    parser.add_argument("--budget", type=float)
    parser.add_argument("--replay")
    parser.add_argument("--debug", action="store_true")
    parser.add_argument("--jobs", type=int, default=8)
    args = parser.parse_args()
    if args.replay:
        return replay_file(args.replay)
    prop, tier = args.property, args.tier
    start = time.time()
    os.makedirs(EVIDENCE, exist_ok=True)
    replay_dir = os.path.join(EVIDENCE, "replays", prop)
    shutil.rmtree(replay_dir, ignore_errors=True)
    os.makedirs(replay_dir)
    items = [i for i in list_harnesses(prop) if tier in i["tiers"] and (not args.harness or i["name"] in args.harness)]
    if not items:
        print(f"no harness for {prop}")
        return 2
    scratch = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    try:
        # longest budget first; the whole check stays under the wall-clock limit of the tier
        items.sort(key=lambda i: -i["budget"])
        scale = 1.0 if tier == "quick" else 4.0

        def job(item):
            budget = args.budget or item["budget"] * scale
            return run_worker(prop, item, tier, budget, scratch, args.debug)
        jobs = []
        for item in items:
            shards = item["shards"] * (1 if tier == "quick" else 2)
            shards = 1 if args.debug else min(shards, 8)
            jobs += [dict(item, shard=(i, shards)) for i in range(shards)]
        with ThreadPoolExecutor(max_workers=args.jobs) as pool:
            results = merge(list(pool.map(job, jobs)))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    violations, spurious, errors, validated, diverged = [], [], [], 0, 0
    known_hits = {}
    known = load_known(prop)
    for res in results:
        name, module = res["harness"], res["module"]
        if res.get("error"):
            errors.append(f"{name}: {res['error']}")
        flat = [(ce, a) for ce in res["counterexamples"] for a in ce["assignments"]]
        outcomes = run_replay(prop, module, name, tier, [a for _, a in flat]) if flat else []
        seen = {}
        for (ce, assignment), outcome in zip(flat, outcomes):
            slot = seen.setdefault(id(ce), {"ce": ce, "hit": None, "outcomes": []})
            slot["outcomes"].append(outcome["outcome"])
            if outcome["outcome"] == "violation" and slot["hit"] is None:
                slot["hit"] = (assignment, outcome)
        for slot in seen.values():
            if slot["hit"] is None:
                spurious.append({"harness": name, "label": slot["ce"]["label"], "detail": slot["ce"]["detail"],
                                 "outcomes": slot["outcomes"], "assignment": slot["ce"]["assignments"][0]})
                continue
            assignment, outcome = slot["hit"]
            record(violations, known_hits, known, prop, module, name, tier, assignment, outcome, "solver")
        for ce in res["counterexamples"]:
            if not ce["assignments"]:
                spurious.append({"harness": name, "label": ce["label"], "detail": "no model", "outcomes": []})
        # every sampled completed path is replayed on the real code: same assertions met, none failing
        samples = res["samples"][:60]
        outcomes = run_replay(prop, module, name, tier, [s["assignment"] for s in samples]) if samples else []
        for sample, outcome in zip(samples, outcomes):
            if outcome["outcome"] == "violation":
                record(violations, known_hits, known, prop, module, name, tier, sample["assignment"], outcome,
                       "path validation")
            elif outcome["outcome"] == "ok" and outcome["trace"] == sample["trace"]:
                validated += 1
            else:
                diverged += 1
                if args.debug:
                    print("DIVERGED", name, outcome, sample["trace"], sample["assignment"])
        if not res["stats"].get("completed") and not any(v["harness"] == name for v in violations):
            errors.append(f"{name}: no path completed (vacuous)")

    unique = {}
    for v in violations:
        unique.setdefault((v["harness"], v["label"]), v)
    lines = []
    for n, v in enumerate(unique.values()):
        path = os.path.join(replay_dir, f"ce{n:02d}.json")
        with open(path, "w", encoding="utf-8") as stream:
            json.dump(v, stream, indent=1)
        lines.append(f"VIOLATION property={prop} replay={path}")
        print(f"  {v['harness']}: {v['label']} ({v['found_by']})")
        print("    inputs: " + json.dumps(v["assignment"]["inputs"])[:600])
        print("    " + v["detail"].strip().replace("\n", "\n    ")[-1500:])
    for finding, what in known_hits.items():
        print(f"KNOWN-FINDING: property={prop} {finding}: {what}")
    for s in spurious:
        print(f"  NOT REPRODUCED {s['harness']}: {s['label']} {s['outcomes']}")
        if args.debug:
            print(json.dumps(s, indent=1)[:3000])
    for e in errors:
        print("  NOT DECIDED " + e)
    write_evidence(prop, tier, results, unique, spurious, errors, validated, diverged, known_hits, time.time() - start)
    total = {k: sum(r["stats"].get(k, 0) for r in results) for k in
             ("paths", "completed", "checks", "queries", "solver_s", "incomplete", "unknown", "realised")}
    print(f"{prop} [{tier}] harnesses={len(results)} exhausted={sum(r['exhausted'] for r in results)} "
          f"paths={total['paths']} checks={total['checks']} queries={total['queries']} "
          f"solver={total['solver_s']:.1f}s incomplete={total['incomplete']} validated={validated} "
          f"diverged={diverged} wall={time.time() - start:.1f}s")
    for r in results:
        st = r["stats"]
        print(f"   - {r['harness']}: exhausted={r['exhausted']} paths={st.get('paths')} completed={st.get('completed')} "
              f"checks={st.get('checks')} incomplete={st.get('incomplete')} realised={st.get('realised')} "
              f"{r['wall_s']:.1f}s {list(r['notes'].items())[:3] if r['notes'] else ''}")
    if lines:
        print("\n".join(lines))
        return 1
    done = sum(1 for r in results if r["stats"].get("completed"))
    if errors and 2 * done < len(results):
        print(f"INCONCLUSIVE property={prop}")
        return 2
    return 0


def record(violations, known_hits, known, prop, module, name, tier, assignment, outcome, found_by):
    for finding in known:
        if finding.get("status") == "known" and finding["harness"] == name and finding["label"] == outcome["label"]:
            known_hits[finding["id"]] = finding["what"]
            return
    violations.append({"property": prop, "module": module, "harness": name, "tier": tier, "assignment": assignment,
                       "label": outcome["label"], "detail": outcome.get("detail", ""), "found_by": found_by})


def write_evidence(prop, tier, results, unique, spurious, errors, validated, diverged, known_hits, wall):
    functions = sorted({f for r in results for f in r["functions"]})
    coverage = {
        "explanation": "bounded symbolic execution of the instrumented /repo source: inputs symbolic, every feasible "
                       "path within the bounds explored, each assertion discharged by z3 on each path",
        "harnesses": [{"name": r["harness"], "what": r["doc"], "bounds": r["bounds"], "exhausted": r["exhausted"],
                       "paths": r["stats"].get("paths", 0), "paths_completed": r["stats"].get("completed", 0),
                       "assertions": r["stats"].get("checks", 0), "labels": r["labels"],
                       "assertions_by_solver": r["stats"].get("checks_solver", 0),
                       "queries": r["stats"].get("queries", 0),
                       "solver_s": round(r["stats"].get("solver_s", 0.0), 3),
                       "unknown": r["stats"].get("unknown", 0), "incomplete": r["stats"].get("incomplete", 0),
                       "realised": r["stats"].get("realised", 0), "notes": r["notes"],
                       "wall_s": round(r["wall_s"], 2)} for r in results],
        "functions_encoded": functions,
        "queries": sum(r["stats"].get("queries", 0) for r in results),
        "solver_s": round(sum(r["stats"].get("solver_s", 0.0) for r in results), 3),
        "paths": sum(r["stats"].get("paths", 0) for r in results),
        "reachability": "every harness completed at least one path whose condition the solver found satisfiable"
                        if not any("vacuous" in e for e in errors) else "VACUOUS harness, see errors",
        "paths_replayed_on_real_code": validated,
        "replays_that_diverged": diverged,
        "counterexamples_not_reproduced": len(spurious),
        "errors": errors,
        "known_findings": known_hits,
        "exhausted": all(r["exhausted"] for r in results),
    }
    assumptions = [
        "int is a mathematical integer within the stated range; float is a mathematical real (no rounding, NaN, inf)",
        "strings have the stated lengths; code points range over the stated alphabet",
        "uuid1/uuid4 return distinct identifiers; json/orjson encode and decode JSON values faithfully",
        "third-party libraries (numpy, networkx, ...) run natively on the proxies",
        "hash of a non-integral float or a str is an unspecified function of its value",
        "numpy.std of symbolic values is an unspecified non-negative number, zero exactly when they are all equal",
    ]
    evidence = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other",
                "coverage": coverage, "assumptions": assumptions, "wall_s": round(wall, 2),
                "violations": len(unique)}
    coverage["violations_found"] = [{"harness": v["harness"], "label": v["label"]} for v in unique.values()]
    with open(os.path.join(EVIDENCE, f"{prop}.json"), "w", encoding="utf-8") as stream:
        json.dump(evidence, stream, indent=1)


if __name__ == "__main__":
    sys.exit(main())
