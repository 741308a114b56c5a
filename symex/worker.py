""" Explores one harness symbolically and writes what it found as JSON. """
import argparse
import importlib
import io
import json
import os
import sys
import time
import traceback
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument("--module", required=True)
    parser.add_argument("--property", required=True)
    parser.add_argument("--harness", required=True)
    parser.add_argument("--tier", default="quick")
    parser.add_argument("--budget", type=float, default=120)
    parser.add_argument("--out", required=True)
    parser.add_argument("--shard", type=int, nargs=2, default=(0, 1))
    parser.add_argument("--debug", action="store_true")
    args = parser.parse_args()

    sys.path.insert(0, REPO)
    sys.path.insert(0, ROOT)
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    import z3
    z3.z3.Z3_DEBUG = False
    sys.path.pop()
    warnings.simplefilter("ignore")
    sys.setrecursionlimit(6000)

    from symex import rewrite, runtime, engine as eng
    real_stdout = sys.stdout
    if not args.debug:
        sys.stdout = io.StringIO()
    rewrite.install({"dessia_common": REPO, "harness": ROOT})
    importlib.import_module(args.module)
    from symex import ctx as ctxmod
    entry = ctxmod.REGISTRY[args.property][args.harness]
    load_functions = set(runtime.FUNCTIONS)
    runtime.FUNCTIONS.clear()

    start = time.time()
    engine = eng.Engine(max_paths=entry["max_paths"], deadline=start + args.budget, realise_cap=entry["realise_cap"],
                        shard=tuple(args.shard))
    error = None

    def run():
        if not args.debug:
            sys.stdout = io.StringIO()
        ctx = ctxmod.make_sym_ctx(engine, args.tier)
        try:
            entry["func"](ctx)
        except Exception as exc:
            frames = traceback.extract_tb(exc.__traceback__)
            inside = [f for f in frames if "/symex/" in f.filename]
            last = frames[-1] if frames else None
            text = traceback.format_exc(limit=-6)
            if args.debug:
                sys.stderr.write(traceback.format_exc())
            engine.fail(f"raises {type(exc).__name__}", text)
            del inside, last

    exhausted = False
    try:
        exhausted = engine.explore(run, sample_every=3)
    except eng.Nondeterminism as exc:
        error = f"nondeterministic re-execution: {str(exc)[:300]}"
    except Exception:
        error = traceback.format_exc()[-3000:]
    sys.stdout = real_stdout
    result = {"harness": args.harness, "property": args.property, "module": args.module, "tier": args.tier,
              "exhausted": exhausted, "stats": engine.stats, "notes": engine.notes,
              "counterexamples": engine.counterexamples, "samples": engine.samples, "labels": engine.labels,
              "functions": sorted(f for f in runtime.FUNCTIONS if f.startswith("dessia_common")),
              "functions_at_import": len(load_functions), "error": error, "wall_s": time.time() - start,
              "bounds": entry["bounds"], "doc": entry["doc"]}
    with open(args.out, "w", encoding="utf-8") as stream:
        json.dump(result, stream)


if __name__ == "__main__":
    main()
