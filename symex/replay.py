""" Runs a harness concretely, with given inputs, on the untouched code in /repo. No solver, no instrumentation. """
import argparse
import importlib
import io
import json
import os
import sys
import traceback
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


def run_one(ctxmod, entry, assignment, tier):
    ctx = ctxmod.ConcreteCtx(assignment, tier)
    stdout, sys.stdout = sys.stdout, io.StringIO()
    try:
        entry["func"](ctx)
        return {"outcome": "ok", "trace": ctx.trace}
    except ctxmod.Violation as exc:
        return {"outcome": "violation", "label": exc.label, "detail": exc.detail[:2000], "trace": ctx.trace}
    except ctxmod.Skip:
        return {"outcome": "skip", "trace": ctx.trace}
    except Exception as exc:
        return {"outcome": "violation", "label": f"raises {type(exc).__name__}", "trace": ctx.trace,
                "detail": traceback.format_exc(limit=-6)[-2000:]}
    finally:
        sys.stdout = stdout


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument("--module", required=True)
    parser.add_argument("--property", required=True)
    parser.add_argument("--harness", required=True)
    parser.add_argument("--tier", default="quick")
    args = parser.parse_args()
    sys.path.insert(0, REPO)
    sys.path.insert(0, ROOT)
    warnings.simplefilter("ignore")
    assignments = json.load(sys.stdin)
    stdout, sys.stdout = sys.stdout, io.StringIO()
    importlib.import_module(args.module)
    from symex import ctx as ctxmod
    sys.stdout = stdout
    entry = ctxmod.REGISTRY[args.property][args.harness]
    results = [run_one(ctxmod, entry, a, args.tier) for a in assignments]
    json.dump(results, sys.stdout)


if __name__ == "__main__":
    main()
