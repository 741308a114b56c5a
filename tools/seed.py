#!/usr/bin/env python3
"""
Plants and measures bugs in scratch copies of /repo.

  seed.py make ID PROPERTY FILE OLDFILE NEWFILE DEMO NEEDS BREAKS   (used from small scripts)
  seed.py try ID [ID ...]      tests + demo + check, in scratch copies
  seed.py check ID [ID ...]    check only
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, "seeded")


def copy_repo(tag):
    dst = tempfile.mkdtemp(prefix=f"seed-{tag}-")
    subprocess.run(["cp", "-a", os.environ.get("SEED_REPO", "/repo") + "/.", dst], check=True)
    return dst


def make(id_, prop, edits, demo, needs, breaks):
    """ edits: [(file, old, new)] """
    dst = copy_repo(id_)
    try:
        for file, old, new in edits:
            path = os.path.join(dst, file)
            with open(path, encoding="utf-8") as stream:
                text = stream.read()
            assert text.count(old) == 1, (id_, file, text.count(old), old)
            with open(path, "w", encoding="utf-8") as stream:
                stream.write(text.replace(old, new))
        diff = subprocess.run(["git", "-C", dst, "diff"], capture_output=True, text=True, check=True).stdout
    finally:
        shutil.rmtree(dst)
    folder = os.path.join(SEEDED, id_)
    os.makedirs(folder, exist_ok=True)
    with open(os.path.join(folder, "patch.diff"), "w", encoding="utf-8") as stream:
        stream.write(diff)
    with open(os.path.join(folder, "demo.py"), "w", encoding="utf-8") as stream:
        stream.write(demo.strip("\n") + "\n")
    with open(os.path.join(folder, "demo.sh"), "w", encoding="utf-8") as stream:
        stream.write('#!/bin/bash\nHERE=$(cd "$(dirname "$0")" && pwd)\n'
                     'PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python -W ignore "$HERE/demo.py"\n')
    os.chmod(os.path.join(folder, "demo.sh"), 0o755)
    with open(os.path.join(folder, "meta.json"), "w", encoding="utf-8") as stream:
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, stream, indent=1)
        stream.write("\n")


def demo(id_, cwd):
    proc = subprocess.run(["bash", os.path.join(SEEDED, id_, "demo.sh")], cwd=cwd, capture_output=True, text=True,
                          timeout=300)
    return proc.returncode, (proc.stdout + proc.stderr)[-600:]


def tests(copy):
    """ Stable tests missing among the passed ones, in the copy. """
    with open("/opt/vp/test.sh", encoding="utf-8") as stream:
        script = stream.read()
    with open("/opt/vp/env.sh", encoding="utf-8") as stream:
        env = stream.read()
    scratch = tempfile.mkdtemp(prefix="seedtest-")
    try:
        with open(scratch + "/env.sh", "w", encoding="utf-8") as stream:
            stream.write(env.replace("/repo", copy) + f"\nexport PYTHONPATH={copy}\n")
        with open(scratch + "/test.sh", "w", encoding="utf-8") as stream:
            stream.write(script.replace("/opt/vp/env.sh", scratch + "/env.sh").replace("/repo", copy))
        subprocess.run(["bash", scratch + "/test.sh", scratch + "/out.json"], capture_output=True, timeout=900)
        with open(scratch + "/out.json", encoding="utf-8") as stream:
            passed = set(json.load(stream)["passed"])
        with open("/opt/vp/BASELINE.json", encoding="utf-8") as stream:
            stable = json.load(stream)["stable"]
        return [t for t in stable if t not in passed]
    finally:
        shutil.rmtree(scratch)


def check(id_, copy, prop):
    """ Runs the check of a property on the copy, in a copy of /verif so that runs do not share evidence. """
    verif = tempfile.mkdtemp(prefix="seedverif-")
    try:
        for name in ("symex", "harness", "check.py", "known_findings.json"):
            subprocess.run(["cp", "-a", os.path.join(ROOT, name), verif], check=True)
        env = dict(os.environ, VERIF_REPO=copy, VERIF_TIER="quick")
        proc = subprocess.run(["/opt/venv/bin/python", verif + "/check.py", prop], capture_output=True, text=True, env=env)
        return proc.returncode, proc.stdout
    finally:
        shutil.rmtree(verif)


def attempt(id_, with_tests):
    with open(os.path.join(SEEDED, id_, "meta.json"), encoding="utf-8") as stream:
        prop = json.load(stream)["property"]
    copy = copy_repo(id_)
    try:
        res = {"id": id_, "property": prop}
        if with_tests:
            res["demo_before"] = demo(id_, copy)[0]
        subprocess.run(["git", "-C", copy, "apply", os.path.join(SEEDED, id_, "patch.diff")], check=True)
        if with_tests:
            res["demo_after"], res["demo_text"] = demo(id_, copy)
            res["tests_missing"] = tests(copy)[:5]
        code, out = check(id_, copy, prop)
        res["check"] = code
        res["out"] = [line for line in out.splitlines() if "VIOLATION" in line or line.startswith("  ")][:6]
        return res
    finally:
        shutil.rmtree(copy)


def record(id_, outcome):
    """ Keeps the outcomes for DESIGN.md. """
    path = os.path.join(ROOT, "tools", "seed_results.json")
    results = {}
    if os.path.exists(path):
        with open(path, encoding="utf-8") as stream:
            results = json.load(stream)
    results[id_] = outcome
    with open(path, "w", encoding="utf-8") as stream:
        json.dump(dict(sorted(results.items())), stream, indent=1)
        stream.write("\n")


if __name__ == "__main__":
    ids = sys.argv[2:] or sorted(os.listdir(SEEDED))
    workers = 3 if sys.argv[1] == "try" else 2
    with ThreadPoolExecutor(workers) as pool:
        for res in pool.map(lambda i: attempt(i, sys.argv[1] == "try"), ids):
            ok = "CAUGHT" if res["check"] == 1 else f"MISSED({res['check']})"
            valid = ""
            if sys.argv[1] == "try":
                good = res["demo_before"] == 0 and res["demo_after"] != 0 and not res["tests_missing"]
                valid = "valid" if good else f"INVALID before={res['demo_before']} after={res['demo_after']} " \
                                             f"tests={res['tests_missing']} {res['demo_text'] if not good else ''}"
            print(res["id"], res["property"], valid, ok, flush=True)
            record(res["id"], "caught" if res["check"] == 1 else "missed")
            for line in res["out"]:
                print("     ", line[:220])
