""" Fills the generated parts of DESIGN.md (kept as DESIGN.in.md) from the properties, harnesses and seeds. """
import ast
import glob
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def harness_lines(prop):
    lines = []
    for path in sorted(glob.glob(os.path.join(ROOT, "harness", prop.lower() + "*.py"))):
        with open(path, encoding="utf-8") as stream:
            tree = ast.parse(stream.read())
        for node in tree.body:
            if isinstance(node, ast.FunctionDef):
                for deco in node.decorator_list:
                    if isinstance(deco, ast.Call) and getattr(deco.func, "id", "") == "harness":
                        bounds = [ast.literal_eval(k.value) for k in deco.keywords if k.arg == "bounds"]
                        doc = (ast.get_docstring(node) or "").replace("\n", " ")
                        lines.append(f"  - `{node.name}`: {doc} Bounds: {bounds[0] if bounds else 'see code'}.")
    return lines


def main():
    with open(os.path.join(ROOT, "DESIGN.in.md"), encoding="utf-8") as stream:
        text = stream.read()
    with open(os.path.join(ROOT, "properties.jsonl"), encoding="utf-8") as stream:
        props = [json.loads(line) for line in stream]
    with open(os.path.join(ROOT, "MANIFEST.json"), encoding="utf-8") as stream:
        manifest = json.load(stream)
    claimed = {c["property"] for c in manifest["checks"]}
    approach = {}
    path = os.path.join(ROOT, "tools", "approach.json")
    if os.path.exists(path):
        with open(path, encoding="utf-8") as stream:
            approach = json.load(stream)
    out = []
    for p in props:
        if p["id"] not in claimed:
            continue
        out.append(f"### {p['id']} {p['title']}\n\n{approach.get(p['id'], '')}\n\nHarnesses (all feasible paths within the "
                   "bounds, each assertion discharged by z3):\n" + "\n".join(harness_lines(p["id"])) + "\n")
    text = text.replace("@PROPERTIES@", "\n".join(out))
    text = text.replace("@NA@", "\n".join(f"- {n['property']}: {n['reason']}" for n in manifest["not_applicable"]) or "None.")
    with open(os.path.join(ROOT, "known_findings.json"), encoding="utf-8") as stream:
        found = json.load(stream)["findings"]
    text = text.replace("@FIXES@", "\n".join(f"- {f['property']}, {f['status']}: {f['what'].split(' ', 2)[-1] if f['status'] == 'fixed' else f['what']}"
                                             for f in found))
    rows = []
    results = {}
    path = os.path.join(ROOT, "tools", "seed_results.json")
    if os.path.exists(path):
        with open(path, encoding="utf-8") as stream:
            results = json.load(stream)
    for folder in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
        id_ = os.path.basename(os.path.dirname(folder))
        with open(folder, encoding="utf-8") as stream:
            meta = json.load(stream)
        rows.append(f"| {id_} | {meta['property']} | {meta['what_it_breaks']} | {results.get(id_, '')} |")
    text = text.replace("@SEEDS@", "| id | property | what it breaks | outcome |\n|---|---|---|---|\n" + "\n".join(rows))
    with open(os.path.join(ROOT, "DESIGN.md"), "w", encoding="utf-8") as stream:
        stream.write(text)


if __name__ == "__main__":
    main()
