""" addfix.py PROPERTY COMMIT TEXT: records a repaired defect in known_findings.json. """
import json
import os
import sys

PATH = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")


def add(prop, commit, text):
    with open(PATH, encoding="utf-8") as stream:
        items = json.load(stream)["findings"]
    if any(i["commit"] == commit for i in items):
        return
    items.append({"id": f"F{len(items) + 1}", "property": prop, "status": "fixed", "commit": commit, "harness": "",
                  "label": "", "what": f"fixed: property={prop} {commit} {text}"})
    with open(PATH, "w", encoding="utf-8") as stream:
        stream.write('{"findings": [\n' + ",\n".join(" " + json.dumps(i) for i in items) + "\n]}\n")


if __name__ == "__main__":
    add(*sys.argv[1:4])
