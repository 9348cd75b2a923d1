#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""

import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

INPUTS = ["inputs"]
P = []
NA = []


def prop(identifier, title, statement, quantifier, why, files, mechanism,
         note, over=INPUTS):
    P.append({
        "id": identifier, "title": title, "statement": statement,
        "quantifier": {"over": list(over), "text": quantifier},
        "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [
            {"name": mechanism, "where": files[0]}]},
        "_note": note})


def not_applicable(identifier, reason):
    NA.append({"property": identifier, "reason": reason})


def file_format(identifier, title, statement, files, mechanism, quantifier,
                tests, bounds, over=INPUTS):
    prop(identifier, title, statement, quantifier,
         f"A statement about every file of the format; {tests}",
         files, mechanism,
         "Every path of the reader within the bounds is explored symbolically "
         "and compared with an independently written decoder; the solver "
         "decides each comparison for all values. Bounds: " + bounds)


exec(open(os.path.join(ROOT, "tools", "table.py"), encoding="utf-8").read())


TECHNIQUE = ("symbolic execution of the real Python code (AST instrumented at "
             "import) with z3 deciding every branch and assertion; "
             "counterexamples replayed on the unmodified code")
TRUST = (" Trusted: the models of built-ins in dtsym (each explored path is "
         "replayed concretely on the uninstrumented code and has to give the "
         "same result), the reference decoder in props/, z3.")


def design():
    with open(os.path.join(ROOT, "tools", "design.md"),
              encoding="utf-8") as file_object:
        text = file_object.read()
    lines = []
    for item in P:
        lines.append(f"* **{item['id']} {item['title']}.** "
                     f"{item['_note']} Why tests do not settle it: "
                     f"{item['why_tests_cant']}\n")
    for item in NA:
        lines.append(f"* **{item['property']}** not applicable: "
                     f"{item['reason']}\n")
    text = text.replace("@@PROPERTIES@@", "".join(lines))
    rows = ["## Planted bugs\n\n| bug | property | needs | caught by |\n"
            "|---|---|---|---|\n"]
    try:
        with open(os.path.join(ROOT, "tools", "caught.json"),
                  encoding="utf-8") as file_object:
            caught = json.load(file_object)
    except FileNotFoundError:
        caught = {}
    folder = os.path.join(ROOT, "seeded")
    for name in sorted(os.listdir(folder)):
        path = os.path.join(folder, name, "meta.json")
        if os.path.exists(path):
            with open(path, encoding="utf-8") as file_object:
                meta = json.load(file_object)
            rows.append(f"| {name} | {meta['property']} | {meta['needs']} | "
                        f"{caught.get(name, 'not run')} |\n")
    text = text.replace("@@SEEDED@@", "".join(rows))
    with open(os.path.join(ROOT, "DESIGN.md"), "w",
              encoding="utf-8") as file_object:
        file_object.write(text)


def main():
    design()
    with open(os.path.join(ROOT, "properties.jsonl"), "w",
              encoding="utf-8") as file_object:
        for item in P:
            file_object.write(json.dumps(
                {k: v for k, v in item.items() if k[0] != "_"}) + "\n")
    skipped = {item["property"] for item in NA}
    manifest = {
        "version": 1,
        "setup_cmd": "./setup.sh",
        "checks": [{
            "property": item["id"],
            "quick_cmd": f"./check.py {item['id']}",
            "thorough_cmd": f"./check.py {item['id']} --tier thorough",
            "evidence_file": f"evidence/{item['id']}.json",
            "technique": TECHNIQUE,
            "level": "model_checking",
            "level_note": item["_note"] + TRUST,
        } for item in P if item["id"] not in skipped],
        "not_applicable": NA,
        "notes": "No hooks in /repo; the checks instrument the source at "
                 "import. Genuine defects repaired are 'fix:' commits listed "
                 "in known-findings.json."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w",
              encoding="utf-8") as file_object:
        json.dump(manifest, file_object, indent=1)
        file_object.write("\n")


if __name__ == "__main__":
    main()
