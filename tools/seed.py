#!/usr/bin/env python3
"""Makes a planted bug: seed.py SPEC.py

SPEC.py defines ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new), ...]
and DEMO (Python source run with cwd /repo). It is confirmed in a scratch copy
and kept in seeded/ID. seed.py --check [ID ...] runs the checks against kept
ones and records the result in tools/caught.json.
"""

import json
import os
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH = "/tmp/seed_scratch"
PYTHON = "/opt/venv/bin/python"


def run(command, **kwargs):
    return subprocess.run(command, capture_output=True, text=True,
                          check=False, **kwargs)


def make(path):
    spec = {}
    exec(open(path, encoding="utf-8").read(), spec)
    if os.path.exists(SCRATCH):
        shutil.rmtree(SCRATCH)
    run(["cp", "-a", "/repo", SCRATCH])
    folder = os.path.join(ROOT, "seeded", spec["ID"])
    os.makedirs(folder, exist_ok=True)
    with open(os.path.join(folder, "demo.py"), "w",
              encoding="utf-8") as file_object:
        file_object.write(spec["DEMO"].strip() + "\n")
    with open(os.path.join(folder, "demo.sh"), "w",
              encoding="utf-8") as file_object:
        file_object.write(
            '#!/bin/sh\nPYTHONPATH=. exec /opt/venv/bin/python '
            '"$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(folder, "demo.sh"), 0o755)
    demo = ["sh", os.path.join(folder, "demo.sh")]
    clean = run(demo, cwd=SCRATCH)
    for name, old, new in spec["EDITS"]:
        target = os.path.join(SCRATCH, name)
        with open(target, encoding="utf-8") as file_object:
            text = file_object.read()
        if text.count(old) != 1:
            raise SystemExit(f"{name}: {text.count(old)} matches of {old!r}")
        with open(target, "w", encoding="utf-8") as file_object:
            file_object.write(text.replace(old, new))
    broken = run(demo, cwd=SCRATCH)
    tests = run([PYTHON, "-m", "pytest", "-q", "-x", "tests", "-p",
                 "no:cacheprovider", "-o", "python_files=*.py"], cwd=SCRATCH,
                env=dict(os.environ, PYTHONPATH=SCRATCH))
    diff = run(["git", "-C", SCRATCH, "diff"]).stdout
    good = clean.returncode == 0 and broken.returncode != 0
    summary = tests.stdout.strip().splitlines()[-1:]
    print(spec["ID"], "demo clean", clean.returncode, "broken",
          broken.returncode, "tests", summary)
    if not good or "213 passed" not in tests.stdout or not diff:
        print(clean.stdout, clean.stderr[-1500:], broken.stdout)
        print(tests.stdout[-1500:])
        shutil.rmtree(folder)
        shutil.rmtree(SCRATCH)
        return False
    with open(os.path.join(folder, "patch.diff"), "w",
              encoding="utf-8") as file_object:
        file_object.write(diff)
    with open(os.path.join(folder, "meta.json"), "w",
              encoding="utf-8") as file_object:
        json.dump({"property": spec["PROPERTY"], "needs": spec["NEEDS"],
                   "what_it_breaks": spec["BREAKS"]}, file_object, indent=1)
        file_object.write("\n")
    shutil.rmtree(SCRATCH)
    return True


def check(names):
    results = os.path.join(ROOT, "tools", "caught.json")
    caught = {}
    if os.path.exists(results):
        with open(results, encoding="utf-8") as file_object:
            caught = json.load(file_object)
    for name in names or sorted(os.listdir(os.path.join(ROOT, "seeded"))):
        folder = os.path.join(ROOT, "seeded", name)
        with open(os.path.join(folder, "meta.json"),
                  encoding="utf-8") as file_object:
            owner = json.load(file_object)["property"]
        patch = os.path.join(folder, "patch.diff")
        applied = run(["git", "-C", "/repo", "apply", patch])
        if applied.returncode:
            print(name, "does not apply", applied.stderr)
            continue
        try:
            answer = run(["./check.py", owner], cwd=ROOT)
        finally:
            run(["git", "-C", "/repo", "checkout", "--", "."])
        hit = [line for line in answer.stdout.splitlines()
               if line.startswith(f"VIOLATION property={owner} ")]
        caught[name] = owner if answer.returncode == 1 and hit else "missed"
        print(name, owner, answer.returncode, caught[name], flush=True)
        if caught[name] == "missed":
            print(answer.stdout[-600:], answer.stderr[-300:])
    with open(results, "w", encoding="utf-8") as file_object:
        json.dump(caught, file_object, indent=1, sort_keys=True)
        file_object.write("\n")


if __name__ == "__main__":
    if sys.argv[1] == "--check":
        check(sys.argv[2:])
    else:
        sys.exit(0 if all([make(x) for x in sys.argv[1:]]) else 1)
