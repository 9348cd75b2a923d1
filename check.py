#!/opt/venv/bin/python
"""Decides one property: explores its cases and writes its evidence.

usage: check.py PROPERTY [--tier quick|thorough] [--case SUBSTRING]
       [--trace] [--all] [--verbose] [--replay FILE]
"""

import argparse
import importlib
import json
import multiprocessing
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
PYTHON = "/opt/venv/bin/python"
TOOLS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def load_known(property_id):
    """Identifiers of the listed known findings of a property."""
    path = os.path.join(HERE, "known-findings.json")
    if not os.path.exists(path):
        return {}
    with open(path, encoding="utf-8") as file_object:
        data = json.load(file_object)
    return {entry["id"]: entry for entry in data.get("known", [])
            if entry["property"] == property_id}


def setup(repo):
    sys.dont_write_bytecode = True
    sys.setrecursionlimit(20000)
    sys.path[:] = [p for p in sys.path if os.path.abspath(p or ".") != HERE]
    sys.path.insert(0, HERE)
    sys.path.append(TOOLS)
    import warnings
    warnings.simplefilter("ignore")
    from dtsym import instrument
    from dtsym import runtime
    import dtfabric
    runtime.install()
    base = os.path.dirname(dtfabric.__file__)
    instrument.install([
        ("dtformats", os.path.join(repo, "dtformats")),
        ("scripts", os.path.join(repo, "scripts")),
        ("dtfabric.runtime", os.path.join(base, "runtime")),
        ("props", os.path.join(HERE, "props"))])
    from dtsym import stubs  # pylint: disable=unused-import


def _child(connection, module_name, case, deadline, known, options):
    from dtsym import worker
    try:
        result = worker.run_case(module_name, case, deadline, known, options)
    except BaseException:  # pylint: disable=broad-except
        result = {"case": case.name, "crash": traceback.format_exc()[-3000:]}
    connection.send(result)
    connection.close()


def run_cases(module_name, cases, deadline, known, options, jobs, verbose):
    context = multiprocessing.get_context("fork")
    waiting = sorted(cases, key=lambda c: -c.weight)
    running = []
    results = []
    stop = False
    while (waiting or running) and not stop:
        while waiting and len(running) < jobs and time.time() < deadline:
            case = waiting.pop(0)
            receiver, sender = context.Pipe(False)
            process = context.Process(
                target=_child, args=(sender, module_name, case, deadline,
                                     known, options))
            process.start()
            sender.close()
            running.append((process, receiver, case))
        if not running:
            break
        multiprocessing.connection.wait(
            [r for _, r, _ in running], timeout=5)
        still = []
        for process, receiver, case in running:
            finished = False
            result = None
            if receiver.poll():
                try:
                    result = receiver.recv()
                except EOFError:
                    result = {"case": case.name, "crash": "worker died"}
                finished = True
            elif not process.is_alive():
                result = {"case": case.name, "crash": "worker died"}
                finished = True
            elif time.time() > deadline + 45:
                process.kill()
                result = {"case": case.name, "crash": "worker stuck"}
                finished = True
            if finished:
                process.join(5)
                results.append(result)
                if verbose:
                    show(result)
                if result.get("violations") and not options.get("all"):
                    stop = True
            else:
                still.append((process, receiver, case))
        running = still
    for process, _, _ in running:
        process.kill()
        process.join()
    for case in waiting:
        results.append({"case": case.name, "crash": "not started: "
                        + ("stopped" if stop else "time budget used")})
    return results


def show(result):
    if "crash" in result:
        print("   ", result["case"], "CRASH", result["crash"], flush=True)
        return
    print(f"    {result['case']}: paths={result['paths']} "
          f"done={result['completed_paths']} abort={result['aborted']} "
          f"proved={result['checks_proved']} q={result['queries']} "
          f"solver={result['solver_s']}s wall={result['wall_s']}s "
          f"replay={result['replay_s']}s exh={result['exhausted']} "
          f"inc={result['inconclusive']}", flush=True)
    for item in result["encoding_mismatches"]:
        print("      MISMATCH", json.dumps(item)[:6000], flush=True)
    for item in result["harness_errors"]:
        print("      HARNESS", item, flush=True)


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument("property")
    parser.add_argument("--tier", default=os.environ.get(
        "VERIF_TIER", "quick"))
    parser.add_argument("--case")
    parser.add_argument("--trace", action="store_true")
    parser.add_argument("--all", action="store_true")
    parser.add_argument("--verbose", action="store_true")
    parser.add_argument("--list", action="store_true")
    parser.add_argument("--replay")
    parser.add_argument("--budget", type=float)
    parser.add_argument("--jobs", type=int, default=os.cpu_count() or 4)
    args = parser.parse_args()
    started = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    repo = os.environ.get("DTSYM_REPO", "/repo")

    if args.replay:
        return replay(args, repo)

    budget = args.budget or (500 if args.tier == "quick" else 780)
    known = load_known(args.property)
    try:
        setup(repo)
        index = importlib.import_module("props.index")
        module_name = index.MODULES[args.property]
        module = importlib.import_module(module_name)
        cases = module.cases(args.property)
    except Exception:  # pylint: disable=broad-except
        # The harness does not fit the tree: nothing can be said.
        print(f"INCONCLUSIVE property={args.property} harness not loadable")
        traceback.print_exc()
        write_evidence(args, seed, started, [], repo, [], "harness not loadable")
        return 0
    cases = [c for c in cases if args.tier == "thorough" or c.tier == "quick"]
    if args.case:
        cases = [c for c in cases if args.case in c.name]
    if args.list:
        for case in cases:
            print(case.name, case.bounds)
        return 0
    options = {"trace": args.trace, "all": args.all}
    results = run_cases(module_name, cases, started + budget, sorted(known),
                        options, args.jobs, args.verbose)
    return report(args, seed, started, results, repo, cases, known)


def replay(args, repo):
    sys.path.insert(0, HERE)
    with open(args.replay, encoding="utf-8") as file_object:
        item = json.load(file_object)
    os.environ["DTSYM_REPO"] = repo
    sys.path.append(TOOLS)
    from dtsym import worker
    replayer = worker.Replayer()
    answer = replayer.run(item["module"], item["case"], item["inputs"],
                          sorted(load_known(item["property"])), 60)
    replayer.close()
    print(json.dumps(answer, indent=1)[:20000])
    return 1 if answer["mismatches"] or answer["status"] == "timeout" else 0


def report(args, seed, started, results, repo, cases, known):
    violations = []
    hits = set()
    for result in results:
        violations.extend(result.get("violations", ()))
        hits.update(result.get("known_hits", ()))
    for identifier in sorted(hits):
        entry = known.get(identifier, {})
        print(f"KNOWN-FINDING: property={args.property} "
              f"{entry.get('what', identifier)}")
    inconclusive = {}
    incomplete = []
    for result in results:
        if "crash" in result:
            incomplete.append(f"{result['case']}: {result['crash'][-200:]}")
            continue
        for reason, count in result["inconclusive"].items():
            inconclusive[reason] = inconclusive.get(reason, 0) + count
        if not result["exhausted"] and not result["violations"]:
            incomplete.append(f"{result['case']}: not exhausted")
    replays = []
    for number, item in enumerate(violations[:10]):
        directory = os.path.join(HERE, "evidence")
        os.makedirs(directory, exist_ok=True)
        path = os.path.join(
            directory, f"replay-{args.property}-{number}.json")
        item["property"] = args.property
        with open(path, "w", encoding="utf-8") as file_object:
            json.dump(item, file_object, indent=1)
        replays.append(path)
    write_evidence(args, seed, started, results, repo, violations, None)
    paths = sum(r.get("paths", 0) for r in results)
    queries = sum(r.get("queries", 0) for r in results)
    solver = sum(r.get("solver_s", 0) for r in results)
    proved = sum(r.get("checks_proved", 0) for r in results)
    print(f"property={args.property} tier={args.tier} cases={len(results)} "
          f"paths={paths} assertions_proved={proved} queries={queries} "
          f"solver={solver:.1f}s wall={time.time() - started:.1f}s")
    if inconclusive:
        print(f"inconclusive paths: {json.dumps(inconclusive)}")
    if incomplete:
        print("not fully explored: " + "; ".join(incomplete[:10]))
    if violations:
        for item, path in zip(violations, replays):
            print(f"VIOLATION property={args.property} replay={path}")
            print(f"  case {item['case']} [{item['how']}] {item['label']}: "
                  f"{item['status']} {json.dumps(item['mismatches'][:3])[:4000]}")
        return 1
    return 0


def write_evidence(args, seed, started, results, repo, violations, problem):
    functions = set()
    for result in results:
        functions.update(result.get("functions", ()))
    functions = sorted(f for f in functions if f.startswith("dtformats."))
    good = [r for r in results if "crash" not in r]
    samples = []
    for result in good:
        for sample in result["samples"][:1]:
            samples.append({"case": result["case"], **sample})
    inconclusive = {}
    for result in good:
        for reason, count in result["inconclusive"].items():
            inconclusive[reason] = inconclusive.get(reason, 0) + count
    coverage = {
        "states": sum(r["paths"] for r in good),
        "transitions": sum(r["decisions"] for r in good),
        "traces_validated_against_impl": sum(r["replays"] for r in good),
        "samples": samples[:12],
        "explanation": (
            "states = feasible path-condition classes of the real code "
            "explored symbolically; transitions = branch decisions made by "
            "the solver; every path also ran concretely on the unmodified "
            "code with a model of its path condition"),
        "assertions_proved_for_all_inputs_of_their_path": sum(
            r["checks_proved"] for r in good),
        "solver_queries": sum(r["queries"] for r in good),
        "solver_seconds": round(sum(r["solver_s"] for r in good), 3),
        "functions_encoded": functions,
        "functions_encoded_count": len(functions),
        "exhaustive": bool(good) and all(
            r["exhausted"] and not r["inconclusive"] for r in good)
            and len(good) == len(results),
        "cases": [{
            "case": r["case"], "bounds": r["bounds"], "paths": r["paths"],
            "assertions_proved": r["checks_proved"],
            "outside_assumptions": r["aborted"], "queries": r["queries"],
            "solver_s": r["solver_s"], "wall_s": r["wall_s"],
            "exhausted": r["exhausted"], "inconclusive": r["inconclusive"],
            "reached": r["reached"]} for r in good],
        "inconclusive_paths": inconclusive,
        "spurious_counterexamples": sum(r["spurious"] for r in good),
        "encoding_mismatches": [m for r in good
                                for m in r["encoding_mismatches"]][:5],
        "harness_errors": [m for r in good for m in r["harness_errors"]][:5],
        "not_run": [r for r in results if "crash" in r],
    }
    if problem:
        coverage["problem"] = problem
    evidence = {
        "property": args.property,
        "tier": args.tier if args.tier in ("quick", "thorough") else "quick",
        "seed": seed, "level": "model_checking", "coverage": coverage,
        "assumptions": [
            "bounds of each case are listed under coverage.cases",
            "CPython executes arithmetic, control flow and attribute access; "
            "models of builtins in dtsym/runtime.py are exact or refuse",
            "dfdatetime and datetime renderings are uninterpreted functions "
            "of the timestamp",
            "z3 is trusted"],
        "wall_s": round(time.time() - started, 3),
        "violations": len(violations)}
    directory = os.path.join(HERE, "evidence")
    os.makedirs(directory, exist_ok=True)
    with open(os.path.join(directory, f"{args.property}.json"), "w",
              encoding="utf-8") as file_object:
        json.dump(evidence, file_object, indent=1)


if __name__ == "__main__":
    if os.path.realpath(sys.executable) and sys.prefix != "/opt/venv":
        os.execv(PYTHON, [PYTHON, os.path.abspath(__file__)] + sys.argv[1:])
    sys.exit(main())
