"""Explores one case: all paths of a harness, checks decided by the solver."""

import json
import os
import select
import signal
import subprocess
import sys
import time
import traceback

import z3

from dtsym import core
from dtsym import env as env_module
from dtsym import runtime

REPO = os.environ.get("DTSYM_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class CheckFailed(core.EngineSignal):

    def __init__(self, label, model, got, expected):
        super().__init__(label)
        self.label = label
        self.model = model
        self.got = got
        self.expected = expected


class SymEnv:
    """Inputs are symbolic variables."""

    symbolic = True

    def __init__(self, engine, known=(), hits=None):
        self.engine = engine
        self.variables = {}
        self.records = []
        self.reached = []
        self.proved = 0
        self._known = set(known)
        self._hits = hits if hits is not None else set()

    def bytes(self, name, size):
        items = tuple(core.new_byte(f"{name}[{i}]") for i in range(size))
        value = core.make_bytes(items)
        self.variables[name] = ("bytes", value)
        return value

    def byte(self, name):
        value = core.new_byte(name)
        self.variables[name] = ("int", value)
        return value

    def int(self, name, lo, hi):
        if lo == hi:
            return lo
        value = core.new_int(name, lo, hi)
        self.variables[name] = ("int", value)
        return value

    def choose(self, value):
        return self.engine.choose(value)

    def pick(self, name, options):
        if len(options) == 1:
            return options[0]
        return options[self.engine.choose(
            self.int(name, 0, len(options) - 1))]

    def assume(self, condition):
        if not isinstance(condition, (bool, core.SymBool)):
            condition = bool(condition)
        self.engine.assume(condition)

    def known(self, identifier, condition):
        if identifier in self._known and bool(condition):
            self._hits.add(identifier)
            raise core.PathAbort(f"known:{identifier}")

    def reach(self, label):
        self.reached.append(label)

    def all(self, conditions):
        return core.sym_and(list(conditions))

    def any(self, conditions):
        return core.sym_or(list(conditions))

    def ite(self, condition, a, b):
        if isinstance(condition, bool):
            return a if condition else b
        return core.ite_int(condition, a, b)

    def check(self, label, got, expected):
        self.records.append((label, got))
        condition = core.deep_eq(got, expected)
        model = self.engine.prove(condition)
        self.proved += 1
        if model is not None:
            raise CheckFailed(label, model, got, expected)

    def inputs(self, model):
        result = {}
        for name, (kind, value) in self.variables.items():
            concrete = core.concretise(value, model)
            result[name] = concrete.hex() if kind == "bytes" else concrete
        return result


class Replayer:
    """Talks to the pristine replay process."""

    def __init__(self):
        self.process = None
        self.count = 0
        self.time = 0.0

    def _start(self):
        environment = dict(os.environ)
        environment["PYTHONDONTWRITEBYTECODE"] = "1"
        self.process = subprocess.Popen(
            [sys.executable, "-m", "dtsym.pristine", REPO], cwd=HERE,
            stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            stderr=subprocess.DEVNULL, env=environment, text=True, bufsize=1)

    def run(self, module, case, inputs, known, timeout):
        if self.process is None or self.process.poll() is not None:
            self._start()
        self.count += 1
        start = time.time()
        try:
            self.process.stdin.write(json.dumps({
                "module": module, "case": case, "inputs": inputs,
                "known": list(known)}) + "\n")
            self.process.stdin.flush()
            ready, _, _ = select.select([self.process.stdout], [], [], timeout)
            if not ready:
                self.close()
                return {"status": "timeout", "records": [], "mismatches": [],
                        "detail": f"no result within {timeout} s"}
            line = self.process.stdout.readline()
            if not line:
                code = self.process.wait()
                self.process = None
                return {"status": "crash", "records": [], "mismatches": [],
                        "detail": f"replay process ended with {code}"}
            return json.loads(line)
        except (BrokenPipeError, json.JSONDecodeError) as exception:
            self.close()
            return {"status": "crash", "records": [], "mismatches": [],
                    "detail": str(exception)}
        finally:
            self.time += time.time() - start

    def close(self):
        if self.process is not None:
            self.process.kill()
            self.process.wait()
            self.process = None


def unexpected(answer):
    """Whether the real code raised where a harness expects no exception.

    Exceptions that can come from a name that the harness uses and that is no
    longer there are left out.
    """
    detail = answer.get("detail", "").rstrip()
    return (answer["status"] == "error"
            and f'File "{REPO}/dtformats/' in detail
            and not detail.rsplit("\n", 1)[-1].startswith((
                "AttributeError", "ImportError", "ModuleNotFoundError",
                "NameError", "TypeError")))


def run_case(module_name, case, deadline, known, options=None):
    """Explores a case; returns a JSON-able result."""
    options = options or {}
    started = time.time()
    # Never use more than the share of the time of this case.
    if case.budget:
        deadline = min(deadline, started + case.budget)
    engine = core.Engine(deadline=deadline,
                         max_ticks=case.max_ticks,
                         max_choose=case.max_choose,
                         timeout_ms=case.solver_timeout * 1000)
    core.ENGINE = engine
    core.PROFILE = {} if options.get("trace") else None
    replayer = Replayer()
    hits = set()
    result = {
        "case": case.name, "bounds": case.bounds, "paths": 0,
        "completed_paths": 0, "aborted": 0, "checks_proved": 0,
        "inconclusive": {}, "spurious": 0, "encoding_mismatches": [],
        "violations": [], "exhausted": False, "reached": {}, "samples": [],
        "harness_errors": [], "replays": 0,
    }
    runtime.FUNCTIONS.clear()

    def inconclusive(reason):
        result["inconclusive"][reason] = \
            result["inconclusive"].get(reason, 0) + 1

    def replay(inputs, timeout=case.replay_timeout):
        return replayer.run(module_name, case.name, inputs, known, timeout)

    def violation(inputs, label, answer, how):
        result["violations"].append({
            "case": case.name, "module": module_name, "label": label,
            "inputs": inputs, "how": how,
            "status": answer["status"], "detail": answer.get("detail", ""),
            "mismatches": answer["mismatches"][:5]})

    def confirm(inputs, label, how):
        """Replays a candidate on the real code; True when it is real."""
        answer = replay(inputs)
        if answer["status"] == "timeout":
            answer = replay(inputs, case.replay_timeout * 2)
            if answer["status"] == "timeout":
                violation(inputs, label, answer, how + " (no termination)")
                return True
        if answer["mismatches"]:
            violation(inputs, label, answer, how)
            return True
        if unexpected(answer):
            violation(inputs, label, answer, how + " (unexpected exception)")
            return True
        return answer

    while True:
        engine.start_path()
        runtime.reset_path()
        core.HASH_ALLOWED[0] = False
        env = SymEnv(engine, known, hits)
        outcome = "complete"
        failed = None
        try:
            case.function(env, **case.params)
        except CheckFailed as exception:
            failed = exception
            outcome = "failed"
        except core.PathAbort:
            outcome = "aborted"
        except core.Deadline:
            inconclusive("deadline")
            break
        except core.PathLimit as exception:
            outcome = f"limit: {exception}"
        except core.Unsupported as exception:
            outcome = f"unsupported: {exception}"
            if options.get("trace"):
                traceback.print_exc()
        except core.SolverUnknown as exception:
            outcome = f"solver: {exception}"
        except RecursionError:
            outcome = "unsupported: recursion"
        except env_module.AssumptionFailed:
            outcome = "aborted"
        except Exception:  # pylint: disable=broad-except
            outcome = "harness error"
            if len(result["harness_errors"]) < 3:
                result["harness_errors"].append(
                    traceback.format_exc()[-2500:])
        result["paths"] += 1
        result["checks_proved"] += env.proved - (1 if failed else 0)
        try:
            if outcome == "failed":
                inputs = env.inputs(failed.model)
                answer = confirm(inputs, failed.label, "solver counterexample")
                if answer is not True:
                    result["spurious"] += 1
                    inconclusive("counterexample not reproduced")
                    if len(result["encoding_mismatches"]) < 3:
                        result["encoding_mismatches"].append({
                            "label": failed.label, "inputs": inputs,
                            "got": _show(failed.got, failed.model),
                            "expected": _show(failed.expected, failed.model),
                            "answer": {k: answer[k] for k in (
                                "status", "detail")},
                            "records": answer["records"][-2:]})
            elif outcome == "aborted":
                result["aborted"] += 1
            else:
                model = engine.current_model()
                inputs = env.inputs(model)
                if outcome != "complete":
                    inconclusive(outcome)
                else:
                    result["completed_paths"] += 1
                    for label in env.reached:
                        result["reached"][label] = \
                            result["reached"].get(label, 0) + 1
                answer = confirm(inputs, "witness", "path witness")
                if answer is not True:
                    if outcome == "complete":
                        expected = [[label, env_module.canon(
                            core.concretise(got, model))]
                            for label, got in env.records]
                        if answer["status"] != "ok" or \
                                answer["records"] != expected:
                            inconclusive("encoding mismatch")
                            if len(result["encoding_mismatches"]) < 3:
                                result["encoding_mismatches"].append({
                                    "inputs": inputs,
                                    "symbolic": _short(expected),
                                    "concrete": _short(answer["records"]),
                                    "status": answer["status"],
                                    "detail": answer.get("detail", "")})
                    if len(result["samples"]) < 3:
                        result["samples"].append({
                            "inputs": _short(inputs), "outcome": outcome,
                            "records": _short(answer["records"])})
        except core.Deadline:
            inconclusive("deadline")
            break
        except core.EngineSignal as exception:
            inconclusive(f"finish: {exception}")
        except Exception:  # pylint: disable=broad-except
            inconclusive("finish error")
            if len(result["harness_errors"]) < 3:
                result["harness_errors"].append(
                    traceback.format_exc()[-2500:])
        if result["violations"] and not options.get("all"):
            break
        if case.max_paths and result["paths"] >= case.max_paths:
            inconclusive("path bound")
            break
        if time.time() > deadline:
            inconclusive("deadline")
            break
        if not engine.backtrack():
            result["exhausted"] = True
            break
    replayer.close()
    core.ENGINE = None
    for key, count in sorted((core.PROFILE or {}).items(),
                             key=lambda x: -x[1])[:12]:
        print(f"  {count} {key}", file=sys.stderr)
    result.update({
        "wall_s": round(time.time() - started, 3),
        "queries": engine.queries,
        "solver_s": round(engine.solver_time, 3),
        "decisions": engine.decisions, "replays": replayer.count,
        "replay_s": round(replayer.time, 3),
        "known_hits": sorted(hits),
        "functions": sorted(runtime.FUNCTIONS)})
    return result


def _show(value, model):
    try:
        return repr(core.concretise(value, model))[:1500]
    except BaseException as exception:  # pylint: disable=broad-except
        return f"<{exception!r}>"


def _short(value, limit=600):
    text = json.dumps(value)
    return text if len(text) <= limit else text[:limit] + "..."
