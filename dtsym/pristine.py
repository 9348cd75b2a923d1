"""Replay server: runs harnesses concretely on the unmodified code of /repo.

Reads JSON lines {"module", "case", "inputs", "known"} and answers with JSON
lines {"records", "mismatches", "status"}.
"""

import contextlib
import ctypes
import importlib
import io
import json
import os
import resource
import signal
import sys
import traceback


def contain():
    """Ends this process with its parent and limits its memory."""
    try:
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)  # PR_SET_PDEATHSIG
    except (AttributeError, OSError):
        pass
    limit = 6 << 30
    resource.setrlimit(resource.RLIMIT_AS, (limit, limit))


def main():
    contain()
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    repo = sys.argv[1]
    sys.dont_write_bytecode = True
    sys.path.insert(0, here)
    sys.path.insert(0, repo)
    sys.setrecursionlimit(3000)
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    import warnings
    warnings.simplefilter("ignore")
    from dtsym import env as env_module
    for line in sys.stdin:
        request = json.loads(line)
        env = env_module.ConcreteEnv(request["inputs"],
                                     request.get("known", ()))
        status = "ok"
        detail = ""
        try:
            module = importlib.import_module(request["module"])
            case = module.find_case(request["case"])
            with contextlib.redirect_stdout(io.StringIO()):
                case.function(env, **case.params)
        except env_module.AssumptionFailed:
            status = "assumption"
        except env_module.KnownFinding as exception:
            status = f"known:{exception}"
        except Exception as exception:  # pylint: disable=broad-except
            status = "error"
            detail = traceback.format_exc()[-3000:]
        out.write(json.dumps({
            "status": status, "detail": detail, "records": env.records,
            "mismatches": env.mismatches, "reached": env.reached}) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
