"""The environment a harness runs in: symbolic or concrete.

A harness is a plain function harness(env, **params).  It asks env for inputs,
runs the real code and an independent reference, and calls env.check(label,
got, expected).  Run symbolically, every check is a solver query over all
inputs of the path; run concretely it is the replay of one input.
"""

import uuid


class AssumptionFailed(Exception):
    """Concrete mode: the input lies outside the stated bounds."""


class KnownFinding(Exception):
    """Concrete mode: the input is covered by a listed known finding."""


def canon(value, depth=0):
    """A JSON-able canonical form, type-strict, for comparing runs."""
    if value is None or isinstance(value, (bool, str)):
        return value
    if isinstance(value, int):
        return {"int": str(value)}
    if isinstance(value, float):
        return {"float": value.hex()}
    if isinstance(value, bytearray):
        return {"bytearray": bytes(value).hex()}
    if isinstance(value, (bytes, memoryview)):
        return {"bytes": bytes(value).hex()}
    if isinstance(value, tuple):
        return {"tuple": [canon(x, depth + 1) for x in value]}
    if isinstance(value, list):
        return [canon(x, depth + 1) for x in value]
    if isinstance(value, dict):
        return {"dict": [[canon(k), canon(v)] for k, v in value.items()]}
    if isinstance(value, (set, frozenset)):
        return {"set": sorted(repr(canon(x)) for x in value)}
    if isinstance(value, uuid.UUID):
        return {"uuid": str(value)}
    return {"object": type(value).__name__}


def concrete_equal(a, b):
    return canon(a) == canon(b)


def excerpt(got, expected):
    """Two texts around their first difference."""
    same = 0
    for one, other in zip(got, expected):
        if one != other:
            break
        same += 1
    start = max(0, same - 120)
    lead = "..." if start else ""
    return (lead + got[start:start + 400], lead + expected[start:start + 400])


class ConcreteEnv:
    """Inputs come from a recorded assignment."""

    symbolic = False

    def __init__(self, inputs, known=()):
        self.inputs = inputs
        self.records = []
        self.mismatches = []
        self.reached = []
        self._known = set(known)

    def bytes(self, name, size):
        value = self.inputs.get(name)
        if value is None:
            return b"\x00" * size
        value = bytes.fromhex(value)
        return value

    def byte(self, name):
        return int(self.inputs.get(name, 0))

    def int(self, name, lo, hi):
        value = int(self.inputs.get(name, lo))
        if not lo <= value <= hi:
            raise AssumptionFailed()
        return value

    def choose(self, value):
        return value

    def pick(self, name, options):
        return options[self.int(name, 0, len(options) - 1)]

    def assume(self, condition):
        if not condition:
            raise AssumptionFailed()

    def known(self, identifier, condition):
        if identifier in self._known and condition:
            raise KnownFinding(identifier)

    def reach(self, label):
        self.reached.append(label)

    def all(self, conditions):
        return all(conditions)

    def any(self, conditions):
        return any(conditions)

    def ite(self, condition, a, b):
        return a if condition else b

    def check(self, label, got, expected):
        self.records.append((label, canon(got)))
        if not concrete_equal(got, expected):
            got, expected = excerpt(repr(got), repr(expected))
            self.mismatches.append({
                "label": label, "got": got, "expected": expected})
