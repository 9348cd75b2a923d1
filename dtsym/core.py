"""Symbolic values and the path-exploring engine.

Python integers are mathematical; a SymInt is a z3 bit-vector whose width is
always large enough for the interval [lo, hi] its value lies in, so no
operation ever wraps: the encoding is exact.  Byte strings have a concrete
length and symbolic bytes; text is a rope of concrete chunks, symbolic
characters and atoms (renderings of symbolic values).  Whenever Python needs a
truth value of something symbolic the engine forks; the feasible sides are
found with the solver and the program is re-executed for the other side.
"""

import re
import sys
import time

import z3


class EngineSignal(BaseException):
    """Base of the signals that steer the engine (never caught by user code)."""


class Unsupported(EngineSignal):
    """The code under analysis did something the encoding does not model."""


class PathAbort(EngineSignal):
    """The current path is outside the stated assumptions."""


class PathLimit(EngineSignal):
    """The current path exceeded a bound."""


class SolverUnknown(EngineSignal):
    """The solver gave no answer."""


class Deadline(EngineSignal):
    """The time for this exploration is used up."""


ENGINE = None

# Number of forks by the place of the code that caused them (for development).
PROFILE = None


def profile_fork():
    frame = sys._getframe(2)
    places = []
    while frame is not None and len(places) < 4:
        name = frame.f_code.co_filename
        if "/dtsym/" not in name:
            places.append(f"{name.rsplit('/', 1)[-1]}:{frame.f_lineno}"
                          f"({frame.f_code.co_name})")
        frame = frame.f_back
    key = " < ".join(places)
    PROFILE[key] = PROFILE.get(key, 0) + 1


def width_for(lo, hi):
    if lo >= 0:
        return max(1, hi.bit_length())
    return max(hi.bit_length() if hi > 0 else 0, (-lo - 1).bit_length()) + 1


# --------------------------------------------------------------------------
# Engine
# --------------------------------------------------------------------------


class Decision:
    __slots__ = ("cond", "taken", "pending", "forced", "other_model")

    def __init__(self, cond, taken, pending, forced, other_model):
        self.cond = cond
        self.taken = taken
        self.pending = pending
        self.forced = forced
        self.other_model = other_model


class Engine:
    """Depth-first exploration of all feasible paths by re-execution."""

    def __init__(self, timeout_ms=120000, deadline=None, max_decisions=200000,
                 max_choose=5000, max_ticks=400000):
        self.solver = z3.Solver()
        self.solver.set("timeout", timeout_ms)
        self.trail = []
        self.levels = 0
        self.index = 0
        self.model = None
        self.deadline = deadline
        self.max_decisions = max_decisions
        self.max_choose = max_choose
        self.max_ticks = max_ticks
        self.ticks = 0
        self.queries = 0
        self.solver_time = 0.0
        self.decisions = 0
        self.var_count = 0
        self.path_assumptions = []

    # -- solver ---------------------------------------------------------

    def _check(self, *assumptions):
        if self.deadline is not None and time.time() > self.deadline:
            raise Deadline()
        start = time.time()
        result = self.solver.check(*assumptions)
        self.solver_time += time.time() - start
        self.queries += 1
        if result == z3.unknown:
            raise SolverUnknown(self.solver.reason_unknown())
        return result == z3.sat

    def _push(self, cond):
        self.solver.push()
        self.levels += 1
        self.solver.add(cond)

    # -- branching --------------------------------------------------------

    def branch(self, cond):
        """Decides a symbolic condition, forking when both sides are feasible."""
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        index = self.index
        self.index += 1
        if index < len(self.trail):
            decision = self.trail[index]
            if not decision.cond.eq(cond):
                raise Unsupported("non-deterministic re-execution")
            return decision.taken
        if index > self.max_decisions:
            raise PathLimit("decisions")
        self.decisions += 1
        if self.model is None:
            if not self._check():
                raise PathAbort("infeasible")
            self.model = self.solver.model()
        value = z3.is_true(self.model.eval(cond, model_completion=True))
        here = cond if value else z3.Not(cond)
        other = z3.Not(cond) if value else cond
        self.solver.push()
        try:
            self.solver.add(other)
            feasible = self._check()
            other_model = self.solver.model() if feasible else None
        finally:
            self.solver.pop()
        if feasible:
            if PROFILE is not None:
                profile_fork()
            self.trail.append(Decision(cond, value, True, False, other_model))
            self._push(here)
        else:
            self.trail.append(Decision(cond, value, False, True, None))
        return value

    def assume(self, cond):
        """Restricts the current path; an infeasible assumption ends the path."""
        if isinstance(cond, SymBool):
            cond = cond.t
        elif isinstance(cond, bool):
            if not cond:
                raise PathAbort("assumption")
            return
        index = self.index
        self.index += 1
        if index < len(self.trail):
            decision = self.trail[index]
            if not decision.cond.eq(cond):
                raise Unsupported("non-deterministic re-execution")
            return
        self.decisions += 1
        self.trail.append(Decision(cond, True, False, False, None))
        self._push(cond)
        if self.model is not None and z3.is_true(
                self.model.eval(cond, model_completion=True)):
            return
        if not self._check():
            raise PathAbort("assumption")
        self.model = self.solver.model()

    def prove(self, cond):
        """Returns None if cond holds for all values on the path, else a model."""
        if isinstance(cond, SymBool):
            cond = cond.t
        if isinstance(cond, bool):
            cond = z3.BoolVal(cond)
        if z3.is_true(cond):
            return None
        self.solver.push()
        try:
            self.solver.add(z3.Not(cond))
            if self._check():
                return self.solver.model()
            return None
        finally:
            self.solver.pop()

    def current_model(self):
        if self.model is None:
            if not self._check():
                raise PathAbort("infeasible")
            self.model = self.solver.model()
        return self.model

    def choose(self, value):
        """Concretises a symbolic integer by forking over all feasible values."""
        if isinstance(value, int):
            return value
        if isinstance(value, SymBool):
            return int(bool(value))
        count = 0
        while True:
            # The candidate has to be a function of the trail only, because the
            # program is re-executed: take it from the recorded decision.
            if self.index < len(self.trail):
                cond = self.trail[self.index].cond
                candidate = self._candidate(value, cond)
            else:
                candidate = evaluate_int(value, self.current_model())
            if self.branch(eq_int(value, candidate)):
                return candidate
            count += 1
            if count > self.max_choose:
                raise PathLimit("choose")

    def _candidate(self, value, cond):
        key = (value.t.get_id(), cond.get_id())
        cached = self._cand_cache.get(key)
        if cached is not None:
            return cached[0]
        # cond is value == constant; find the constant.
        args = cond.children()
        for arg in args:
            if z3.is_bv_value(arg):
                number = (arg.as_signed_long() if value.lo < 0 else arg.as_long())
                self._cand_cache[key] = (number, cond, value.t)
                return number
        raise Unsupported("non-deterministic re-execution (choose)")

    _cand_cache = {}

    def tick(self):
        self.ticks += 1
        if self.ticks > self.max_ticks:
            raise PathLimit("steps")
        if self.ticks % 256 == 0 and self.deadline is not None:
            if time.time() > self.deadline:
                raise Deadline()

    # -- exploration --------------------------------------------------------

    def start_path(self):
        self.index = 0
        self.ticks = 0
        EXACT.clear()

    def backtrack(self):
        """Moves to the next unexplored path; False when all are explored."""
        while self.trail:
            decision = self.trail[-1]
            if decision.pending:
                self.solver.pop()
                self.levels -= 1
                decision.taken = not decision.taken
                decision.pending = False
                self._push(decision.cond if decision.taken
                           else z3.Not(decision.cond))
                self.model = decision.other_model
                decision.other_model = None
                return True
            self.trail.pop()
            if not decision.forced:
                self.solver.pop()
                self.levels -= 1
        return False


# --------------------------------------------------------------------------
# Booleans
# --------------------------------------------------------------------------


class SymBool:
    __slots__ = ("t",)

    def __getattr__(self, name):
        if hasattr(bool, name):
            raise Unsupported(f"bool.{name} of a symbolic value")
        raise AttributeError(
            f"'bool' object has no attribute '{name}'")

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return ENGINE.branch(self.t)

    def __hash__(self):
        raise Unsupported("hash of symbolic bool")

    def _num(self):
        return make_int(z3.If(self.t, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)),
                        0, 1)

    def __eq__(self, other):
        if isinstance(other, SymBool):
            return make_bool(self.t == other.t)
        if isinstance(other, bool):
            return self if other else make_bool(z3.Not(self.t))
        if isinstance(other, (int, SymInt)):
            return self._num() == other
        return False

    def __ne__(self, other):
        return sym_not(self.__eq__(other))

    def __and__(self, other):
        if isinstance(other, (bool, SymBool)):
            return make_bool(z3.And(self.t, bool_term(other)))
        return self._num() & other

    __rand__ = __and__

    def __or__(self, other):
        if isinstance(other, (bool, SymBool)):
            return make_bool(z3.Or(self.t, bool_term(other)))
        return self._num() | other

    __ror__ = __or__

    def __invert__(self):
        return ~self._num()

    def __add__(self, other):
        return self._num() + other

    __radd__ = __add__

    def __mul__(self, other):
        return self._num() * other

    __rmul__ = __mul__

    def __lshift__(self, other):
        return self._num() << other

    def __index__(self):
        return int(bool(self))

    def __format__(self, spec):
        raise Unsupported("native format of symbolic bool")


def bool_term(value):
    if isinstance(value, SymBool):
        return value.t
    return z3.BoolVal(bool(value))


def make_bool(t):
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


def sym_not(value):
    if isinstance(value, SymBool):
        return make_bool(z3.Not(value.t))
    if value is NotImplemented:
        return value
    return not value


def sym_and(values):
    terms = []
    for value in values:
        if isinstance(value, SymBool):
            terms.append(value.t)
        elif not value:
            return False
    if not terms:
        return True
    if len(terms) == 1:
        return SymBool(terms[0])
    return SymBool(z3.And(*terms))


def sym_or(values):
    terms = []
    for value in values:
        if isinstance(value, SymBool):
            terms.append(value.t)
        elif value:
            return True
    if not terms:
        return False
    if len(terms) == 1:
        return SymBool(terms[0])
    return SymBool(z3.Or(*terms))


# --------------------------------------------------------------------------
# Integers
# --------------------------------------------------------------------------


def fit(value, width):
    """The value as a bit-vector term of the given width (two's complement)."""
    if isinstance(value, int):
        return z3.BitVecVal(value, width)
    size = value.t.size()
    if size == width:
        return value.t
    if size > width:
        return z3.Extract(width - 1, 0, value.t)
    if value.lo < 0:
        return z3.SignExt(width - size, value.t)
    return z3.ZeroExt(width - size, value.t)


def make_int(t, lo, hi):
    if lo == hi:
        return lo
    if z3.is_bv_value(t):
        return t.as_signed_long() if lo < 0 else t.as_long()
    value = SymInt(t, lo, hi)
    width = width_for(lo, hi)
    if t.size() != width:
        value.t = fit(value, width)
    return value


def bounds(value):
    if isinstance(value, int):
        return value, value
    return value.lo, value.hi


def as_int(value):
    """Returns value as int or SymInt, or None."""
    if isinstance(value, (int, SymInt)):
        return value
    if isinstance(value, SymBool):
        return value._num()
    return None


def eq_int(a, b):
    """z3 Bool term for a == b."""
    alo, ahi = bounds(a)
    blo, bhi = bounds(b)
    if ahi < blo or bhi < alo:
        return z3.BoolVal(False)
    width = width_for(min(alo, blo), max(ahi, bhi))
    ta = fit(a, width)
    tb = fit(b, width)
    if ta.eq(tb):
        return z3.BoolVal(True)
    return ta == tb


def lt_int(a, b):
    alo, ahi = bounds(a)
    blo, bhi = bounds(b)
    if ahi < blo:
        return z3.BoolVal(True)
    if alo >= bhi:
        return z3.BoolVal(False)
    lo = min(alo, blo)
    width = width_for(lo, max(ahi, bhi))
    ta = fit(a, width)
    tb = fit(b, width)
    if lo >= 0:
        return z3.ULT(ta, tb)
    return ta < tb


class SymInt:
    __slots__ = ("t", "lo", "hi", "__weakref__")

    def __getattr__(self, name):
        if hasattr(int, name):
            raise Unsupported(f"int.{name} of a symbolic value")
        raise AttributeError(
            f"'int' object has no attribute '{name}'")

    def __init__(self, t, lo, hi):
        self.t = t
        self.lo = lo
        self.hi = hi

    # -- truth, identity ----------------------------------------------------

    def __bool__(self):
        return not ENGINE.branch(eq_int(self, 0))

    def __hash__(self):
        if HASH_ALLOWED[0]:
            return path_hash(self)
        raise Unsupported("hash of symbolic int")

    def __index__(self):
        return ENGINE.choose(self)

    def __int__(self):
        return ENGINE.choose(self)

    def __float__(self):
        raise Unsupported("native float of symbolic int")

    def __format__(self, spec):
        raise Unsupported("native format of symbolic int")

    def __repr__(self):
        return f"<SymInt {self.lo}..{self.hi} {str(self.t)[:60]}>"

    def __str__(self):
        raise Unsupported("native str of symbolic int")

    # -- comparison -----------------------------------------------------------

    def __eq__(self, other):
        number = as_int(other)
        if number is None:
            if isinstance(other, float):
                raise Unsupported("symbolic int compared with float")
            return False
        return make_bool(eq_int(self, number))

    def __ne__(self, other):
        return sym_not(self.__eq__(other))

    def __lt__(self, other):
        number = as_int(other)
        if number is None:
            if isinstance(other, float):
                raise Unsupported("symbolic int compared with float")
            return NotImplemented
        return make_bool(lt_int(self, number))

    def __gt__(self, other):
        number = as_int(other)
        if number is None:
            if isinstance(other, float):
                raise Unsupported("symbolic int compared with float")
            return NotImplemented
        return make_bool(lt_int(number, self))

    def __le__(self, other):
        return sym_not(self.__gt__(other))

    def __ge__(self, other):
        return sym_not(self.__lt__(other))

    # -- arithmetic -------------------------------------------------------------

    def __add__(self, other):
        number = as_int(other)
        if number is None:
            return NotImplemented
        if isinstance(number, int) and number == 0:
            return self
        blo, bhi = bounds(number)
        lo, hi = self.lo + blo, self.hi + bhi
        width = width_for(lo, hi)
        t = fit(self, width) + fit(number, width)
        if self.lo >= 0 and blo >= 0:
            EXACT[t.get_id()] = t
        return make_int(t, lo, hi)

    __radd__ = __add__

    def __sub__(self, other):
        number = as_int(other)
        if number is None:
            return NotImplemented
        blo, bhi = bounds(number)
        if isinstance(number, SymInt) and number.t.eq(self.t):
            return 0
        lo, hi = self.lo - bhi, self.hi - blo
        width = width_for(lo, hi)
        return make_int(fit(self, width) - fit(number, width), lo, hi)

    def __rsub__(self, other):
        number = as_int(other)
        if number is None:
            return NotImplemented
        blo, bhi = bounds(number)
        lo, hi = blo - self.hi, bhi - self.lo
        width = width_for(lo, hi)
        return make_int(fit(number, width) - fit(self, width), lo, hi)

    def __mul__(self, other):
        number = as_int(other)
        if number is None:
            if isinstance(other, (str, bytes, list, tuple, SymStr, SymBytes)):
                return other * ENGINE.choose(self)
            return NotImplemented
        blo, bhi = bounds(number)
        corners = [self.lo * blo, self.lo * bhi, self.hi * blo, self.hi * bhi]
        lo, hi = min(corners), max(corners)
        if lo == hi:
            return lo
        width = width_for(lo, hi)
        t = fit(self, width) * fit(number, width)
        if self.lo >= 0 and blo >= 0:
            EXACT[t.get_id()] = t
        return make_int(t, lo, hi)

    __rmul__ = __mul__

    def __neg__(self):
        return 0 - self

    def __pos__(self):
        return self

    def __invert__(self):
        return -1 - self

    def __abs__(self):
        if self.lo >= 0:
            return self
        hi = max(abs(self.lo), abs(self.hi))
        width = width_for(self.lo, hi) + 1
        t = fit(self, width)
        return make_int(z3.If(t < 0, -t, t), 0, hi)

    def _divmod(self, other):
        number = as_int(other)
        if number is None:
            return None
        if isinstance(number, SymInt):
            if ENGINE.branch(eq_int(number, 0)):
                raise ZeroDivisionError("integer division or modulo by zero")
            if number.lo < 0 or self.lo < 0:
                raise Unsupported("signed division by a symbolic value")
            width = width_for(0, max(self.hi, number.hi))
            quotient = make_int(
                z3.UDiv(fit(self, width), fit(number, width)), 0, self.hi)
            remainder = make_int(
                z3.URem(fit(self, width), fit(number, width)), 0,
                max(0, min(self.hi, number.hi - 1)))
            return quotient, remainder
        if number == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if number < 0:
            quotient, remainder = (-self)._divmod(-number) if isinstance(
                -self, SymInt) else divmod(-self, -number)
            return quotient, -remainder
        if number == 1:
            return self, 0
        if number & (number - 1) == 0:
            bits = number.bit_length() - 1
            return self >> bits, self & (number - 1)
        qlo, qhi = self.lo // number, self.hi // number
        if qlo == qhi:
            return qlo, self - qlo * number
        if self.lo >= 0:
            width = width_for(0, max(self.hi, number))
            t = fit(self, width)
            divisor = z3.BitVecVal(number, width)
            quotient = make_int(z3.UDiv(t, divisor), qlo, qhi)
            remainder = make_int(z3.URem(t, divisor), 0,
                                 min(number - 1, self.hi))
            return quotient, remainder
        width = width_for(self.lo - number, max(self.hi, number)) + 1
        t = fit(self, width)
        divisor = z3.BitVecVal(number, width)
        quotient_t = z3.If(
            t >= 0, z3.UDiv(t, divisor),
            -z3.UDiv(-t + (number - 1), divisor))
        quotient = make_int(quotient_t, qlo, qhi)
        remainder_t = t - quotient_t * divisor
        remainder = make_int(remainder_t, 0, number - 1)
        return quotient, remainder

    def __divmod__(self, other):
        result = self._divmod(other)
        return NotImplemented if result is None else result

    def __rdivmod__(self, other):
        number = as_int(other)
        if number is None:
            return NotImplemented
        return lift_int(number)._divmod(self)

    def __floordiv__(self, other):
        result = self._divmod(other)
        return NotImplemented if result is None else result[0]

    def __rfloordiv__(self, other):
        return self.__rdivmod__(other)[0]

    def __mod__(self, other):
        result = self._divmod(other)
        return NotImplemented if result is None else result[1]

    def __rmod__(self, other):
        if isinstance(other, str):
            raise Unsupported("printf-style formatting")
        return self.__rdivmod__(other)[1]

    def __truediv__(self, other):
        return SymRatio(self, 1).__truediv__(other)

    def __rtruediv__(self, other):
        raise Unsupported("true division by a symbolic value")

    def __pow__(self, other):
        if isinstance(other, int) and 0 <= other <= 4:
            result = 1
            for _ in range(other):
                result = self * result
            return result
        raise Unsupported("power of a symbolic value")

    def __rpow__(self, other):
        if other == 2:
            return 1 << self
        return other ** ENGINE.choose(self)

    # -- bit operations -----------------------------------------------------------

    def __lshift__(self, other):
        if not isinstance(other, int):
            other = ENGINE.choose(other)
        if other < 0:
            raise ValueError("negative shift count")
        if other == 0:
            return self
        lo, hi = self.lo << other, self.hi << other
        t = fit(self, width_for(self.lo, self.hi))
        return make_int(z3.Concat(t, z3.BitVecVal(0, other)), lo, hi)

    def __rlshift__(self, other):
        return other << ENGINE.choose(self)

    def __rshift__(self, other):
        if not isinstance(other, int):
            other = ENGINE.choose(other)
        if other < 0:
            raise ValueError("negative shift count")
        if other == 0:
            return self
        lo, hi = self.lo >> other, self.hi >> other
        if lo == hi:
            return lo
        width = self.t.size()
        if width <= other:
            width = other + 1
        t = fit(self, width)
        return make_int(z3.Extract(width - 1, other, t), lo, hi)

    def __rrshift__(self, other):
        return other >> ENGINE.choose(self)

    def __and__(self, other):
        number = as_int(other)
        if number is None:
            return NotImplemented
        if isinstance(number, int):
            if number == 0:
                return 0
            if number > 0 and number & (number + 1) == 0:
                # Low-bit mask.
                bits = number.bit_length()
                if self.lo >= 0 and self.hi <= number:
                    return make_int(low_bits(self.t, self.t.size()),
                                    self.lo, self.hi)
                width = max(bits, self.t.size())
                return make_int(low_bits(fit(self, width), bits),
                                0, number if self.lo < 0
                                else min(number, self.hi))
        blo, bhi = bounds(number)
        if self.lo >= 0 and blo >= 0:
            lo, hi = 0, min(self.hi, bhi)
        elif self.lo >= 0:
            lo, hi = 0, self.hi
        elif blo >= 0:
            lo, hi = 0, bhi
        else:
            lo = -(1 << (max(width_for(self.lo, self.hi),
                             width_for(blo, bhi)) - 1))
            hi = max(self.hi, bhi, 0)
        width = max(width_for(self.lo, self.hi), width_for(blo, bhi),
                    width_for(lo, hi)) + 1
        return make_int_signed(fit(self, width) & fit(number, width), lo, hi)

    __rand__ = __and__

    def _orxor(self, other, operation):
        number = as_int(other)
        if number is None:
            return NotImplemented
        blo, bhi = bounds(number)
        bits = max(width_for(self.lo, self.hi), width_for(blo, bhi))
        if self.lo >= 0 and blo >= 0:
            for high, low in ((self, number), (number, self)):
                shift = low_zeros(high)
                if shift and bounds(low)[1] < 1 << shift:
                    return high + low
            lo, hi = 0, (1 << bits) - 1
            width = bits
            return make_int(operation(fit(self, width), fit(number, width)),
                            lo, hi)
        width = bits + 1
        lo, hi = -(1 << bits), (1 << bits) - 1
        return make_int_signed(
            operation(fit(self, width), fit(number, width)), lo, hi)

    def __or__(self, other):
        if isinstance(other, int) and other == 0:
            return self
        return self._orxor(other, lambda a, b: a | b)

    __ror__ = __or__

    def __xor__(self, other):
        if isinstance(other, int) and other == 0:
            return self
        return self._orxor(other, lambda a, b: a ^ b)

    __rxor__ = __xor__

    # -- int methods ----------------------------------------------------------------

    def bit_length(self):
        for bits in range(0, width_for(self.lo, self.hi) + 1):
            if self.__abs__() < (1 << bits):
                return bits
        raise Unsupported("bit_length")

    def to_bytes(self, length=1, byteorder="big", signed=False):
        if not signed:
            if self < 0:
                raise OverflowError("can't convert negative int to unsigned")
            if self >= (1 << (8 * length)):
                raise OverflowError("int too big to convert")
        else:
            if sym_or([self < -(1 << (8 * length - 1)),
                       self >= (1 << (8 * length - 1))]):
                raise OverflowError("int too big to convert")
        items = [(self >> (8 * i)) & 0xFF for i in range(length)]
        if byteorder == "big":
            items.reverse()
        return make_bytes(items)


HASH_ALLOWED = [False]
HASHES = {}


def path_hash(value):
    """A hash by identity, the same in every execution of a path."""
    known = HASHES.get(id(value))
    if known is None:
        known = HASHES[id(value)] = (
            value, ((len(HASHES) + 1) * 0x9e3779b97f4a7c15) >> 3
            & 0xfffffffffffffff)
    return known[1]


# Sums and products of values that are not negative: they do not wrap.
EXACT = {}


def low_zeros(value):
    """The number of low bits of a term that are zero by construction."""
    if isinstance(value, int):
        return (value & -value).bit_length() - 1 if value else 0
    t = value.t
    if t.decl().kind() == z3.Z3_OP_ZERO_EXT:
        t = t.children()[0]
    if t.decl().kind() == z3.Z3_OP_CONCAT:
        last = t.children()[-1]
        if z3.is_bv_value(last) and last.as_long() == 0:
            return last.size()
    return 0


_ARITHMETIC = {z3.Z3_OP_BADD, z3.Z3_OP_BSUB, z3.Z3_OP_BMUL, z3.Z3_OP_BNEG}
_BITWISE = {z3.Z3_OP_BXOR: lambda a, b: a ^ b,
            z3.Z3_OP_BOR: lambda a, b: a | b,
            z3.Z3_OP_BAND: lambda a, b: a & b}


def _order(t):
    return t.hash(), t.get_id()


def low_bits(t, bits):
    """The low bits of a term, with arithmetic in linear normal form.

    Truncation distributes over addition, multiplication and the bitwise
    operations, so this is an equivalence; it makes computations modulo a
    power of two equal as terms however they were masked on the way.
    """
    if t.size() == bits and t.decl().kind() not in _ARITHMETIC:
        return t
    kind = t.decl().kind()
    if kind in _ARITHMETIC:
        terms = {}
        constant = [0]
        _collect(t, bits, 1, terms, constant)
        result = None
        for factor, term in sorted(terms.values(), key=lambda x: _order(x[1])):
            factor %= 1 << bits
            if factor == 0:
                continue
            if factor != 1:
                term = term * z3.BitVecVal(factor, bits)
            result = term if result is None else result + term
        constant = constant[0] % (1 << bits)
        if result is None:
            return z3.BitVecVal(constant, bits)
        if constant:
            result = result + z3.BitVecVal(constant, bits)
        return result
    if kind in _BITWISE:
        children = []
        waiting = [low_bits(x, bits) for x in t.children()]
        while waiting:
            child = waiting.pop()
            if child.decl().kind() == kind:
                waiting.extend(child.children())
            else:
                children.append(child)
        children.sort(key=_order)
        result = children[0]
        for child in children[1:]:
            result = _BITWISE[kind](result, child)
        return result
    if kind in (z3.Z3_OP_ZERO_EXT, z3.Z3_OP_SIGN_EXT):
        child = t.children()[0]
        if child.size() >= bits:
            return low_bits(child, bits)
        if kind == z3.Z3_OP_ZERO_EXT:
            return z3.ZeroExt(bits - child.size(), child)
        return z3.SignExt(bits - child.size(), child)
    if kind == z3.Z3_OP_CONCAT:
        last = t.children()[-1]
        if z3.is_bv_value(last) and len(t.children()) == 2:
            if last.size() >= bits:
                return z3.Extract(bits - 1, 0, last)
            return z3.Concat(
                low_bits(t.children()[0], bits - last.size()), last)
    if kind == z3.Z3_OP_EXTRACT and t.params()[1] == 0:
        return low_bits(t.children()[0], bits)
    if t.size() == bits:
        return t
    return z3.Extract(bits - 1, 0, t)


def _collect(t, bits, factor, terms, constant):
    if z3.is_bv_value(t):
        constant[0] += factor * t.as_long()
        return
    kind = t.decl().kind()
    if kind in _ARITHMETIC and (t.size() >= bits or t.get_id() in EXACT):
        children = t.children()
        if kind == z3.Z3_OP_BADD:
            for child in children:
                _collect(child, bits, factor, terms, constant)
            return
        if kind == z3.Z3_OP_BSUB:
            _collect(children[0], bits, factor, terms, constant)
            for child in children[1:]:
                _collect(child, bits, -factor, terms, constant)
            return
        if kind == z3.Z3_OP_BNEG:
            _collect(children[0], bits, -factor, terms, constant)
            return
        numbers = [x for x in children if z3.is_bv_value(x)]
        others = [x for x in children if not z3.is_bv_value(x)]
        for number in numbers:
            factor *= number.as_long()
        if len(others) == 1:
            _collect(others[0], bits, factor, terms, constant)
            return
        others = sorted([low_bits(x, bits) if x.size() >= bits
                         else z3.ZeroExt(bits - x.size(), x) for x in others],
                        key=_order)
        term = others[0]
        for other in others[1:]:
            term = term * other
    elif kind == z3.Z3_OP_CONCAT:
        shift = t.size()
        for child in t.children():
            shift -= child.size()
            _collect(child, bits, factor << shift, terms, constant)
        return
    elif kind == z3.Z3_OP_ZERO_EXT or (kind == z3.Z3_OP_SIGN_EXT and
            t.children()[0].size() >= bits):
        _collect(t.children()[0], bits, factor, terms, constant)
        return
    elif t.size() < bits:
        term = z3.ZeroExt(bits - t.size(), t)
    elif kind == z3.Z3_OP_EXTRACT and t.params()[1] == 0:
        _collect(t.children()[0], bits, factor, terms, constant)
        return
    else:
        term = low_bits(t, bits)
    known = terms.get(term.get_id())
    if known:
        factor += known[0]
    terms[term.get_id()] = (factor, term)


def make_int_signed(t, lo, hi):
    """As make_int, for a term computed in two's complement of any width."""
    return make_int(
        fit_term_signed(t, width_for(lo, hi)), lo, hi)


def fit_term_signed(t, width):
    size = t.size()
    if size > width:
        return z3.Extract(width - 1, 0, t)
    if size < width:
        return z3.SignExt(width - size, t)
    return t


def lift_int(value):
    if isinstance(value, SymInt):
        return value
    result = SymInt(z3.BitVecVal(value, width_for(value, value)), value, value)
    return result


def ite_int(cond, a, b):
    """If-then-else over integers; cond is bool or SymBool."""
    if isinstance(cond, bool):
        return a if cond else b
    alo, ahi = bounds(a)
    blo, bhi = bounds(b)
    lo, hi = min(alo, blo), max(ahi, bhi)
    width = width_for(lo, hi)
    ta, tb = fit(a, width), fit(b, width)
    if ta.eq(tb):
        return a
    return make_int(z3.If(cond.t, ta, tb), lo, hi)


def evaluate_int(value, model):
    if isinstance(value, int):
        return value
    result = model.eval(value.t, model_completion=True)
    return result.as_signed_long() if value.lo < 0 else result.as_long()


def mux(items, index, lo=0):
    """items[index] for a symbolic index known to be within the list (ints)."""
    groups = {}
    for position, item in enumerate(items):
        if isinstance(item, int):
            groups.setdefault(item, []).append(position)
    result = items[-1]
    # Most frequent constant is the default of the chain.
    if groups:
        default = max(groups, key=lambda k: len(groups[k]))
        result = default
    else:
        default = None
    for position in range(len(items) - 1, -1, -1):
        item = items[position]
        if isinstance(item, int) and item == default and default is not None:
            continue
        result = ite_int(make_bool(eq_int(index, position + lo)), item, result)
    return result


# --------------------------------------------------------------------------
# Ratios (true division of symbolic integers), floats
# --------------------------------------------------------------------------


class SymRatio:
    """An opaque quotient; supports nothing but rendering."""

    def __getattr__(self, name):
        if hasattr(float, name):
            raise Unsupported(f"float.{name} of a symbolic value")
        raise AttributeError(
            f"'float' object has no attribute '{name}'")

    def __init__(self, numerator, denominator):
        self.numerator = numerator
        self.denominator = denominator

    def __truediv__(self, other):
        if not isinstance(other, int):
            raise Unsupported("true division of symbolic values")
        return SymRatio(self.numerator, self.denominator * other)

    def __bool__(self):
        raise Unsupported("truth of symbolic ratio")

    def __format__(self, spec):
        raise Unsupported("native format of symbolic ratio")

    def __int__(self):
        raise Unsupported("int of symbolic ratio")


class SymFloat:
    """An IEEE 754 value known by its bits; rendering and bit equality only."""

    __slots__ = ("bits", "size")

    def __getattr__(self, name):
        if hasattr(float, name):
            raise Unsupported(f"float.{name} of a symbolic value")
        raise AttributeError(
            f"'float' object has no attribute '{name}'")

    def __init__(self, bits, size):
        self.bits = bits
        self.size = size

    def __bool__(self):
        mask = (1 << (8 * self.size - 1)) - 1
        return bool((self.bits & mask) != 0)

    def __hash__(self):
        raise Unsupported("hash of symbolic float")

    def __eq__(self, other):
        raise Unsupported("comparison of symbolic float")

    def __format__(self, spec):
        raise Unsupported("native format of symbolic float")

    def __float__(self):
        raise Unsupported("native float")

    def __int__(self):
        raise Unsupported("int of symbolic float")

    def integer(self):
        """int() of the value: exact, truncating."""
        total, fraction = (11, 52) if self.size == 8 else (8, 23)
        bias = (1 << (total - 1)) - 1
        bits = lift_int(self.bits)
        exponent = bits >> fraction & ((1 << total) - 1)
        mantissa = bits & ((1 << fraction) - 1)
        if exponent == (1 << total) - 1:
            if mantissa != 0:
                raise ValueError("cannot convert float NaN to integer")
            raise OverflowError("cannot convert float infinity to integer")
        if exponent < bias:
            return 0
        top = bias + 62
        if exponent < top:
            width, most = fraction + 64, 62
        else:
            width, most = fraction + (1 << (total - 1)) + 1, 1 << (total - 1)
        significand = fit(mantissa + (1 << fraction), width)
        shift = fit(exponent - bias if isinstance(exponent, int)
                    else SymInt(exponent.t, 0, exponent.hi), width)
        value = z3.LShR(significand << (shift - bias), fraction)
        result = make_int(value, 0, (1 << most) - 1)
        if bits >> (8 * self.size - 1) == 1:
            return -result
        return result


# --------------------------------------------------------------------------
# Bytes
# --------------------------------------------------------------------------


def make_bytes(items):
    items = tuple(items)
    for item in items:
        if not isinstance(item, int):
            return SymBytes(items)
    return bytes(items)


def byte_items(value):
    if isinstance(value, SymBytes):
        return value.items
    return tuple(value)


def resolve_slice(index, length):
    """Concrete (start, stop, step) for a slice with symbolic bounds."""
    step = 1 if index.step is None else index.step
    if not isinstance(step, int):
        step = ENGINE.choose(step)
    if not is_sym(index.start) and not is_sym(index.stop):
        return slice(index.start, index.stop, step).indices(length)
    if step != 1:
        raise Unsupported("symbolic slice with a step")

    def clip(value, default):
        if value is None:
            return default
        if isinstance(value, SymBool):
            value = value._num()
        if isinstance(value, SymInt):
            if value.lo < 0 and bool(value < 0):
                value = value + length
                if bool(value < 0):
                    return 0
            if bool(value >= length):
                return length
            return ENGINE.choose(value)
        if value < 0:
            value += length
            return max(value, 0)
        return min(value, length)

    return clip(index.start, 0), clip(index.stop, length), 1


def resolve_index(index, length, what):
    """Branches on the range of a symbolic index, returns a non-negative one."""
    if isinstance(index, SymBool):
        index = index._num()
    if index.lo < 0 and bool(index < 0):
        index = index + length
        if bool(index < 0):
            raise IndexError(f"{what} index out of range")
    if bool(index >= length):
        raise IndexError(f"{what} index out of range")
    return index


class SymBytes:
    __slots__ = ("items",)

    def __getattr__(self, name):
        if hasattr(bytes, name):
            raise Unsupported(f"bytes.{name} of a symbolic value")
        raise AttributeError(
            f"'bytes' object has no attribute '{name}'")

    def __init__(self, items):
        self.items = items

    def __len__(self):
        return len(self.items)

    def __bool__(self):
        return bool(self.items)

    def __iter__(self):
        return iter(self.items)

    def __hash__(self):
        if HASH_ALLOWED[0]:
            return path_hash(self)
        raise Unsupported("hash of symbolic bytes")

    def __getitem__(self, index):
        if isinstance(index, int):
            return self.items[index]
        if isinstance(index, slice):
            start, stop, step = resolve_slice(index, len(self.items))
            return make_bytes(self.items[slice(start, stop, step)]
                              if step > 0 else
                              [self.items[i] for i in range(start, stop, step)])
        if isinstance(index, (SymInt, SymBool)):
            index = resolve_index(index, len(self.items), "index")
            return mux(list(self.items), index)
        raise TypeError("byte indices must be integers or slices")

    def __add__(self, other):
        if isinstance(other, (bytes, bytearray, SymBytes)):
            return make_bytes(self.items + byte_items(other))
        return NotImplemented

    def __radd__(self, other):
        if isinstance(other, (bytes, bytearray)):
            return make_bytes(byte_items(other) + self.items)
        return NotImplemented

    def __mul__(self, other):
        if isinstance(other, SymInt):
            other = ENGINE.choose(other)
        return make_bytes(self.items * other)

    __rmul__ = __mul__

    def __eq__(self, other):
        if not isinstance(other, (bytes, bytearray, SymBytes)):
            return False
        items = byte_items(other)
        if len(items) != len(self.items):
            return False
        return sym_and([
            a == b if isinstance(a, SymInt) or isinstance(b, SymInt)
            else a == b
            for a, b in zip(self.items, items)])

    def __ne__(self, other):
        return sym_not(self.__eq__(other))

    def _lt(self, a, b):
        result = len(a) < len(b)
        for x, y in reversed(list(zip(a, b))):
            lt = x < y if not (isinstance(x, int) and isinstance(y, int)) \
                else (x < y)
            eq = x == y
            result = sym_or([lt, sym_and([eq, result])])
        return result

    def __lt__(self, other):
        return self._lt(self.items, byte_items(other))

    def __gt__(self, other):
        return self._lt(byte_items(other), self.items)

    def __le__(self, other):
        return sym_not(self.__gt__(other))

    def __ge__(self, other):
        return sym_not(self.__lt__(other))

    def __contains__(self, other):
        return bool(self.contains(other))

    def contains(self, other):
        if isinstance(other, (int, SymInt)):
            return sym_or([item == other for item in self.items])
        needle = byte_items(other)
        size = len(needle)
        return sym_or([
            self._match_at(i, needle)
            for i in range(len(self.items) - size + 1)])

    def _match_at(self, position, needle):
        if position < 0 or position + len(needle) > len(self.items):
            return False
        return sym_and([
            self.items[position + i] == needle[i]
            for i in range(len(needle))])

    def __repr__(self):
        return f"<SymBytes {len(self.items)}>"

    def __str__(self):
        raise Unsupported("native str of symbolic bytes")

    def __format__(self, spec):
        raise Unsupported("native format of symbolic bytes")

    def __bytes__(self):
        raise Unsupported("native bytes of symbolic bytes")

    # -- bytes methods ------------------------------------------------------

    def startswith(self, prefix, start=0):
        if isinstance(prefix, tuple):
            return sym_or([self.startswith(p, start) for p in prefix])
        return self._match_at(start, byte_items(prefix))

    def endswith(self, suffix):
        if isinstance(suffix, tuple):
            return sym_or([self.endswith(p) for p in suffix])
        needle = byte_items(suffix)
        return self._match_at(len(self.items) - len(needle), needle)

    def find(self, sub, start=None, end=None):
        length = len(self.items)
        start, end, _ = resolve_slice(slice(start, end), length)
        needle = (sub,) if isinstance(sub, (int, SymInt)) else byte_items(sub)
        for position in range(start, end - len(needle) + 1):
            if self._match_at(position, needle):
                return position
        return -1

    def rfind(self, sub, start=None, end=None):
        length = len(self.items)
        start, end, _ = resolve_slice(slice(start, end), length)
        needle = (sub,) if isinstance(sub, (int, SymInt)) else byte_items(sub)
        for position in range(end - len(needle), start - 1, -1):
            if self._match_at(position, needle):
                return position
        return -1

    def index(self, sub, start=None, end=None):
        result = self.find(sub, start, end)
        if result == -1:
            raise ValueError("subsection not found")
        return result

    def count(self, sub):
        needle = (sub,) if isinstance(sub, (int, SymInt)) else byte_items(sub)
        total = 0
        position = 0
        while position + len(needle) <= len(self.items):
            if self._match_at(position, needle):
                total += 1
                position += len(needle)
            else:
                position += 1
        return total

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            raise Unsupported("bytes.split without separator")
        needle = byte_items(sep)
        result = []
        begin = 0
        position = 0
        while position + len(needle) <= len(self.items):
            if maxsplit >= 0 and len(result) >= maxsplit:
                break
            if self._match_at(position, needle):
                result.append(make_bytes(self.items[begin:position]))
                position += len(needle)
                begin = position
            else:
                position += 1
        result.append(make_bytes(self.items[begin:]))
        return result

    def partition(self, sep):
        position = self.find(sep)
        if position == -1:
            return make_bytes(self.items), b"", b""
        size = len(byte_items(sep))
        return (make_bytes(self.items[:position]), sep,
                make_bytes(self.items[position + size:]))

    def rpartition(self, sep):
        position = self.rfind(sep)
        if position == -1:
            return b"", b"", make_bytes(self.items)
        size = len(byte_items(sep))
        return (make_bytes(self.items[:position]), sep,
                make_bytes(self.items[position + size:]))

    def _in_set(self, item, chars):
        if chars is None:
            chars = b" \t\n\r\x0b\f"
        return sym_or([item == c for c in byte_items(chars)])

    def rstrip(self, chars=None):
        end = len(self.items)
        while end > 0 and self._in_set(self.items[end - 1], chars):
            end -= 1
        return make_bytes(self.items[:end])

    def lstrip(self, chars=None):
        begin = 0
        while begin < len(self.items) and self._in_set(
                self.items[begin], chars):
            begin += 1
        return make_bytes(self.items[begin:])

    def strip(self, chars=None):
        value = self.rstrip(chars)
        return SymBytes(byte_items(value)).lstrip(chars)

    def replace(self, old, new, count=-1):
        old = byte_items(old)
        new = byte_items(new)
        result = []
        position = 0
        while position < len(self.items):
            if position + len(old) <= len(self.items) and self._match_at(
                    position, old):
                result.extend(new)
                position += len(old)
            else:
                result.append(self.items[position])
                position += 1
        return make_bytes(result)

    def join(self, parts):
        result = []
        for number, part in enumerate(parts):
            if number:
                result.extend(self.items)
            if not isinstance(part, (bytes, bytearray, SymBytes)):
                raise TypeError(
                    f"sequence item {number}: expected a bytes-like object, "
                    f"{type(part).__name__} found")
            result.extend(byte_items(part))
        return make_bytes(result)

    def hex(self, sep=None):
        parts = []
        for number, item in enumerate(self.items):
            if number and sep:
                parts.append(sep)
            parts.append(format_value(item, "02x"))
        return make_str(parts)

    def upper(self):
        return make_bytes([
            ite_int(sym_and([x >= 97, x <= 122]), x - 32, x)
            if isinstance(x, SymInt) else bytes([x]).upper()[0]
            for x in self.items])

    def lower(self):
        return make_bytes([
            ite_int(sym_and([x >= 65, x <= 90]), x + 32, x)
            if isinstance(x, SymInt) else bytes([x]).lower()[0]
            for x in self.items])

    def decode(self, encoding="utf-8", errors="strict"):
        return decode_bytes(self, encoding, errors)

    def tobytes(self):
        return self

    def __dts_hexdump__(self):
        return make_str([Atom("hexdump", (self,)), "\n\n"])


def normal_encoding(encoding):
    import codecs
    if not isinstance(encoding, str):
        raise Unsupported("symbolic encoding name")
    return codecs.lookup(encoding).name


_CHARMAPS = {}


def _charmap(encoding):
    table = _CHARMAPS.get(encoding)
    if table is None:
        table = []
        for value in range(256):
            try:
                text = bytes([value]).decode(encoding)
                table.append(ord(text) if len(text) == 1 else None)
            except UnicodeDecodeError:
                table.append(None)
        _CHARMAPS[encoding] = table
    return table


def decode_error(encoding, reason="invalid data"):
    return UnicodeDecodeError(encoding, b"\xff", 0, 1, reason)


def _between(item, lo, hi):
    return sym_and([item >= lo, item <= hi])


def utf8_valid(items):
    """Condition under which the bytes are valid UTF-8."""
    count = len(items)
    valid = [False] * (count + 5)
    valid[count] = True
    for i in range(count - 1, -1, -1):
        item = items[i]
        options = [sym_and([item < 0x80, valid[i + 1]])]
        if i + 1 < count:
            c1 = _between(items[i + 1], 0x80, 0xBF)
            options.append(sym_and([_between(item, 0xC2, 0xDF), c1,
                                    valid[i + 2]]))
        if i + 2 < count:
            c2 = _between(items[i + 2], 0x80, 0xBF)
            lead = sym_or([
                sym_and([item == 0xE0, _between(items[i + 1], 0xA0, 0xBF)]),
                sym_and([_between(item, 0xE1, 0xEC), c1]),
                sym_and([item == 0xED, _between(items[i + 1], 0x80, 0x9F)]),
                sym_and([_between(item, 0xEE, 0xEF), c1])])
            options.append(sym_and([lead, c2, valid[i + 3]]))
        if i + 3 < count:
            c3 = _between(items[i + 3], 0x80, 0xBF)
            lead = sym_or([
                sym_and([item == 0xF0, _between(items[i + 1], 0x90, 0xBF)]),
                sym_and([_between(item, 0xF1, 0xF3), c1]),
                sym_and([item == 0xF4, _between(items[i + 1], 0x80, 0x8F)])])
            options.append(sym_and([lead, c2, c3, valid[i + 4]]))
        valid[i] = sym_or(options)
    return valid[0]


def utf16_valid(units):
    count = len(units)
    valid = [False] * (count + 2)
    valid[count] = True
    for i in range(count - 1, -1, -1):
        unit = units[i]
        plain = sym_or([unit < 0xD800, unit > 0xDFFF])
        options = [sym_and([plain, valid[i + 1]])]
        if i + 1 < count:
            options.append(sym_and([
                _between(unit, 0xD800, 0xDBFF),
                _between(units[i + 1], 0xDC00, 0xDFFF), valid[i + 2]]))
        valid[i] = sym_or(options)
    return valid[0]


def decode_bytes(value, encoding, errors="strict"):
    name = normal_encoding(encoding)
    items = byte_items(value)
    if name in ("ascii", "iso8859-1") or (
            name.startswith("cp") or name.startswith("iso8859-")
            or name.startswith("mac")):
        table = _charmap(name)
        if all(x is not None for x in table) and table == list(range(256)):
            return make_str(items_to_chars(items))
        if errors == "strict":
            bad = [x for x in range(256) if table[x] is None]
            if bad:
                ok = []
                for item in items:
                    if isinstance(item, int):
                        ok.append(table[item] is not None)
                    elif name == "ascii":
                        ok.append(item < 0x80)
                    else:
                        ok.append(sym_not(sym_or([item == b for b in bad])))
                if not sym_and(ok):
                    raise decode_error(name)
            full = [x if x is not None else 0 for x in table]
        elif errors == "replace":
            full = [x if x is not None else 0xFFFD for x in table]
        else:
            raise Unsupported(f"decode {name} errors={errors}")
        chars = []
        for item in items:
            if isinstance(item, int):
                chars.append(chr(full[item]))
            elif name == "ascii" and errors == "strict":
                chars.append(make_int(item.t, 0, 127)
                             if False else item)
            else:
                chars.append(_table_char(full, item))
        return make_str(chars)
    if name == "utf-8":
        if errors != "strict":
            if errors in ("replace", "backslashreplace", "ignore"):
                if sym_and([item < 0x80 for item in items]):
                    return make_str(items_to_chars(items))
                return make_str([Atom(f"decode:{name}:{errors}",
                                      (make_bytes(items),))])
            raise Unsupported(f"decode {name} errors={errors}")
        if sym_and([item < 0x80 for item in items]):
            return make_str(items_to_chars(items))
        if not utf8_valid(items):
            raise decode_error(name)
        return make_str([Atom("decode:utf-8:strict", (make_bytes(items),))])
    if name in ("utf-16-le", "utf-16-be"):
        odd = len(items) % 2
        units = []
        for i in range(0, len(items) - odd, 2):
            low, high = items[i], items[i + 1]
            if name == "utf-16-be":
                low, high = high, low
            units.append(combine_bytes([low, high]))
        if errors == "strict" or not odd:
            if sym_and([sym_or([u < 0xD800, u > 0xDFFF]) for u in units]):
                if odd:
                    raise decode_error(name, "truncated data")
                return make_str([
                    chr(u) if isinstance(u, int) else u for u in units])
        if errors in ("replace", "ignore", "backslashreplace"):
            return make_str([Atom(f"decode:{name}:{errors}",
                                  (make_bytes(items),))])
        if errors != "strict":
            raise Unsupported(f"decode {name} errors={errors}")
        if odd or not utf16_valid(units):
            raise decode_error(name)
        return make_str([Atom(f"decode:{name}:strict", (make_bytes(items),))])
    raise Unsupported(f"decode {encoding}")


def _table_char(table, item):
    """ITE over runs of a 256-entry character table."""
    result = item
    # Identity wherever possible, exceptions as ITE cases.
    for value in range(255, -1, -1):
        if table[value] != value:
            result = ite_int(item == value, table[value], result)
    return result


def items_to_chars(items):
    return [chr(x) if isinstance(x, int) else x for x in items]


def combine_bytes(items, signed=False):
    """Little-endian combination of bytes (first is least significant)."""
    if all(isinstance(x, int) for x in items):
        return int.from_bytes(bytes(items), "little", signed=signed)
    terms = [fit(x, 8) if isinstance(x, SymInt) else z3.BitVecVal(x, 8)
             for x in reversed(items)]
    t = terms[0] if len(terms) == 1 else z3.Concat(*terms)
    bits = 8 * len(items)
    if signed:
        return make_int(t, -(1 << (bits - 1)), (1 << (bits - 1)) - 1)
    # Tighten the upper bound when the top bytes are concrete zero.
    hi = 0
    lo = 0
    for item in reversed(items):
        item_lo, item_hi = bounds(item)
        hi = (hi << 8) | item_hi
        lo = (lo << 8) | item_lo
    return make_int(t, lo, hi)


# --------------------------------------------------------------------------
# Text
# --------------------------------------------------------------------------


class Atom:
    """A piece of text of unknown length, rendered from symbolic values."""

    __slots__ = ("kind", "args", "extra")

    def __init__(self, kind, args, extra=None):
        self.kind = kind
        self.args = args
        self.extra = extra

    def same_kind(self, other):
        return (self.kind == other.kind and self.extra == other.extra
                and len(self.args) == len(other.args))

    def __repr__(self):
        return f"<{self.kind} {self.args!r}>"


RENDERERS = {}


def renderer(kind):
    def register(function):
        RENDERERS[kind] = function
        return function
    return register


def render_atom(atom, args):
    """The text of an atom for concrete arguments."""
    kind = atom.kind
    if kind.startswith("int:"):
        return format(args[0], kind[4:])
    if kind.startswith("decode:"):
        _, name, errors = kind.split(":")
        return args[0].decode(name, errors)
    if kind == "lookup":
        table, default = atom.extra
        return dict(table).get(args[0], default)
    function = RENDERERS.get(kind)
    if function is None:
        raise Unsupported(f"no renderer for {kind}")
    if atom.extra is not None:
        return function(*args, atom.extra)
    return function(*args)


def make_str(items):
    """Normalises rope items; returns a str when everything is concrete."""
    result = []
    for item in items:
        if isinstance(item, SymStr):
            for sub in item.items:
                _append(result, sub)
        else:
            _append(result, item)
    if not result:
        return ""
    if len(result) == 1 and isinstance(result[0], str):
        return result[0]
    return SymStr(tuple(result))


def _append(result, item):
    if isinstance(item, str):
        if not item:
            return
        if result and isinstance(result[-1], str):
            result[-1] += item
            return
    result.append(item)


def str_items(value):
    if isinstance(value, SymStr):
        return value.items
    return (value,) if value else ()


class SymStr:
    __slots__ = ("items",)

    def __getattr__(self, name):
        if hasattr(str, name):
            raise Unsupported(f"str.{name} of a symbolic value")
        raise AttributeError(
            f"'str' object has no attribute '{name}'")

    def __init__(self, items):
        self.items = items

    # -- structure ------------------------------------------------------------

    def __dts_head__(self):
        head = self.items[0]
        return head if isinstance(head, str) else ""

    def has_atoms(self):
        return any(isinstance(x, Atom) for x in self.items)

    def chars(self):
        """List of 1-char str / SymInt; raises when atoms are present."""
        result = []
        for item in self.items:
            if isinstance(item, str):
                result.extend(item)
            elif isinstance(item, SymInt):
                result.append(item)
            else:
                expanded = expand_atom(item)
                result.extend(expanded)
        return result

    def __len__(self):
        return len(self.chars())

    def __bool__(self):
        for item in self.items:
            if isinstance(item, (str, SymInt)):
                return True
            if item.kind.startswith("int:"):
                return True
        # Only atoms that may be empty.
        return sym_truth_atoms(self.items)

    def __iter__(self):
        return iter([c if isinstance(c, str) else SymStr((c,))
                     for c in self.chars()])

    def __hash__(self):
        if HASH_ALLOWED[0]:
            return path_hash(self)
        raise Unsupported("hash of symbolic str")

    def __repr__(self):
        return f"<SymStr {self.items!r}>"

    def __str__(self):
        raise Unsupported("native str of symbolic str")

    def __format__(self, spec):
        raise Unsupported("native format of symbolic str")

    def __eq__(self, other):
        if not isinstance(other, (str, SymStr)):
            return False
        return text_eq(self, other)

    def __ne__(self, other):
        return sym_not(self.__eq__(other))

    def _cmp_lt(self, a, b):
        result = len(a) < len(b)
        for x, y in reversed(list(zip(a, b))):
            x = ord(x) if isinstance(x, str) else x
            y = ord(y) if isinstance(y, str) else y
            result = sym_or([x < y, sym_and([x == y, result])])
        return result

    def __lt__(self, other):
        return self._cmp_lt(self.chars(), text_chars(other))

    def __gt__(self, other):
        return self._cmp_lt(text_chars(other), self.chars())

    def __le__(self, other):
        return sym_not(self.__gt__(other))

    def __ge__(self, other):
        return sym_not(self.__lt__(other))

    def __add__(self, other):
        if isinstance(other, (str, SymStr)):
            return make_str([self, other])
        return NotImplemented

    def __radd__(self, other):
        if isinstance(other, str):
            return make_str([other, self])
        return NotImplemented

    def __mul__(self, other):
        if isinstance(other, SymInt):
            other = ENGINE.choose(other)
        return make_str(list(self.items) * other)

    __rmul__ = __mul__

    def __mod__(self, other):
        raise Unsupported("printf-style formatting")

    def __getitem__(self, index):
        if isinstance(index, slice) and not is_sym(index.start) \
                and not is_sym(index.stop) and index.step in (None, 1):
            fast = self._slice_fast(index)
            if fast is not None:
                return fast
        chars = self.chars()
        if isinstance(index, slice):
            start, stop, step = resolve_slice(index, len(chars))
            return make_str([chars[i] for i in range(start, stop, step)])
        if isinstance(index, int):
            return make_str([chars[index]])
        if isinstance(index, SymInt):
            index = resolve_index(index, len(chars), "string")
            codes = [ord(c) if isinstance(c, str) else c for c in chars]
            return make_str([char_item(mux(codes, index))])
        raise TypeError("string indices must be integers")

    def _slice_fast(self, index):
        """Slices at the ends that do not touch atoms."""
        start, stop = index.start, index.stop
        last = self.items[-1]
        if stop is None and start is not None and start < 0:
            # Tail.
            need = -start
            taken = []
            for item in reversed(self.items):
                if need <= 0:
                    break
                if isinstance(item, str):
                    piece = item[-need:]
                    need -= len(piece)
                    taken.append(piece)
                elif isinstance(item, SymInt):
                    need -= 1
                    taken.append(item)
                elif (need == 1 and item.kind == "int:d"
                      and bounds(item.args[0])[0] >= 0):
                    # Its last digit.
                    need -= 1
                    taken.append(item.args[0] % 10 + 48)
                elif (need == 1 and item.kind in ("float4:f", "float8:f")
                      and isinstance(item.args[0], SymInt)):
                    # A digit or letter: which one is left open.
                    need -= 1
                    taken.append(_last_of_float(item.args[0]))
                else:
                    return None
            return make_str(reversed(taken))
        if start in (None, 0) and stop is not None and stop < 0:
            if isinstance(last, str) and len(last) >= -stop:
                return make_str(list(self.items[:-1]) + [last[:stop]])
            if isinstance(last, SymInt) and stop == -1:
                return make_str(self.items[:-1])
            return None
        if start in (None, 0) and stop is not None and stop >= 0:
            need = stop
            taken = []
            for item in self.items:
                if need <= 0:
                    break
                if isinstance(item, str):
                    piece = item[:need]
                    need -= len(piece)
                    taken.append(piece)
                elif isinstance(item, SymInt):
                    need -= 1
                    taken.append(item)
                else:
                    return None
            return make_str(taken)
        return None

    # -- searching -----------------------------------------------------------

    def __contains__(self, other):
        return bool(self.contains(other))

    def contains(self, other):
        if isinstance(other, str) and other == "":
            return True
        needle = text_chars(other)
        # Split into segments between atoms that cannot contain the needle's
        # first character.
        if self.has_atoms():
            if len(needle) == 1 and isinstance(needle[0], str):
                options = []
                if any(isinstance(item, str) and needle[0] in item
                       for item in self.items):
                    return True
                for item in self.items:
                    if isinstance(item, str):
                        continue
                    if isinstance(item, SymInt):
                        options.append(item == ord(needle[0]))
                    else:
                        options.append(atom_contains_char(item, needle[0]))
                return sym_or(options)
        chars = self.chars()
        return sym_or([self._match_at(chars, i, needle)
                       for i in range(len(chars) - len(needle) + 1)])

    @staticmethod
    def _match_at(chars, position, needle):
        if position < 0 or position + len(needle) > len(chars):
            return False
        return sym_and([char_eq(chars[position + i], needle[i])
                        for i in range(len(needle))])

    def startswith(self, prefix, start=0):
        if isinstance(prefix, tuple):
            return sym_or([self.startswith(p, start) for p in prefix])
        needle = text_chars(prefix)
        if not needle:
            return True
        head = []
        for item in self.items:
            if isinstance(item, str):
                head.extend(item)
            elif isinstance(item, SymInt):
                head.append(item)
            else:
                if len(head) >= len(needle) + start:
                    break
                head.extend(expand_atom(item))
            if len(head) >= len(needle) + start:
                break
        return self._match_at(head, start, needle)

    def endswith(self, suffix):
        if isinstance(suffix, tuple):
            return sym_or([self.endswith(p) for p in suffix])
        needle = text_chars(suffix)
        if not needle:
            return True
        last = self.items[-1] if self.items else None
        if (isinstance(last, Atom) and last.kind == "decode:utf-8:strict"
                and isinstance(suffix, str) and suffix.isascii()
                and len(last.args[0]) >= len(suffix)):
            return last.args[0].endswith(suffix.encode())
        piece = self._slice_fast(slice(-len(needle), None, None))
        if piece is not None:
            found = text_chars(piece)
            return self._match_at(found, len(found) - len(needle), needle)
        tail = []
        for item in reversed(self.items):
            if isinstance(item, str):
                tail = list(item) + tail
            elif isinstance(item, SymInt):
                tail = [item] + tail
            else:
                tail = expand_atom(item) + tail
            if len(tail) >= len(needle):
                break
        return self._match_at(tail, len(tail) - len(needle), needle)

    def find(self, sub, start=None, end=None):
        chars = self.chars()
        needle = text_chars(sub)
        start, end, _ = resolve_slice(slice(start, end), len(chars))
        for position in range(start, end - len(needle) + 1):
            if self._match_at(chars, position, needle):
                return position
        return -1

    def rfind(self, sub, start=None, end=None):
        chars = self.chars()
        needle = text_chars(sub)
        start, end, _ = resolve_slice(slice(start, end), len(chars))
        for position in range(end - len(needle), start - 1, -1):
            if self._match_at(chars, position, needle):
                return position
        return -1

    def index(self, sub, start=None, end=None):
        result = self.find(sub, start, end)
        if result == -1:
            raise ValueError("substring not found")
        return result

    def _single_decode(self):
        if len(self.items) == 1 and isinstance(self.items[0], Atom) \
                and self.items[0].kind in (
                    "decode:utf-8:strict", "decode:utf-16-le:strict",
                    "decode:utf-16-be:strict"):
            return self.items[0]
        return None

    def _byte_unit(self, atom, char):
        encoding = atom.kind.split(":")[1]
        return char.encode(encoding)

    def partition(self, sep):
        atom = self._single_decode()
        if atom is not None and isinstance(sep, str) and len(sep) == 1 \
                and ord(sep) < 0x80:
            unit = self._byte_unit(atom, sep)
            items = byte_items(atom.args[0])
            step = len(unit)
            for i in range(0, len(items), step):
                if sym_and([items[i + j] == unit[j] for j in range(step)]):
                    return (decode_again(atom, items[:i]), sep,
                            decode_again(atom, items[i + step:]))
            return self, "", ""
        position = self.find(sep)
        if position == -1:
            return self, "", ""
        chars = self.chars()
        size = len(text_chars(sep))
        return (make_str(chars[:position]), sep,
                make_str(chars[position + size:]))

    def rpartition(self, sep):
        position = self.rfind(sep)
        if position == -1:
            return "", "", self
        chars = self.chars()
        size = len(text_chars(sep))
        return (make_str(chars[:position]), sep,
                make_str(chars[position + size:]))

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            raise Unsupported("str.split without separator")
        chars = self.chars()
        needle = text_chars(sep)
        result = []
        begin = 0
        position = 0
        while position + len(needle) <= len(chars):
            if 0 <= maxsplit <= len(result):
                break
            if self._match_at(chars, position, needle):
                result.append(make_str(chars[begin:position]))
                position += len(needle)
                begin = position
            else:
                position += 1
        result.append(make_str(chars[begin:]))
        return result

    @staticmethod
    def _in_set(char, chars):
        if chars is None:
            if isinstance(char, str):
                return char.isspace()
            return sym_or([char == c for c in (
                9, 10, 11, 12, 13, 28, 29, 30, 31, 32, 0x85, 0xA0, 0x1680,
                *range(0x2000, 0x200B), 0x2028, 0x2029, 0x202F, 0x205F,
                0x3000)])
        return sym_or([char_eq(char, c) for c in chars])

    def rstrip(self, chars=None):
        atom = self._single_decode()
        if atom is not None and chars is not None and all(
                ord(c) < 0x80 for c in chars):
            items = byte_items(atom.args[0])
            units = [self._byte_unit(atom, c) for c in chars]
            step = len(units[0])
            end = len(items)
            while end > 0 and sym_or([
                    sym_and([items[end - step + j] == unit[j]
                             for j in range(step)]) for unit in units]):
                end -= step
            return decode_again(atom, items[:end])
        if self.has_atoms():
            # Strip only what follows the last atom, when that is decisive.
            items = list(self.items)
            while items:
                item = items[-1]
                if isinstance(item, str):
                    stripped = item.rstrip(chars)
                    if stripped:
                        items[-1] = stripped
                        return make_str(items)
                    items.pop()
                elif isinstance(item, SymInt):
                    if self._in_set(item, chars):
                        items.pop()
                    else:
                        return make_str(items)
                elif chars is not None and item.kind.startswith("int:") \
                        and not set(chars) & set("0123456789abcdefABCDEF-"):
                    return make_str(items)
                else:
                    expanded = expand_atom(item)
                    items.pop()
                    items.extend(expanded)
            return ""
        value = self.chars()
        end = len(value)
        while end > 0 and self._in_set(value[end - 1], chars):
            end -= 1
        return make_str(value[:end])

    def lstrip(self, chars=None):
        value = self.chars()
        begin = 0
        while begin < len(value) and self._in_set(value[begin], chars):
            begin += 1
        return make_str(value[begin:])

    def strip(self, chars=None):
        value = self.rstrip(chars)
        if isinstance(value, str):
            return value.lstrip(chars)
        return value.lstrip(chars)

    def replace(self, old, new, count=-1):
        if isinstance(old, str) and len(old) == 1 and count == -1:
            result = []
            for item in self.items:
                if isinstance(item, str):
                    if isinstance(new, str):
                        result.append(item.replace(old, new))
                    else:
                        pieces = item.split(old)
                        for i, piece in enumerate(pieces):
                            if i:
                                result.append(new)
                            result.append(piece)
                elif isinstance(item, SymInt):
                    if ENGINE.branch(eq_int(item, ord(old))):
                        result.append(new)
                    else:
                        result.append(item)
                elif not atom_contains_char(item, old):
                    result.append(item)
                else:
                    for char in expand_atom(item):
                        if char_eq(char, old):
                            result.append(new)
                        else:
                            result.append(char)
            return make_str(result)
        chars = self.chars()
        needle = text_chars(old)
        result = []
        position = 0
        done = 0
        while position < len(chars):
            if (count < 0 or done < count) and \
                    position + len(needle) <= len(chars) and \
                    self._match_at(chars, position, needle):
                result.append(new)
                position += len(needle)
                done += 1
            else:
                result.append(chars[position])
                position += 1
        return make_str(result)

    def translate(self, table):
        result = []
        for char in self.chars():
            if isinstance(char, str):
                result.append(char.translate(table))
                continue
            if char.hi - char.lo > 0x1FF:
                raise Unsupported("translate of a wide character")
            entries = tuple((key, chr(key).translate(table))
                            for key in range(char.lo, char.hi + 1))
            result.append(Atom("lookup", (char,), (entries, None)))
        return make_str(result)

    def join(self, parts):
        result = []
        for number, part in enumerate(parts):
            if number:
                result.append(self)
            if not isinstance(part, (str, SymStr)):
                raise TypeError(
                    f"sequence item {number}: expected str instance, "
                    f"{type(part).__name__} found")
            result.append(part)
        return make_str(result)

    # -- case and classes -------------------------------------------------------

    def _map_ascii(self, lo, hi, delta, native):
        result = []
        for item in self.items:
            if isinstance(item, str):
                result.append(native(item))
            elif isinstance(item, SymInt):
                if item.hi >= 0x80:
                    if ENGINE.branch(lt_int(item, 0x80)):
                        pass
                    else:
                        result.append(case_nonascii(item, native))
                        continue
                result.append(ite_int(sym_and([item >= lo, item <= hi]),
                                      item + delta, item))
            else:
                kind = item.kind
                if kind.startswith("int:") and native is str.upper:
                    spec = kind[4:]
                    if spec.endswith("x"):
                        result.append(Atom("int:" + spec[:-1] + "X", item.args))
                        continue
                    if spec.endswith(("d", "X")):
                        result.append(item)
                        continue
                if kind.startswith("int:") and native is str.lower:
                    spec = kind[4:]
                    if spec.endswith("X"):
                        result.append(Atom("int:" + spec[:-1] + "x", item.args))
                        continue
                    if spec.endswith(("d", "x")):
                        result.append(item)
                        continue
                if kind == "lookup":
                    table, default = item.extra
                    result.append(Atom("lookup", item.args, (
                        tuple((k, native(v)) for k, v in table),
                        native(default) if default is not None else None)))
                    continue
                raise Unsupported(f"case mapping of {kind}")
        return make_str(result)

    def upper(self):
        return self._map_ascii(97, 122, -32, str.upper)

    def lower(self):
        return self._map_ascii(65, 90, 32, str.lower)

    def isdigit(self):
        chars = self.chars()
        if not chars:
            return False
        out = []
        for char in chars:
            if isinstance(char, str):
                out.append(char.isdigit())
            elif ENGINE.branch(lt_int(char, 0x80)):
                out.append(_between(char, 48, 57))
            else:
                raise Unsupported("isdigit of non-ASCII")
        return sym_and(out)

    def encode(self, encoding="utf-8", errors="strict"):
        name = normal_encoding(encoding)
        atom = self._single_decode()
        if atom is not None and atom.kind == f"decode:{name}:strict":
            return atom.args[0]
        result = []
        for char in self.chars():
            if isinstance(char, str):
                result.extend(char.encode(encoding, errors))
                continue
            if name == "utf-16-le" or name == "utf-16-be":
                if char.hi > 0xFFFF and ENGINE.branch(lt_int(0xFFFF, char)):
                    raise Unsupported("encode of a supplementary character")
                if char.hi >= 0xD800 and ENGINE.branch(sym_and(
                        [char >= 0xD800, char <= 0xDFFF]).t
                        if isinstance(sym_and(
                            [char >= 0xD800, char <= 0xDFFF]), SymBool)
                        else z3.BoolVal(False)):
                    raise UnicodeEncodeError(name, "\ud800", 0, 1,
                                             "surrogates not allowed")
                low, high = char & 0xFF, (char >> 8) & 0xFF
                result.extend([low, high] if name.endswith("le")
                              else [high, low])
            elif name in ("ascii", "utf-8", "iso8859-1", "cp1252"):
                limit = 0x100 if name == "iso8859-1" else 0x80
                if char.hi >= limit and not ENGINE.branch(
                        lt_int(char, limit)):
                    if name in ("ascii", "iso8859-1"):
                        raise UnicodeEncodeError(name, "\ud800", 0, 1,
                                                 "ordinal not in range")
                    raise Unsupported("encode of a non-ASCII character")
                result.append(char & 0xFF)
            else:
                raise Unsupported(f"encode {name}")
        return make_bytes(result)

    def format(self, *args, **kwargs):
        from dtsym import runtime
        return runtime._sym_format(self, args, kwargs)

    def splitlines(self, keepends=False):
        raise Unsupported("splitlines")

    def ljust(self, width, fill=" "):
        chars = self.chars()
        return make_str(chars + [fill] * max(0, width - len(chars)))

    def rjust(self, width, fill=" "):
        chars = self.chars()
        return make_str([fill] * max(0, width - len(chars)) + chars)

    def zfill(self, width):
        chars = self.chars()
        return make_str(["0"] * max(0, width - len(chars)) + chars)


def decode_again(atom, items):
    encoding = atom.kind.split(":")[1]
    value = make_bytes(items)
    if isinstance(value, bytes):
        return value.decode(encoding)
    return decode_bytes(value, encoding)


CASELESS = (0x2D30, 0xA63F)
assert all(chr(x).upper() == chr(x) == chr(x).lower()
           for x in range(CASELESS[0], CASELESS[1] + 1))


def case_nonascii(item, native):
    """Case mapping of a symbolic non-ASCII character.

    Latin-1 characters one by one; no character between U+2D30 and U+A63F
    has a case (the interpreter agrees, see CASELESS).
    """
    if item.hi > 0xFF and not ENGINE.branch(lt_int(item, 0x100)):
        if bool(_between(item, *CASELESS)):
            return item
        raise Unsupported("case mapping of a non-Latin-1 character")
    value = ENGINE.choose(item)
    return native(chr(value))


def char_item(value):
    return chr(value) if isinstance(value, int) else value


def char_eq(a, b):
    if isinstance(a, str):
        if isinstance(b, str):
            return a == b
        return b == ord(a)
    return a == (ord(b) if isinstance(b, str) else b)


def text_chars(value):
    if isinstance(value, str):
        return list(value)
    if isinstance(value, SymStr):
        return value.chars()
    raise TypeError(f"must be str, not {type(value).__name__}")


def sym_truth_atoms(items):
    for item in items:
        if item.kind.startswith("decode:"):
            if len(item.args[0]) > 0:
                return True
        elif item.kind == "lookup":
            table, default = item.extra
            if all(v for _, v in table) and default:
                return True
            return bool(resolve_lookup(item))
        else:
            return True
    return False


_SAFE_FOR_INT = set("0123456789abcdefABCDEFxX-+ ")


def atom_contains_char(atom, char):
    """Whether an atom's text contains a given character (bool or SymBool)."""
    if atom.kind.startswith("int:"):
        if char not in _SAFE_FOR_INT and char not in atom.kind[4:]:
            return False
        return sym_or([char_eq(c, char) for c in expand_atom(atom)])
    if atom.kind == "lookup":
        table, default = atom.extra
        values = [v for _, v in table]
        if default is not None:
            values.append(default)
        hits = [char in v for v in values]
        if not any(hits):
            return False
        if all(hits):
            return True
        return char in resolve_lookup(atom)
    if atom.kind.startswith("decode:"):
        name = atom.kind.split(":")[1]
        if ord(char) < 0x80 and atom.kind.endswith("strict"):
            unit = char.encode(name)
            items = byte_items(atom.args[0])
            step = len(unit)
            return sym_or([
                sym_and([items[i + j] == unit[j] for j in range(step)])
                for i in range(0, len(items), step)])
    free = CHAR_FREE.get(atom.kind)
    if free is not None:
        return free(char)
    raise Unsupported(f"search in {atom.kind}")


CHAR_FREE = {}


def resolve_lookup(atom):
    """Concretises a table lookup by forking over its distinct results."""
    table, default = atom.extra
    key = atom.args[0]
    groups = {}
    for k, v in table:
        groups.setdefault(v, []).append(k)
    for value, keys in groups.items():
        if value == default:
            continue
        if sym_or([key == k for k in keys]):
            return value
    return default


def expand_atom(atom):
    """Expands an atom to characters, forking on its length when needed."""
    kind = atom.kind
    if kind.startswith("int:"):
        return expand_int(atom.args[0], kind[4:])
    if kind == "lookup":
        return list(resolve_lookup(atom))
    if kind == "repr" and isinstance(atom.args[0], SymBytes):
        return expand_bytes_repr(atom.args[0])
    if kind in ("decode:utf-16-le:strict", "decode:utf-16-be:strict"):
        return expand_utf16(byte_items(atom.args[0]), kind[7:16])
    if kind == "decode:utf-8:strict":
        return expand_utf8(byte_items(atom.args[0]))
    args = [only_value(arg) for arg in atom.args]
    if None not in args:
        return list(render_atom(atom, args))
    raise Unsupported(f"characters of {kind}")


def _last_of_float(bits):
    function = z3.Function(
        f"float_last_{bits.t.size()}", bits.t.sort(), z3.BitVecSort(8))
    return SymInt(function(bits.t), ord("0"), ord("n"))


def _character(code):
    return chr(code) if isinstance(code, int) else code


def expand_utf16(items, name):
    """Characters of valid UTF-16; forks on which units are surrogates."""
    units = []
    for i in range(0, len(items), 2):
        low, high = items[i], items[i + 1]
        if name == "utf-16-be":
            low, high = high, low
        units.append(combine_bytes([low, high]))
    result = []
    i = 0
    while i < len(units):
        unit = units[i]
        i += 1
        if bool(sym_and([unit >= 0xd800, unit <= 0xdbff])):
            unit = 0x10000 + (unit - 0xd800) * 1024 + (units[i] - 0xdc00)
            i += 1
        result.append(_character(unit))
    return result


def expand_utf8(items):
    """Characters of valid UTF-8; forks on the lengths of the sequences."""
    result = []
    i = 0
    while i < len(items):
        code = items[i]
        i += 1
        extra = 0
        for bound, mask, number in ((0xf0, 7, 3), (0xe0, 15, 2),
                                    (0xc0, 31, 1)):
            if bool(code >= bound):
                code = code & mask
                extra = number
                break
        for _ in range(extra):
            code = code * 64 + (items[i] & 63)
            i += 1
        result.append(_character(code))
    return result


def only_value(value):
    """The integer that a value has to be on this path, None if several."""
    if not isinstance(value, SymInt):
        return value if type(value) is int else None
    candidate = evaluate_int(value, ENGINE.current_model())
    if ENGINE.prove(value == candidate) is None:
        return candidate
    return None


def expand_bytes_repr(value):
    """Characters of the representation of bytes; forks over their classes."""
    items = byte_items(value)
    quote = "'"
    if sym_or([x == 39 for x in items]) and not sym_or(
            [x == 34 for x in items]):
        quote = '"'
    result = ["b", quote]
    for item in items:
        if isinstance(item, int):
            text = repr(bytes([item]))[2:-1]
            if item == 39:
                text = "'" if quote == '"' else "\\'"
            elif item == 34:
                text = '"'
            result.extend(text)
            continue
        special = None
        for number in (9, 10, 13, 34, 39, 92):
            if item == number:
                special = number
                break
        if special == 39:
            result.extend("'" if quote == '"' else "\\'")
        elif special is not None:
            result.extend('"' if special == 34
                          else repr(bytes([special]))[2:-1])
        elif sym_and([item >= 32, item <= 126]):
            result.append(item)
        else:
            result.extend(["\\", "x", digit_char(item >> 4),
                           digit_char(item & 15)])
    result.append(quote)
    return result


def digit_char(nibble, upper=False):
    if isinstance(nibble, int):
        return ("%X" if upper else "%x") % nibble
    base = 55 if upper else 87
    if nibble.hi <= 9:
        return nibble + 48
    return ite_int(nibble < 10, nibble + 48, nibble + base)


def parse_spec(spec):
    """Splits a numeric format spec; returns (alt, zero, width, type)."""
    rest = spec
    alt = zero = False
    if rest.startswith("#"):
        alt = True
        rest = rest[1:]
    if rest.startswith("0"):
        zero = True
        rest = rest[1:]
    digits = ""
    while rest and rest[0].isdigit():
        digits += rest[0]
        rest = rest[1:]
    if rest not in ("d", "x", "X", "o", "b", ""):
        raise Unsupported(f"format spec {spec}")
    return alt, zero, int(digits or 0), rest or "d"


_FULL_SPEC = re.compile(
    r"(?:(.)?([<>=^]))?([-+ ])?(#)?(0)?([0-9]*)([dxXob]?)", re.DOTALL)


def full_spec(spec):
    """Splits an integer format spec into all its parts."""
    match = _FULL_SPEC.fullmatch(spec)
    if match is None:
        raise Unsupported(f"format spec {spec}")
    fill, align, sign, alt, zero, width, kind = match.groups()
    if zero and not align:
        fill, align = "0", "="
    elif zero and not fill:
        fill = "0"
    return (fill or " ", align or ">", sign or "-", bool(alt),
            int(width or 0), kind or "d")


def expand_full(value, spec):
    """The characters of an integer with alignment, sign or prefix."""
    fill, align, sign, alt, width, kind = full_spec(spec)
    head = []
    if isinstance(value, SymInt) and value.lo < 0 and value < 0:
        head = ["-"]
        value = -value
    elif isinstance(value, int) and value < 0:
        head = ["-"]
        value = -value
    elif sign != "-":
        head = [sign]
    if isinstance(value, SymInt):
        value = refine(value, 0, value.hi)
    if alt and kind != "d":
        head += ["0", kind]
    digits = (expand_int(value, kind) if isinstance(value, SymInt)
              else list(format(value, kind)))
    pad = width - len(head) - len(digits)
    if pad <= 0:
        return head + digits
    if align == "<":
        return head + digits + [fill] * pad
    if align == "=":
        return head + [fill] * pad + digits
    if align == "^":
        return [fill] * (pad // 2) + head + digits + [fill] * (
            pad - pad // 2)
    return [fill] * pad + head + digits


def expand_int(value, spec):
    if isinstance(value, int):
        return list(format(value, spec))
    try:
        alt, zero, width, kind = parse_spec(spec)
    except Unsupported:
        return expand_full(value, spec)
    if alt:
        return expand_full(value, spec)
    sign = []
    if value.lo < 0:
        if value < 0:
            sign = ["-"]
            value = -value
            if isinstance(value, int):
                return list(format(-value, spec))
            value = refine(value, 0, value.hi)
        else:
            value = refine(value, 0, value.hi)
        if isinstance(value, int):
            return list(format(-value if sign else value, spec))
    base = {"d": 10, "x": 16, "X": 16, "o": 8, "b": 2}[kind]
    maximum = 1
    while base ** maximum <= value.hi:
        maximum += 1
    count = 1
    minimum = width - len(sign) if zero else 1
    count = max(1, min(minimum, maximum))
    while count < maximum and not (value < base ** count):
        count += 1
    digits = []
    current = value
    for _ in range(count):
        if isinstance(current, int):
            current, digit = divmod(current, base)
        else:
            current, digit = divmod(current, base)
        char = digit_char(digit, kind == "X")
        digits.append(char)
    digits.reverse()
    pad = width - len(sign) - len(digits)
    if pad > 0:
        if zero:
            digits = ["0"] * pad + digits
        else:
            return [" "] * pad + sign + digits
    return sign + digits


def refine(value, lo, hi):
    """The same value with a narrower (already established) interval."""
    if isinstance(value, int):
        return value
    lo, hi = max(lo, value.lo), min(hi, value.hi)
    if lo == hi:
        return lo
    return make_int(fit(value, width_for(lo, hi)), lo, hi)


# --------------------------------------------------------------------------
# Formatting
# --------------------------------------------------------------------------


def canonical_spec(spec):
    if spec in ("", "d", "1d", "01d"):
        return "d"
    if spec in ("x", "01x", "1x"):
        return "x"
    if spec in ("X", "01X", "1X"):
        return "X"
    return spec


def format_value(value, spec=""):
    """format(value, spec) for possibly symbolic value."""
    if isinstance(spec, SymStr):
        raise Unsupported("symbolic format spec")
    if isinstance(value, SymBool):
        if spec in ("", "s"):
            return str(bool(value))
        value = value._num()
    if isinstance(value, SymInt):
        if spec and spec[-1] in "s":
            raise ValueError(
                f"Unknown format code 's' for object of type 'int'")
        if spec and spec[-1] in "fFeEgG%":
            return make_str([Atom(f"int:{spec}", (value,))])
        if spec[-1:] == "c":
            return format_char(value, spec)
        if spec not in ("", "d", "x"):
            # An invalid format is the same for every number.
            format(value.lo, spec)
        prefix = ""
        if spec.startswith("#"):
            alt, zero, width, kind = parse_spec(spec)
            if kind in "xX" and (width == 0 or zero) and value.lo >= 0:
                prefix = "0" + kind
                spec = f"0{max(1, width - 2)}{kind}"
            else:
                return make_str([Atom(f"int:{spec}", (value,))])
        else:
            try:
                parse_spec(spec)
            except Unsupported:
                return make_str([Atom(f"int:{spec}", (value,))])
        return make_str([prefix, Atom("int:" + canonical_spec(spec), (value,))])
    if isinstance(value, SymStr):
        if spec in ("", "s"):
            return value
        if spec[-1] in "dxXobc":
            raise ValueError(
                f"Unknown format code '{spec[-1]}' for object of type 'str'")
        return pad_text(value, spec)
    if isinstance(value, SymBytes):
        if spec == "":
            return sym_repr(value)
        raise TypeError(
            "unsupported format string passed to bytes.__format__")
    if isinstance(value, SymFloat):
        format(0.0, spec)
        return make_str([Atom(f"float{value.size}:{spec}", (value.bits,))])
    if isinstance(value, SymRatio):
        return make_str([Atom(f"ratio:{value.denominator}:{spec}",
                              (value.numerator,))])
    if is_sym_container(value):
        if spec == "":
            return sym_str(value)
        raise TypeError(
            f"unsupported format string passed to "
            f"{type(value).__name__}.__format__")
    if hasattr(value, "__sym_format__"):
        return value.__sym_format__(spec)
    return format(value, spec)


def format_char(value, spec):
    """A number formatted as a character."""
    format(32, spec)
    if value.lo < 0 or value.hi > 0x10ffff:
        if not (value >= 0 and value <= 0x10ffff):
            raise OverflowError("%c arg not in range(0x110000)")
        value = refine(value, 0, 0x10ffff)
    if spec == "c":
        return make_str([value])
    if isinstance(value, int):
        return format(value, spec)
    rest = spec[:-1]
    fill, align = " ", "<"
    if len(rest) > 1 and rest[1] in "<>^=":
        fill, align, rest = rest[0], rest[1], rest[2:]
    elif rest and rest[0] in "<>^=":
        align, rest = rest[0], rest[1:]
    elif rest and rest[0] == "0":
        fill, align = "0", "="
    if (rest and not rest.isdigit()) or align == "^":
        raise Unsupported(f"character format spec {spec}")
    pad = [fill] * max(0, int(rest or 0) - 1)
    return make_str([value] + pad if align == "<" else pad + [value])


def pad_text(value, spec):
    format("", spec)
    rest = spec[:-1] if spec.endswith("s") else spec
    fill, align = " ", "<"
    rest, point, precision = rest.partition(".")
    if point:
        if not precision.isdigit():
            raise Unsupported(f"text format spec {spec}")
        value = make_str(value.chars()[:int(precision)])
        if not isinstance(value, SymStr):
            return format(value, rest + "s")
        if not rest:
            return value
    if len(rest) > 1 and rest[1] in "<>^":
        fill, align, rest = rest[0], rest[1], rest[2:]
    elif rest and rest[0] in "<>^":
        align, rest = rest[0], rest[1:]
    elif rest and rest[0] == "0":
        fill = "0"
    if not rest:
        return value
    if not rest.isdigit() or align == "^":
        raise Unsupported(f"text format spec {spec}")
    chars = value.chars()
    pad = [fill] * max(0, int(rest) - len(chars))
    return make_str(pad + chars if align == ">" else chars + pad)


def is_sym_container(value):
    if type(value) in (tuple, list):
        return any(is_sym(x) or is_sym_container(x) for x in value)
    if type(value) is dict:
        return any(is_sym(x) or is_sym_container(x)
                   for pair in value.items() for x in pair)
    return False


def sym_str(value):
    """str(value)."""
    if isinstance(value, SymStr):
        return value
    if isinstance(value, SymInt):
        return format_value(value, "d")
    if isinstance(value, SymBool):
        return str(bool(value))
    if isinstance(value, BaseException):
        if len(value.args) == 1:
            return sym_str(value.args[0])
        return str(value) if not any(is_sym(a) for a in value.args) \
            else sym_repr(value.args)
    if hasattr(value, "__sym_str__"):
        return value.__sym_str__()
    if is_sym(value) or is_sym_container(value):
        return sym_repr(value)
    return str(value)


_REPR_SAFE_KINDS = ("int:",)


def sym_repr(value):
    if isinstance(value, SymStr):
        safe = True
        for item in value.items:
            if isinstance(item, str):
                if "'" in item or "\\" in item or not item.isprintable():
                    safe = False
            elif isinstance(item, Atom) and item.kind.startswith("int:"):
                pass
            elif isinstance(item, Atom) and item.kind == "lookup":
                table, default = item.extra
                for text in [v for _, v in table] + [default or ""]:
                    if "'" in text or not text.isprintable():
                        safe = False
            elif isinstance(item, Atom) and item.kind in REPR_SAFE:
                pass
            else:
                safe = False
        if safe:
            return make_str(["'", value, "'"])
        return make_str([Atom("repr", (value,))])
    if isinstance(value, SymInt):
        return format_value(value, "d")
    if isinstance(value, SymBool):
        return repr(bool(value))
    if isinstance(value, SymBytes):
        return make_str([Atom("repr", (value,))])
    if isinstance(value, SymFloat):
        return make_str([Atom(f"float{value.size}:", (value.bits,))])
    if type(value) is tuple:
        if len(value) == 1:
            return make_str(["(", sym_repr(value[0]), ",)"])
        parts = ["("]
        for i, item in enumerate(value):
            if i:
                parts.append(", ")
            parts.append(sym_repr(item))
        parts.append(")")
        return make_str(parts)
    if type(value) is list:
        parts = ["["]
        for i, item in enumerate(value):
            if i:
                parts.append(", ")
            parts.append(sym_repr(item))
        parts.append("]")
        return make_str(parts)
    if type(value) is dict:
        parts = ["{"]
        for i, (k, v) in enumerate(value.items()):
            if i:
                parts.append(", ")
            parts.extend([sym_repr(k), ": ", sym_repr(v)])
        parts.append("}")
        return make_str(parts)
    if hasattr(value, "__sym_repr__"):
        return value.__sym_repr__()
    return repr(value)


REPR_SAFE = set()


@renderer("repr")
def _render_repr(value):
    return repr(value)


def render_prefixed(kind):
    if kind.startswith("float"):
        size, spec = kind[5:].split(":", 1)
        return int(size), spec
    return None


def _render_float(atom, bits):
    import struct
    size, spec = render_prefixed(atom.kind)
    value = struct.unpack("<f" if size == 4 else "<d",
                          bits.to_bytes(size, "little"))[0]
    return format(value, spec)


# --------------------------------------------------------------------------
# Text equality
# --------------------------------------------------------------------------


def text_eq(a, b):
    """Condition for two texts to be equal (may fork to resolve atoms)."""
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    left = list(str_items(a))
    right = list(str_items(b))
    conditions = []
    while True:
        if not left or not right:
            rest = left or right
            if not rest:
                break
            if any(isinstance(x, (str, SymInt)) for x in rest):
                return False
            if any(x.kind.startswith("int:") for x in rest):
                return False
            # Only atoms that might be empty.
            for item in rest:
                conditions.append(atom_empty(item))
            break
        x, y = left[0], right[0]
        if isinstance(x, str) and isinstance(y, str):
            size = min(len(x), len(y))
            if x[:size] != y[:size]:
                return False
            _advance(left, size)
            _advance(right, size)
            continue
        if isinstance(x, Atom) and isinstance(y, Atom):
            if x.kind == "lookup" and y.kind == "lookup":
                cond = lookup_eq(x, y)
                if cond is not None:
                    conditions.append(cond)
                    left.pop(0)
                    right.pop(0)
                    continue
            if x.same_kind(y):
                conditions.append(sym_and(
                    [deep_eq(p, q) for p, q in zip(x.args, y.args)]))
                left.pop(0)
                right.pop(0)
                continue
            left[0:1] = text_pieces(expand_atom(x))
            right[0:1] = text_pieces(expand_atom(y))
            continue
        if isinstance(x, Atom) or isinstance(y, Atom):
            if isinstance(y, Atom):
                atom, own, rest = y, right, left
            else:
                atom, own, rest = x, left, right
            cond = match_atom_text(atom, own, rest)
            if cond is None:
                pieces = text_pieces(expand_atom(atom))
                own[0:1] = pieces
                continue
            if cond is False:
                return False
            conditions.append(cond)
            continue
        # A symbolic character on at least one side.
        cx = x[0] if isinstance(x, str) else x
        cy = y[0] if isinstance(y, str) else y
        cond = char_eq(cx, cy)
        if cond is False:
            return False
        conditions.append(cond)
        _advance(left, 1)
        _advance(right, 1)
    return sym_and(conditions)


def text_pieces(chars):
    result = []
    for char in chars:
        _append(result, char)
    return result


def atom_empty(atom):
    if atom.kind.startswith("decode:"):
        return len(atom.args[0]) == 0
    if atom.kind == "lookup":
        return resolve_lookup(atom) == ""
    return False


def _advance(items, size):
    head = items[0]
    if isinstance(head, str) and len(head) > size:
        items[0] = head[size:]
    else:
        items.pop(0)


def match_atom_text(atom, own, rest):
    """Matches an integer atom against concrete text; None when undecided."""
    if not atom.kind.startswith("int:") or not isinstance(rest[0], str):
        return None
    kind = atom.kind[4:]
    try:
        _, zero, width, code = parse_spec(kind)
    except Unsupported:
        return None
    if width and not zero:
        return None
    follow = own[1] if len(own) > 1 else None
    if follow is not None and not isinstance(follow, str):
        return None
    alphabet = {"d": "0123456789", "x": "0123456789abcdef",
                "X": "0123456789ABCDEF", "o": "01234567", "b": "01"}[code]
    if follow and (follow[0] in alphabet or follow[0] == "-"):
        return None
    text = rest[0]
    end = 0
    if text.startswith("-"):
        end = 1
    while end < len(text) and text[end] in alphabet:
        end += 1
    if end == len(text) and len(rest) > 1:
        return None
    token = text[:end]
    base = {"d": 10, "x": 16, "X": 16, "o": 8, "b": 2}[code]
    try:
        number = int(token, base)
    except ValueError:
        return False
    if format(number, kind) != token:
        return False
    own.pop(0)
    _advance(rest, end)
    return atom.args[0] == number


def lookup_eq(x, y):
    tx, dx = x.extra
    ty, dy = y.extra
    mx, my = dict(tx), dict(ty)
    key_x, key_y = x.args[0], y.args[0]
    same_key = deep_eq(key_x, key_y)
    if dx != dy:
        return None
    differing = [k for k in set(mx) | set(my)
                 if mx.get(k, dx) != my.get(k, dy)]
    conds = [same_key]
    for k in differing:
        conds.append(sym_not(key_x == k))
    return sym_and(conds)


# --------------------------------------------------------------------------
# Generic helpers
# --------------------------------------------------------------------------

SYM_TYPES = (SymInt, SymBytes, SymStr, SymBool, SymFloat, SymRatio)


def is_sym(value):
    return isinstance(value, SYM_TYPES)


def has_sym(value, depth=3):
    if isinstance(value, SYM_TYPES):
        return True
    if depth and isinstance(value, (list, tuple, set, frozenset)):
        return any(has_sym(x, depth - 1) for x in value)
    if depth and isinstance(value, dict):
        return any(has_sym(k, depth - 1) or has_sym(v, depth - 1)
                   for k, v in value.items())
    return bool(getattr(type(value), "__is_sym__", False))


PY_TYPES = {SymInt: int, SymBytes: bytes, SymStr: str, SymBool: bool,
            SymFloat: float, SymRatio: float}


def py_type(value):
    known = PY_TYPES.get(type(value))
    if known:
        return known
    return getattr(type(value), "__py_type__", type(value))


def deep_eq(a, b):
    """Structural equality as bool or SymBool (type-strict for bool/None)."""
    if a is b:
        return True
    ta, tb = py_type(a), py_type(b)
    if ta in (list, tuple) and tb in (list, tuple):
        if ta is not tb or len(a) != len(b):
            return False
        out = []
        for x, y in zip(a, b):
            cond = deep_eq(x, y)
            if cond is False:
                return False
            out.append(cond)
        return sym_and(out)
    if ta is dict and tb is dict:
        return deep_eq(list(a.items()), list(b.items()))
    if ta is not tb:
        return False
    if isinstance(a, (SymFloat,)) or isinstance(b, (SymFloat,)):
        if isinstance(a, SymFloat) and isinstance(b, SymFloat) \
                and a.size == b.size:
            return deep_eq(a.bits, b.bits)
        raise Unsupported("comparison of symbolic float")
    if ta is str:
        return text_eq(a, b)
    result = a == b
    if isinstance(result, SymBool) or isinstance(result, bool):
        return result
    return bool(result)


def concretise(value, model):
    """The concrete Python value of a symbolic value under a model."""
    if isinstance(value, SymInt):
        return evaluate_int(value, model)
    if isinstance(value, SymBool):
        return z3.is_true(model.eval(value.t, model_completion=True))
    if isinstance(value, SymBytes):
        return bytes(evaluate_int(x, model) for x in value.items)
    if isinstance(value, SymStr):
        parts = []
        for item in value.items:
            if isinstance(item, str):
                parts.append(item)
            elif isinstance(item, SymInt):
                parts.append(chr(evaluate_int(item, model)))
            else:
                args = [concretise(x, model) for x in item.args]
                if item.kind.startswith("float"):
                    parts.append(_render_float(item, args[0]))
                else:
                    parts.append(render_atom(item, args))
        return "".join(parts)
    if isinstance(value, SymFloat):
        import struct
        bits = concretise(value.bits, model)
        return struct.unpack("<f" if value.size == 4 else "<d",
                             bits.to_bytes(value.size, "little"))[0]
    if isinstance(value, SymRatio):
        return concretise(value.numerator, model) / value.denominator
    if isinstance(value, tuple):
        return tuple(concretise(x, model) for x in value)
    if isinstance(value, list):
        return [concretise(x, model) for x in value]
    if isinstance(value, dict):
        return {concretise(k, model): concretise(v, model)
                for k, v in value.items()}
    if hasattr(type(value), "__sym_concretise__"):
        return value.__sym_concretise__(model)
    return value


def new_byte(name):
    return SymInt(z3.BitVec(name, 8), 0, 255)


def new_int(name, lo, hi):
    """A fresh integer in [lo, hi]; the caller assumes the range."""
    width = width_for(lo, hi)
    t = z3.BitVec(name, width)
    full_lo = -(1 << (width - 1)) if lo < 0 else 0
    full_hi = (1 << (width - 1)) - 1 if lo < 0 else (1 << width) - 1
    value = SymInt(t, full_lo, full_hi)
    if full_lo < lo:
        ENGINE.assume(value >= lo)
    if full_hi > hi:
        ENGINE.assume(value <= hi)
    value = SymInt(t, full_lo, full_hi)
    return value
