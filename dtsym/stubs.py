"""Models of third-party libraries (outside the code under analysis).

They are opaque: a rendering of a symbolic timestamp is an atom identified by
the timestamp, so two renderings are equal exactly when the solver shows the
timestamps are.  The text of an atom under a model comes from the real library.
"""

import datetime
import logging
import base64
import zlib

from dfdatetime import cocoa_time
from dfdatetime import filetime
from dfdatetime import hfs_time
from dfdatetime import posix_time
from dfdatetime import rfc2579_date_time

from dtsym import core
from dtsym import regex
from dtsym import runtime
from dtsym.core import (
    Atom, SymFloat, SymInt, Unsupported, has_sym, make_str, sym_and, sym_or)

_DATE_CHARS = set("0123456789-: .+")


class SymTime:
    """A dfdatetime object of a symbolic timestamp."""

    __is_sym__ = True

    def __init__(self, kind, timestamp, lo, hi):
        self._kind = kind
        self._ts = timestamp
        self._lo = lo
        self._hi = hi
        self.is_local_time = False

    @property
    def timestamp(self):
        return self._ts

    def CopyToDateTimeString(self):
        if isinstance(self._ts, SymInt):
            conditions = []
            if self._lo is not None:
                conditions.append(self._ts >= self._lo)
            if self._hi is not None:
                conditions.append(self._ts <= self._hi)
            if not bool(sym_and(conditions)):
                return None
        return make_str([Atom(f"time:{self._kind}", (self._ts,))])

    def __getattr__(self, name):
        raise Unsupported(f"dfdatetime attribute {name}")


def _register(cls, kind, lo, hi):
    def construct(*args, **kwargs):
        timestamp = kwargs.get("timestamp")
        if set(kwargs) != {"timestamp"} or args or not has_sym(timestamp):
            if has_sym(args) or has_sym(kwargs):
                raise Unsupported(f"dfdatetime {cls.__name__} arguments")
            return cls(*args, **kwargs)
        return SymTime(kind, timestamp, lo, hi)

    runtime.FUNCS[id(cls)] = construct
    runtime._KEEP.append(cls)
    core.RENDERERS[f"time:{kind}"] = (
        lambda value: cls(timestamp=value).CopyToDateTimeString())
    core.CHAR_FREE[f"time:{kind}"] = lambda char: _no(char)
    core.REPR_SAFE.add(f"time:{kind}")


def _no(char):
    if char in _DATE_CHARS:
        raise Unsupported("search in a date and time string")
    return False


_register(filetime.Filetime, "filetime", 0, (1 << 64) - 1)
_register(hfs_time.HFSTime, "hfs", 0, (1 << 32) - 1)
_register(posix_time.PosixTime, "posix", None, None)
_register(posix_time.PosixTimeInMicroseconds, "posix_us", None, None)
_register(posix_time.PosixTimeInMilliseconds, "posix_ms", None, None)
_register(posix_time.PosixTimeInNanoseconds, "posix_ns", None, None)
_register(cocoa_time.CocoaTime, "cocoa", None, None)


# --------------------------------------------------------------------------
# datetime + timedelta(microseconds=symbolic)
# --------------------------------------------------------------------------

_EPOCH = datetime.datetime(1, 1, 1)
_MAX_US = (datetime.datetime.max - _EPOCH) // datetime.timedelta(
    microseconds=1)
_MAX_DELTA_DAYS = 999999999


class SymDelta:
    __py_type__ = datetime.timedelta
    __is_sym__ = True

    def __init__(self, microseconds=None, seconds=None):
        self.microseconds_total = microseconds
        self.seconds_float = seconds

    def __radd__(self, other):
        if not isinstance(other, datetime.datetime):
            return NotImplemented
        if self.microseconds_total is None:
            base = (other - _EPOCH) // datetime.timedelta(seconds=1)
            total = self.seconds_float.integer() + base
            if bool(sym_or([total < 0, total > _MAX_US // 1000000])):
                raise OverflowError("date value out of range")
            return SymDateTime(other, None, self.seconds_float)
        base = (other - _EPOCH) // datetime.timedelta(microseconds=1)
        total = self.microseconds_total + base
        if bool(sym_or([total < 0, total > _MAX_US])):
            raise OverflowError("date value out of range")
        return SymDateTime(None, total, None)

    __add__ = __radd__


class SymDateTime:
    __py_type__ = datetime.datetime
    __is_sym__ = True

    def __init__(self, base, total, seconds):
        self.base = base
        self.total = total
        self.seconds = seconds

    def __sym_str__(self):
        if self.total is not None:
            return make_str([Atom("datetime", (self.total,))])
        return make_str([Atom("datetime+", (self.seconds,),
                              (self.base,))])

    def __sym_format__(self, spec):
        if spec:
            raise Unsupported("strftime")
        return self.__sym_str__()

    def isoformat(self, *args):
        raise Unsupported("isoformat")

    def __str__(self):
        raise Unsupported("native str of symbolic datetime")

    def __eq__(self, other):
        if isinstance(other, SymDateTime):
            if self.total is not None and other.total is not None:
                return self.total == other.total
        raise Unsupported("comparison of symbolic datetimes")

    __hash__ = None

    def __sym_concretise__(self, model):
        if self.total is not None:
            return _EPOCH + datetime.timedelta(
                microseconds=core.concretise(self.total, model))
        return self.base + datetime.timedelta(
            seconds=core.concretise(self.seconds, model))


core.RENDERERS["datetime"] = lambda total: str(
    _EPOCH + datetime.timedelta(microseconds=total))
core.RENDERERS["datetime+"] = lambda seconds, extra: str(
    extra[0] + datetime.timedelta(seconds=seconds))
core.CHAR_FREE["datetime"] = _no
core.CHAR_FREE["datetime+"] = _no


def _timedelta(*args, **kwargs):
    if not has_sym(args) and not has_sym(kwargs):
        return datetime.timedelta(*args, **kwargs)
    if not args and set(kwargs) == {"microseconds"} and isinstance(
            kwargs["microseconds"], SymInt):
        value = kwargs["microseconds"]
        limit = _MAX_DELTA_DAYS * 86400 * 1000000
        if bool(sym_or([value > limit + 86399999999, value < -limit])):
            raise OverflowError("days out of range")
        return SymDelta(microseconds=value)
    if not args and set(kwargs) == {"seconds"}:
        value = kwargs["seconds"]
        if isinstance(value, SymInt):
            return _timedelta(microseconds=value * 1000000)
        if isinstance(value, SymFloat):
            limit = _MAX_DELTA_DAYS * 86400
            whole = value.integer()
            if bool(sym_or([whole > limit + 86399, whole < -limit])):
                raise OverflowError("days out of range")
            return SymDelta(seconds=value)
    raise Unsupported("datetime.timedelta arguments")


runtime.FUNCS[id(datetime.timedelta)] = _timedelta


# --------------------------------------------------------------------------
# Text length of a date and time string never matters to the code under
# analysis; truth does: it is never empty.
# --------------------------------------------------------------------------


# --------------------------------------------------------------------------
# Hexadecimal dumps (the real formatter is decided by its own property)
# --------------------------------------------------------------------------


def _render_hexdump(data):
    from props import lib
    return lib.hexdump_text(data)[:-2]


core.RENDERERS["hexdump"] = _render_hexdump
core.CHAR_FREE["hexdump"] = lambda char: char == "\n" and _maybe()


def _maybe():
    raise Unsupported("search in a hexadecimal dump")


# --------------------------------------------------------------------------
# Log messages are not part of any property.
# --------------------------------------------------------------------------


def _no_log(*args, **kwargs):
    return None


for _function in (logging.debug, logging.info, logging.warning, logging.error,
                  logging.critical, logging.exception):
    runtime.FUNCS[id(_function)] = _no_log
    runtime._KEEP.append(_function)


# --------------------------------------------------------------------------
# RFC 2579 date and time values
# --------------------------------------------------------------------------

_DAYS = (31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)


class SymDateTuple:
    __is_sym__ = True

    def __init__(self, values):
        self.values = values

    def CopyToDateTimeString(self):
        parts = [core.format_value(value, spec) for value, spec in zip(
            self.values, ("04d", "02d", "02d", "02d", "02d", "02d", "01d"))]
        result = parts[0]
        for separator, part in zip("-- ::.", parts[1:]):
            result = result + separator + part
        return result


def _rfc2579(*args, **kwargs):
    if not has_sym(args) and not has_sym(kwargs):
        return rfc2579_date_time.RFC2579DateTime(*args, **kwargs)
    if args or set(kwargs) != {"rfc2579_date_time_tuple"}:
        raise Unsupported("RFC2579DateTime arguments")
    values = kwargs["rfc2579_date_time_tuple"]
    if len(values) < 10:
        raise ValueError("Invalid RFC2579 date-time tuple")
    year, month, day = values[:3]
    leap = sym_and([year % 4 == 0,
                    sym_or([year % 100 != 0, year % 400 == 0])])
    allowed = [sym_and([month == index + 1, day >= 1, day <= days])
               for index, days in enumerate(_DAYS)]
    allowed.append(sym_and([month == 2, day == 29, leap]))
    conditions = [year >= 0, year <= 9999, sym_or(allowed)]
    for value, high in zip(values[3:7] + values[8:10], (23, 59, 59, 9, 13, 59)):
        conditions.append(sym_and([value >= 0, value <= high]))
    conditions.append(sym_or([values[7] == "+", values[7] == "-"]))
    if not bool(sym_and(conditions)):
        raise ValueError("value out of bounds")
    return SymDateTuple(values[:7])


runtime.FUNCS[id(rfc2579_date_time.RFC2579DateTime)] = _rfc2579


# --------------------------------------------------------------------------
# zlib: only compressed data that does not depend on the input
# --------------------------------------------------------------------------


class SymDecompressor:
    def __init__(self, *args, **kwargs):
        self._real = zlib.decompressobj(*args, **kwargs)
        self.unused_data = b""
        self.unconsumed_tail = b""

    @property
    def eof(self):
        return self._real.eof

    def decompress(self, data, max_length=0):
        if max_length:
            raise Unsupported("decompress with a maximum length")
        if isinstance(data, (bytes, bytearray)):
            items = list(data)
        else:
            items = list(core.byte_items(data))
        if self._real.eof:
            self.unused_data = core.make_bytes(
                list(core.byte_items(self.unused_data)) + items)
            return b""
        result = []
        for index, item in enumerate(items):
            if not isinstance(item, int):
                raise Unsupported("compressed data depends on the input")
            result.append(self._real.decompress(bytes([item])))
            if self._real.eof:
                self.unused_data = core.make_bytes(
                    list(core.byte_items(self._real.unused_data))
                    + items[index + 1:])
                break
        return b"".join(result)

    def flush(self, *args):
        return self._real.flush(*args)


runtime.FUNCS[id(zlib.decompressobj)] = SymDecompressor
runtime._KEEP.append(zlib.decompressobj)


def _by_name():
    """A data type looked up by a symbolic name: one path for every name."""
    from dtfabric import registry
    kind = registry.DataTypeDefinitionsRegistry
    original = kind.GetDefinitionByName
    if getattr(original, "__dts__", False):
        return

    def find(self, name):
        return original(self, runtime.choose_text(name))

    find.__dts__ = True
    kind.GetDefinitionByName = find


_by_name()

_FLOAT_CHARS = set("0123456789.-+infae")
for _kind in ("float4:f", "float8:f"):
    core.CHAR_FREE[_kind] = lambda char: (
        _maybe() if char in _FLOAT_CHARS else False)


# --------------------------------------------------------------------------
# base64
# --------------------------------------------------------------------------

_ALPHABET = (b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"
             b"0123456789+/")


def _b64encode(data, altchars=None):
    if isinstance(data, (bytes, bytearray)):
        return base64.b64encode(data, altchars)
    if altchars is not None:
        raise Unsupported("base64 with another alphabet")
    items = list(core.byte_items(data))
    result = []
    for index in range(0, len(items), 3):
        chunk = items[index:index + 3]
        count = len(chunk)
        chunk = chunk + [0] * (3 - count)
        indexes = [
            chunk[0] >> 2, (chunk[0] & 3) << 4 | chunk[1] >> 4,
            (chunk[1] & 15) << 2 | chunk[2] >> 6, chunk[2] & 63]
        for number, value in enumerate(indexes):
            if number > count:
                result.append(61)
            elif isinstance(value, int):
                result.append(_ALPHABET[value])
            else:
                result.append(core.mux(list(_ALPHABET), value))
    return core.make_bytes(result)


runtime.FUNCS[id(base64.b64encode)] = _b64encode
runtime._KEEP.append(base64.b64encode)
