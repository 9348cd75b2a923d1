"""The helpers instrumented code calls, and models of Python builtins.

Each model is exact for the values it accepts; anything not modelled raises
Unsupported, which ends the path as inconclusive (never as a verdict).
"""

import builtins
import collections
import enum
import functools
import io
import re
import string
import struct
import types
import uuid

import z3

from dtsym import core
from dtsym.core import (
    Atom, SymBool, SymBytes, SymFloat, SymInt, SymRatio, SymStr, Unsupported,
    bounds, byte_items, combine_bytes, deep_eq, format_value, has_sym, is_sym,
    ite_int, make_bool, make_bytes, make_str, mux, py_type, sym_and, sym_not,
    sym_or, sym_repr, sym_str)

FUNCS = {}
_KEEP = []


def models(function):
    """Registers a model for a callable (matched by identity)."""
    def register(handler):
        FUNCS[id(function)] = handler
        _KEEP.append(function)
        return handler
    return register


METHS = {}


def models_method(kind, *names):
    def register(handler):
        for name in names:
            METHS[(kind, name)] = handler
        return handler
    return register


# --------------------------------------------------------------------------
# Mutable byte arrays
# --------------------------------------------------------------------------


class SymByteArray:
    """bytearray whose elements may be symbolic."""

    __py_type__ = bytearray
    __is_sym__ = True

    def __init__(self, items=()):
        self.items = list(items)

    def __len__(self):
        return len(self.items)

    def __bool__(self):
        return bool(self.items)

    def __iter__(self):
        return iter(list(self.items))

    def __getitem__(self, index):
        if isinstance(index, slice):
            start, stop, step = core.resolve_slice(index, len(self.items))
            return SymByteArray(self.items[start:stop:step])
        if isinstance(index, (SymInt, SymBool)):
            index = core.resolve_index(index, len(self.items), "bytearray")
            return mux(list(self.items), index)
        return self.items[index]

    def __setitem__(self, index, value):
        if isinstance(index, slice):
            start, stop, step = core.resolve_slice(index, len(self.items))
            self.items[start:stop:step] = list(byte_items(value)) \
                if not isinstance(value, SymByteArray) else list(value.items)
            return
        if isinstance(value, SymInt):
            if bool(sym_or([value < 0, value > 255])):
                raise ValueError("byte must be in range(0, 256)")
        elif not 0 <= value <= 255:
            raise ValueError("byte must be in range(0, 256)")
        if isinstance(index, SymInt):
            index = core.resolve_index(index, len(self.items), "bytearray")
            for i, item in enumerate(self.items):
                self.items[i] = ite_int(index == i, value, item)
            return
        self.items[index] = value

    def append(self, value):
        self.items.append(0)
        self[len(self.items) - 1] = value

    def extend(self, values):
        for value in values:
            self.append(value)

    def __iadd__(self, other):
        self.items.extend(_bytes_like(other))
        return self

    def __add__(self, other):
        return SymByteArray(self.items + list(_bytes_like(other)))

    def __eq__(self, other):
        if not isinstance(other, (bytes, bytearray, SymBytes, SymByteArray)):
            return False
        return _lift_bytes(self.items) == make_bytes(_bytes_like(other))

    __hash__ = None

    def clear(self):
        self.items.clear()

    def reverse(self):
        self.items.reverse()

    def pop(self, index=-1):
        return self.items.pop(index)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(SymBytes(tuple(self.items)), name)

    def __sym_concretise__(self, model):
        return bytearray(core.concretise(make_bytes(self.items), model))


def _lift_bytes(items):
    return SymBytes(tuple(items))


def _bytes_like(value):
    if isinstance(value, SymByteArray):
        return value.items
    if isinstance(value, (bytes, bytearray, SymBytes)):
        return byte_items(value)
    raise TypeError(f"a bytes-like object is required, not "
                    f"'{py_type(value).__name__}'")


def lift_str(value):
    return value if isinstance(value, SymStr) else SymStr(
        (value,) if value else ())


# --------------------------------------------------------------------------
# Dictionaries and sets with symbolic keys
# --------------------------------------------------------------------------

SYMKEYED = {}


def reset_path():
    SYMKEYED.clear()
    core.HASHES.clear()


def _mark(container):
    SYMKEYED[id(container)] = container


def _is_marked(container):
    return SYMKEYED.get(id(container)) is container


def _needs_symbolic(container, key):
    return has_sym(key) or _is_marked(container)


def _find_key(container, key):
    """The key of the container equal to key, or None (forks); a 1-tuple."""
    for candidate in list(container):
        condition = deep_eq_key(candidate, key)
        if condition is True or (condition is not False and bool(condition)):
            return (candidate,)
    return None


def deep_eq_key(a, b):
    ta, tb = py_type(a), py_type(b)
    if ta in (int, bool) and tb in (int, bool):
        return a == b
    if ta is not tb:
        return False
    return deep_eq(a, b)


def dict_lookup(container, key, default, has_default):
    """container[key] or container.get(key, default)."""
    if not _needs_symbolic(container, key):
        if has_default:
            return container.get(key, default)
        return container[key]
    values = list(container.values())
    simple_keys = not _is_marked(container) and isinstance(key, (SymInt, SymStr))
    if isinstance(key, SymInt) and simple_keys and all(
            type(k) is int for k in container):
        live = {k: v for k, v in container.items() if key.lo <= k <= key.hi}
        if not live:
            if has_default:
                return default
            raise KeyError(key)
        distinct = {id(v): v for v in live.values()}
        if all(type(v) is str for v in distinct.values()):
            table = tuple(sorted(live.items()))
            if has_default and type(default) is str:
                return make_str([Atom("lookup", (key,), (table, default))])
            if bool(sym_or([key == k for k in live])):
                return make_str([Atom("lookup", (key,), (table, None))])
            if has_default:
                return default
            raise KeyError(key)
        if all(type(v) is int for v in distinct.values()):
            if bool(sym_or([key == k for k in live])):
                result = None
                for k, v in live.items():
                    result = v if result is None else ite_int(
                        key == k, v, result)
                return result
            if has_default:
                return default
            raise KeyError(key)
        # Fork per distinct value.
        groups = {}
        for k, v in live.items():
            groups.setdefault(id(v), (v, []))[1].append(k)
        for value, keys in groups.values():
            if bool(sym_or([key == k for k in keys])):
                return value
        if has_default:
            return default
        raise KeyError(key)
    found = _find_key(container, key)
    if found is not None:
        return _native_get(container, found[0])
    if has_default:
        return default
    raise KeyError(key)


def _native_get(container, key):
    if has_sym(key):
        for k, v in container.items():
            if k is key:
                return v
        raise Unsupported("lost symbolic key")
    return container[key]


def dict_store(container, key, value):
    if not _needs_symbolic(container, key):
        container[key] = value
        return
    found = _find_key(container, key)
    target = found[0] if found is not None else key
    if has_sym(target):
        _mark(container)
        core.HASH_ALLOWED[0] = True
        try:
            container[target] = value
        finally:
            core.HASH_ALLOWED[0] = False
    else:
        container[target] = value


def dict_delete(container, key):
    if not _needs_symbolic(container, key):
        return container.pop(key)
    found = _find_key(container, key)
    if found is None:
        raise KeyError(key)
    core.HASH_ALLOWED[0] = True
    try:
        return container.pop(found[0])
    finally:
        core.HASH_ALLOWED[0] = False


def set_add(container, value):
    if not _needs_symbolic(container, value):
        container.add(value)
        return
    if _find_key(container, value) is None:
        if has_sym(value):
            _mark(container)
        core.HASH_ALLOWED[0] = True
        try:
            container.add(value)
        finally:
            core.HASH_ALLOWED[0] = False


def container_has(container, value):
    """value in container, as bool or SymBool."""
    if isinstance(value, SymInt) and not _is_marked(container):
        keys = [k for k in container if type(k) in (int, bool)
                and value.lo <= k <= value.hi]
        keys.sort()
        # Contiguous runs become range tests.
        conditions = []
        i = 0
        while i < len(keys):
            j = i
            while j + 1 < len(keys) and keys[j + 1] == keys[j] + 1:
                j += 1
            if j - i >= 2:
                conditions.append(
                    sym_and([value >= keys[i], value <= keys[j]]))
            else:
                conditions.extend(value == k for k in keys[i:j + 1])
            i = j + 1
        return sym_or(conditions)
    return sym_or([deep_eq_key(k, value) for k in container])


@models_method(dict, "get")
def _dict_get(self, key, default=None):
    return dict_lookup(self, key, default, True)


@models_method(dict, "pop")
def _dict_pop(self, key, *default):
    if not _needs_symbolic(self, key):
        return self.pop(key, *default)
    try:
        return dict_delete(self, key)
    except KeyError:
        if default:
            return default[0]
        raise


@models_method(dict, "move_to_end")
def _dict_move_to_end(self, key, last=True):
    # Of an ordered dictionary.
    found = _find_key(self, key)
    if found is None:
        raise KeyError(key)
    core.HASH_ALLOWED[0] = True
    try:
        moved = (found[0], self.pop(found[0]))
        others = [] if last else list(self.items())
        if not last:
            for other, _ in others:
                self.pop(other)
        for other, value in [moved] + others:
            self[other] = value
    finally:
        core.HASH_ALLOWED[0] = False


@models_method(dict, "popitem")
def _dict_popitem(self, last=True):
    if not self:
        raise KeyError("dictionary is empty")
    core.HASH_ALLOWED[0] = True
    try:
        key = list(self)[-1 if last else 0]
        return key, self.pop(key)
    finally:
        core.HASH_ALLOWED[0] = False


@models_method(dict, "setdefault")
def _dict_setdefault(self, key, default=None):
    if not _needs_symbolic(self, key):
        return self.setdefault(key, default)
    found = _find_key(self, key)
    if found is not None:
        return _native_get(self, found[0])
    dict_store(self, key, default)
    return default


@models_method(dict, "update")
def _dict_update(self, *args, **kwargs):
    for arg in args:
        pairs = arg.items() if isinstance(arg, dict) else arg
        for key, value in pairs:
            dict_store(self, key, value)
    for key, value in kwargs.items():
        dict_store(self, key, value)


@models_method(set, "add")
def _set_add(self, value):
    set_add(self, value)


@models_method(set, "update")
def _set_update(self, *others):
    for other in others:
        for value in other:
            set_add(self, value)


def _set_take(self, value):
    found = _find_key(self, value)
    if found is None:
        return False
    core.HASH_ALLOWED[0] = True
    try:
        self.discard(found[0])
    finally:
        core.HASH_ALLOWED[0] = False
    return True


@models_method(set, "discard")
def _set_discard(self, value):
    if not _needs_symbolic(self, value):
        self.discard(value)
    else:
        _set_take(self, value)


@models_method(set, "remove")
def _set_remove(self, value):
    if not _needs_symbolic(self, value):
        self.remove(value)
    elif not _set_take(self, value):
        raise KeyError(value)


@models_method(set, "union", "copy")
def _set_union(self, *others):
    result = set()
    for container in (self,) + others:
        for value in container:
            set_add(result, value)
    return result


@models_method(list, "remove")
def _list_remove(self, value):
    if not has_sym(value) and not has_sym(self):
        self.remove(value)
        return
    for i, item in enumerate(self):
        if bool(deep_eq_key(item, value)):
            del self[i]
            return
    raise ValueError("list.remove(x): x not in list")


@models_method(list, "index")
def _list_index(self, value, *args):
    if args:
        raise Unsupported("list.index with bounds")
    for i, item in enumerate(self):
        if bool(deep_eq_key(item, value)):
            return i
    raise ValueError("value is not in list")


@models_method(list, "count")
def _list_count(self, value):
    return sum(1 for item in self if bool(deep_eq_key(item, value)))


METHS_NATIVE_OK = {
    list: {"append", "extend", "insert", "pop", "sort", "reverse", "clear",
           "copy"},
    dict: {"items", "values", "keys", "copy", "clear", "popitem"},
    set: {"copy", "clear", "pop"},
    tuple: set(),
}


# --------------------------------------------------------------------------
# Text methods with symbolic arguments on concrete receivers
# --------------------------------------------------------------------------


def _str_native(self, name, args, kwargs):
    return getattr(lift_str(self), name)(*args, **kwargs)


@models_method(str, "join")
def _str_join(self, parts):
    parts = list(parts)
    if any(isinstance(p, SymStr) for p in parts):
        return lift_str(self).join(parts) if self else make_str(
            _check_strs(parts))
    for i, part in enumerate(parts):
        if is_sym(part):
            raise TypeError(
                f"sequence item {i}: expected str instance, "
                f"{py_type(part).__name__} found")
    return self.join(parts)


def _check_strs(parts):
    for number, part in enumerate(parts):
        if not isinstance(part, (str, SymStr)):
            raise TypeError(
                f"sequence item {number}: expected str instance, "
                f"{py_type(part).__name__} found")
    return parts


@models_method(str, "format")
def _str_format(self, *args, **kwargs):
    if isinstance(self, SymStr):
        return _sym_format(self, args, kwargs)
    if not has_sym(args) and not has_sym(kwargs):
        return self.format(*args, **kwargs)
    parts = []
    auto = 0
    for literal, field, spec, conversion in string.Formatter().parse(self):
        if literal:
            parts.append(literal)
        if field is None:
            continue
        if field == "":
            value = args[auto]
            auto += 1
        else:
            match = re.match(r"^(\d+|[A-Za-z_]\w*)(.*)$", field)
            if not match:
                raise Unsupported(f"format field {field}")
            first, rest = match.groups()
            value = args[int(first)] if first.isdigit() else kwargs[first]
            while rest:
                match = re.match(r"^\.(\w+)(.*)$", rest)
                if not match:
                    raise Unsupported(f"format field {field}")
                value = getattr(value, match.group(1))
                rest = match.group(2)
        if spec and "{" in spec:
            raise Unsupported("nested format spec")
        parts.append(_formatted(value, conversion or "", spec or ""))
    return make_str(parts)


def _sym_format(self, args, kwargs):
    """A format string with symbolic characters.

    What is in a replacement field is made concrete.
    """
    parts = []
    chars = self.chars()
    index = 0

    def at(position, char):
        if position >= len(chars):
            return False
        item = chars[position]
        return item == char if isinstance(item, str) else bool(
            item == ord(char))

    while index < len(chars):
        if at(index, "{"):
            if at(index + 1, "{"):
                parts.append("{")
                index += 2
                continue
            field = []
            index += 1
            while not at(index, "}"):
                if index >= len(chars):
                    raise ValueError("expected '}' before end of string")
                item = chars[index]
                if isinstance(item, SymInt):
                    item = chr(core.ENGINE.choose(item))
                if item in "{[":
                    raise Unsupported("nested format field")
                field.append(item)
                index += 1
            parts.append(_str_format(
                "{" + "".join(field) + "}", *args, **kwargs))
            index += 1
        elif at(index, "}"):
            if not at(index + 1, "}"):
                raise ValueError("Single '}' encountered in format string")
            parts.append("}")
            index += 2
        else:
            parts.append(chars[index])
            index += 1
    return make_str(parts)


@models_method(bytes, "join")
def _bytes_join(self, parts):
    parts = list(parts)
    if any(isinstance(p, (SymBytes, SymByteArray)) for p in parts):
        return SymBytes(tuple(self)).join([
            make_bytes(p.items) if isinstance(p, SymByteArray) else p
            for p in parts])
    return self.join(parts)


@models_method(bytes, "decode")
def _bytes_decode(self, *args, **kwargs):
    return self.decode(*args, **kwargs)


_INT_METHS = {"to_bytes", "bit_length"}


# --------------------------------------------------------------------------
# struct
# --------------------------------------------------------------------------

_STRUCT_SIZES = {"b": 1, "B": 1, "h": 2, "H": 2, "i": 4, "I": 4, "l": 4,
                 "L": 4, "q": 8, "Q": 8, "f": 4, "d": 8, "?": 1, "c": 1}


def parse_struct(fmt):
    if isinstance(fmt, bytes):
        fmt = fmt.decode("ascii")
    order = "@"
    rest = fmt
    if rest and rest[0] in "<>=!@":
        order = rest[0]
        rest = rest[1:]
    tokens = re.findall(r"(\d*)([a-zA-Z?])|(\s+)", rest)
    result = []
    for count, code, space in tokens:
        if space:
            continue
        result.append((int(count) if count else None, code))
    if order == "@":
        # Only formats without alignment or native sizes.
        codes = {code for _, code in result}
        if len(result) > 1 and len({_STRUCT_SIZES.get(c, 1)
                                    for c in codes}) > 1:
            raise Unsupported(f"native struct format {fmt}")
        if codes & set("lL"):
            raise Unsupported(f"native struct format {fmt}")
    big = order in (">", "!")
    return big, result


def struct_unpack(fmt, items):
    big, tokens = parse_struct(fmt)
    offset = 0
    values = []
    for count, code in tokens:
        if code == "s":
            size = 1 if count is None else count
            values.append(make_bytes(items[offset:offset + size]))
            offset += size
            continue
        if code == "x":
            offset += 1 if count is None else count
            continue
        size = _STRUCT_SIZES.get(code)
        if size is None:
            raise Unsupported(f"struct format {fmt}")
        for _ in range(1 if count is None else count):
            chunk = list(items[offset:offset + size])
            offset += size
            if big:
                chunk.reverse()
            if code == "c":
                values.append(make_bytes(chunk))
            elif code == "?":
                number = combine_bytes(chunk)
                values.append(number != 0)
            elif code in "fd":
                number = combine_bytes(chunk)
                if isinstance(number, int):
                    values.append(struct.unpack(
                        "<" + code, number.to_bytes(size, "little"))[0])
                else:
                    values.append(SymFloat(number, size))
            else:
                values.append(combine_bytes(chunk, signed=code.islower()))
    return tuple(values)


def _struct_items(buffer):
    if isinstance(buffer, SymByteArray):
        return tuple(buffer.items)
    if isinstance(buffer, (bytes, bytearray, memoryview, SymBytes)):
        return byte_items(buffer)
    raise TypeError("a bytes-like object is required, not "
                    f"'{py_type(buffer).__name__}'")


@models_method(struct.Struct, "unpack_from")
def _struct_unpack_from(self, buffer, offset=0):
    if not has_sym(buffer) and not is_sym(offset):
        return self.unpack_from(buffer, offset)
    items = _struct_items(buffer)
    if isinstance(offset, SymInt):
        offset = core.ENGINE.choose(offset)
    if offset < 0:
        offset += len(items)
    if offset < 0 or len(items) - offset < self.size:
        raise struct.error(
            f"unpack_from requires a buffer of at least {self.size} bytes")
    return struct_unpack(self.format, items[offset:offset + self.size])


@models_method(struct.Struct, "unpack")
def _struct_unpack(self, buffer):
    if not has_sym(buffer):
        return self.unpack(buffer)
    items = _struct_items(buffer)
    if len(items) != self.size:
        raise struct.error(f"unpack requires a buffer of {self.size} bytes")
    return struct_unpack(self.format, items)


@models_method(struct.Struct, "pack")
def _struct_pack(self, *values):
    return _struct_pack_function(self.format, *values)


@models(struct.unpack)
def _struct_unpack_function(fmt, buffer):
    return _struct_unpack(struct.Struct(fmt), buffer)


@models(struct.unpack_from)
def _struct_unpack_from_function(fmt, buffer, offset=0):
    return _struct_unpack_from(struct.Struct(fmt), buffer, offset)


def _struct_iterate(self, buffer):
    if not has_sym(buffer):
        return self.iter_unpack(buffer)
    items = _struct_items(buffer)
    if not self.size or len(items) % self.size:
        raise struct.error("iterative unpacking requires a buffer of a "
                           f"multiple of {self.size} bytes")
    return iter([struct_unpack(self.format, items[i:i + self.size])
                 for i in range(0, len(items), self.size)])


models_method(struct.Struct, "iter_unpack")(_struct_iterate)


@models(struct.iter_unpack)
def _struct_iter_unpack_function(fmt, buffer):
    return _struct_iterate(struct.Struct(fmt), buffer)


@models(struct.pack)
def _struct_pack_function(fmt, *values):
    if not has_sym(values):
        return struct.pack(fmt, *values)
    big, tokens = parse_struct(fmt)
    items = []
    position = 0
    for count, code in tokens:
        if code not in "bBhHiIlLqQ":
            raise Unsupported(f"struct.pack {fmt}")
        size = _STRUCT_SIZES[code]
        for _ in range(1 if count is None else count):
            value = values[position]
            position += 1
            try:
                items.extend(int_to_bytes(
                    value, size, "big" if big else "little",
                    signed=code.islower()))
            except OverflowError:
                raise struct.error("argument out of range")
    return make_bytes(items)


# --------------------------------------------------------------------------
# Builtin functions
# --------------------------------------------------------------------------


@models(len)
def _len(value):
    return len(value)


@models(ord)
def _ord(value):
    if isinstance(value, SymStr):
        chars = value.chars()
        if len(chars) != 1:
            raise TypeError("ord() expected a character")
        return chars[0] if isinstance(chars[0], SymInt) else ord(chars[0])
    if isinstance(value, SymBytes):
        if len(value) != 1:
            raise TypeError("ord() expected a character")
        return value[0]
    return ord(value)


@models(chr)
def _chr(value):
    if isinstance(value, SymInt):
        if bool(sym_or([value < 0, value > 0x10FFFF])):
            raise ValueError("chr() arg not in range(0x110000)")
        return make_str([value])
    return chr(value)


@models(isinstance)
def _isinstance(value, types_):
    kind = py_type(value)
    if kind is type(value):
        return isinstance(value, types_)
    return issubclass(kind, types_)


@models(type)
def _type(*args):
    if len(args) == 1:
        return py_type(args[0])
    return type(*args)


@models(callable)
def _callable(value):
    return callable(value)


@models(str)
def _str(*args, **kwargs):
    if len(args) == 1 and not kwargs:
        return sym_str(args[0])
    if args and isinstance(args[0], (SymBytes, SymByteArray)):
        return args[0].decode(*args[1:], **kwargs)
    return str(*args, **kwargs)


@models(repr)
def _repr(value):
    return sym_repr(value)


@models(format)
def _format(value, spec=""):
    return _formatted(value, "", spec)


@models(bool)
def _bool(value=False):
    if isinstance(value, SymBool):
        return value
    if isinstance(value, SymInt):
        return value != 0
    return bool(value)


@models(int)
def _int(*args, **kwargs):
    if not args:
        return int(*args, **kwargs)
    value = args[0]
    if isinstance(value, SymInt) and len(args) == 1 and not kwargs:
        return value
    if isinstance(value, SymBool):
        return value._num()
    if isinstance(value, SymStr):
        base = args[1] if len(args) > 1 else kwargs.get("base", 10)
        return parse_int_text(value, base)
    if isinstance(value, SymBytes):
        base = args[1] if len(args) > 1 else kwargs.get("base", 10)
        return parse_int_text(value, base)
    if isinstance(value, SymRatio):
        return ratio_to_int(value)
    if isinstance(value, SymFloat):
        return value.integer()
    if is_sym(value):
        raise Unsupported(f"int() of {type(value).__name__}")
    return int(*args, **kwargs)


def ratio_to_int(value):
    """int(a / b): exact only while the float division is exact enough."""
    numerator = value.numerator
    if isinstance(numerator, SymInt) and numerator.lo >= 0 and \
            numerator.hi < (1 << 52) and value.denominator > 0:
        return numerator // value.denominator
    raise Unsupported("int() of a quotient")


def parse_int_text(value, base):
    """int(text, base) of symbolic characters (ASCII)."""
    raw = isinstance(value, SymBytes)
    if raw:
        chars = list(byte_items(value))
        spaces = (9, 10, 11, 12, 13, 32)
    else:
        atoms = [x for x in value.items if isinstance(x, Atom)]
        if len(value.items) == 1 and atoms:
            atom = atoms[0]
            if (atom.kind, base) in (
                    ("int:d", 10), ("int:x", 16), ("int:X", 16)):
                return atom.args[0]
        chars = [ord(c) if isinstance(c, str) else c for c in value.chars()]
        spaces = (9, 10, 11, 12, 13, 28, 29, 30, 31, 32)
    if not chars:
        raise ValueError("invalid literal for int()")
    if base not in (8, 10, 16):
        raise Unsupported(f"int() with base {base}")

    def digit(char):
        """(condition, value) that a character is a digit."""
        if isinstance(char, int):
            try:
                if char >= 0x80:
                    if raw:
                        return False, 0
                    raise Unsupported("int() of non-ASCII text")
                return True, int(chr(char), base)
            except ValueError:
                return False, 0
        top = min(base, 10)
        is_dec = sym_and([char >= 48, char < 48 + top])
        result = char - 48
        condition = is_dec
        if base == 16:
            is_low = sym_and([char >= 97, char <= 102])
            is_up = sym_and([char >= 65, char <= 70])
            condition = sym_or([is_dec, is_low, is_up])
            result = ite_int(is_dec, char - 48, ite_int(
                is_low, char - 87, char - 55))
        return condition, result

    digits = [digit(c) for c in chars]
    if bool(sym_and([c for c, _ in digits])):
        total = 0
        for _, number in digits:
            number = core.refine(number, 0, base - 1) if isinstance(
                number, SymInt) else number
            shift = {8: 3, 16: 4}.get(base)
            if shift:
                total = (total << shift) | (number & (base - 1))
            else:
                total = total * base + number
        return total
    # Not plain digits: white space, a sign, underscores or a prefix may
    # still make it valid; anything else is an error.
    special = []
    for char in chars:
        options = list(spaces) + [ord("+"), ord("-"), ord("_")]
        if base == 16:
            options += [ord("x"), ord("X")]
        if base == 8:
            options += [ord("o"), ord("O")]
        special.append(sym_or([char == o for o in options]))
        if not raw:
            special.append(char >= 0x80)
    if bool(sym_or(special)):
        # Resolve completely: characters that matter are enumerated.
        text = []
        for char, (is_digit, number) in zip(chars, digits):
            if isinstance(char, int):
                text.append(char)
            elif bool(is_digit):
                text.append((char, number))
            else:
                found = None
                for option in spaces + (43, 45, 95, 120, 88, 111, 79):
                    if bool(char == option):
                        found = option
                        break
                if found is None:
                    if not raw and bool(char >= 0x80):
                        raise Unsupported("int() of non-ASCII text")
                    raise ValueError("invalid literal for int()")
                text.append(found)
        for index, item in enumerate(text[1:]):
            # A prefix needs a zero in front of it.
            if item in (120, 88, 111, 79) and isinstance(
                    text[index], tuple) and bool(text[index][0] == 48):
                text[index] = 48
        probe = "".join(
            chr(x) if isinstance(x, int) else "1" for x in text)
        # Raises ValueError when it is malformed.
        int(probe.encode("latin-1") if raw else probe, base)
        stripped = [x for x in text if not (
            isinstance(x, int) and (chr(x).isspace() or x == 95))]
        negative = False
        if stripped and stripped[0] in (43, 45):
            negative = stripped[0] == 45
            stripped = stripped[1:]
        if len(stripped) > 1 and stripped[1] in (120, 88, 111, 79):
            stripped = stripped[2:]
        total = 0
        for item in stripped:
            if isinstance(item, int):
                number = int(chr(item), base)
            else:
                number = core.refine(item[1], 0, base - 1) if isinstance(
                    item[1], SymInt) else item[1]
            total = total * base + number
        return -total if negative else total
    raise ValueError("invalid literal for int()")


@models(float)
def _float(*args):
    if args and is_sym(args[0]):
        if isinstance(args[0], (SymFloat, SymRatio)):
            return args[0]
        if isinstance(args[0], SymInt):
            return SymRatio(args[0], 1)
        raise Unsupported("float() of symbolic text")
    return float(*args)


@models(bytes)
def _bytes(*args, **kwargs):
    if not args:
        return bytes(*args, **kwargs)
    value = args[0]
    if isinstance(value, SymBytes):
        return value
    if isinstance(value, SymByteArray):
        return make_bytes(value.items)
    if isinstance(value, SymInt):
        return bytes(core.ENGINE.choose(value))
    if isinstance(value, SymStr):
        return value.encode(*args[1:], **kwargs)
    if isinstance(value, (list, tuple)) or hasattr(value, "__next__"):
        items = list(value)
        if has_sym(items):
            out = []
            for item in items:
                if isinstance(item, SymInt):
                    if bool(sym_or([item < 0, item > 255])):
                        raise ValueError("bytes must be in range(0, 256)")
                elif not 0 <= item <= 255:
                    raise ValueError("bytes must be in range(0, 256)")
                out.append(item)
            return make_bytes([
                core.refine(x, 0, 255) if isinstance(x, SymInt) else x
                for x in out])
        return bytes(items)
    return bytes(*args, **kwargs)


@models(bytearray)
def _bytearray(*args, **kwargs):
    if not args:
        return SymByteArray()
    value = args[0]
    if isinstance(value, int) and not isinstance(value, bool):
        return SymByteArray([0] * value)
    if isinstance(value, SymInt):
        return SymByteArray([0] * core.ENGINE.choose(value))
    result = _bytes(*args, **kwargs)
    return SymByteArray(byte_items(result))


@models(memoryview)
def _memoryview(value):
    if isinstance(value, (SymBytes, SymByteArray)):
        return make_bytes(value.items)
    return memoryview(value)


@models(bytes.fromhex)
def _fromhex(text):
    if isinstance(text, SymStr):
        raise Unsupported("bytes.fromhex")
    return bytes.fromhex(text)


FUNCS_BOUND = {}


def models_bound(owner, name):
    def register(handler):
        FUNCS_BOUND[(owner, name)] = handler
        return handler
    return register


@models_bound(int, "from_bytes")
def _int_from_bytes(data, byteorder="big", *, signed=False):
    if isinstance(data, (SymBytes, SymByteArray)):
        items = list(data.items)
    elif isinstance(data, (list, tuple)):
        items = list(data)
    else:
        return int.from_bytes(data, byteorder, signed=signed)
    if byteorder == "big":
        items.reverse()
    return combine_bytes(items, signed)


@models_bound(bytes, "fromhex")
def _bytes_fromhex(text):
    return _fromhex(text)


@models_bound(bytes, "join")
def _bytes_class_join(self, parts):
    return _bytes_join(self, parts)


@models_bound(str, "join")
def _str_class_join(self, parts):
    return _str_join(self, parts)


def int_to_bytes(value, length=1, byteorder="big", *, signed=False):
    if isinstance(value, SymInt):
        return byte_items(value.to_bytes(length, byteorder, signed))
    return value.to_bytes(length, byteorder, signed=signed)


class SymRange:
    """range() with symbolic bounds; iterates lazily."""

    __py_type__ = range
    __is_sym__ = True

    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step

    def __iter__(self):
        current = self.start
        while True:
            more = (current < self.stop if self.step > 0
                    else current > self.stop)
            if not bool(more):
                return
            yield current
            current = current + self.step

    def __len__(self):
        return sum(1 for _ in self)

    def contains(self, value):
        if py_type(value) is not int:
            return False
        if self.step == 1:
            return sym_and([value >= self.start, value < self.stop])
        raise Unsupported("containment in a stepped symbolic range")


@models(range)
def _range(*args):
    if not has_sym(args):
        return range(*args)
    args = [x._num() if isinstance(x, SymBool) else x for x in args]
    if len(args) == 1:
        return SymRange(0, args[0], 1)
    step = args[2] if len(args) > 2 else 1
    if isinstance(step, SymInt):
        step = core.ENGINE.choose(step)
    return SymRange(args[0], args[1], step)


@models(divmod)
def _divmod(a, b):
    return divmod(a, b)


@models(abs)
def _abs(value):
    return abs(value)


@models(round)
def _round(value, *args):
    if isinstance(value, SymInt) and not any(args):
        return value
    if is_sym(value):
        raise Unsupported("round")
    return round(value, *args)


@models(pow)
def _pow(a, b, *mod):
    if mod and has_sym((a, b) + mod):
        raise Unsupported("modular power")
    return a ** b if not mod else pow(a, b, *mod)


def _minmax(args, kwargs, smaller):
    if not has_sym(args):
        return (min if smaller else max)(*args, **kwargs)
    if kwargs:
        return (min if smaller else max)(*args, **kwargs)
    values = list(args[0]) if len(args) == 1 else list(args)
    if not all(isinstance(x, (int, SymInt)) for x in values):
        return (min if smaller else max)(values)
    result = values[0]
    for value in values[1:]:
        condition = value < result if smaller else value > result
        result = ite_int(condition, value, result)
    return result


@models(min)
def _min(*args, **kwargs):
    return _minmax(args, kwargs, True)


@models(max)
def _max(*args, **kwargs):
    return _minmax(args, kwargs, False)


@models(sum)
def _sum(values, start=0):
    total = start
    for value in values:
        total = total + value
    return total


@models(any)
def _any(values):
    for value in values:
        if bool(value):
            return True
    return False


@models(all)
def _all(values):
    for value in values:
        if not bool(value):
            return False
    return True


@models(sorted)
def _sorted(values, **kwargs):
    return sorted(values, **kwargs)


@models(hex)
def _hex(value):
    if isinstance(value, SymInt):
        return format_value(value, "#x")
    return hex(value)


@models(bin)
def _bin(value):
    if isinstance(value, SymInt):
        return make_str(["0b", format_value(value, "b")])
    return bin(value)


@models(hash)
def _hash(value):
    if has_sym(value):
        raise Unsupported("hash")
    return hash(value)


@models(print)
def _print(*args, **kwargs):
    PRINTED.append((args, kwargs))


PRINTED = []


@models(set)
def _set(*args):
    result = set()
    for arg in args:
        for value in _iterate(arg):
            set_add(result, value)
    return result


@models(frozenset)
def _frozenset(*args):
    if not has_sym(args):
        return frozenset(*args)
    raise Unsupported("frozenset of symbolic values")


@models(dict)
def _dict(*args, **kwargs):
    result = {}
    _dict_update(result, *args, **kwargs)
    return result


class SymBytesIO:
    """io.BytesIO over symbolic bytes, for reading."""

    def __init__(self, data):
        self.data = data
        self.position = 0
        self.closed = False

    def _check(self):
        if self.closed:
            raise ValueError("I/O operation on closed file.")

    def read(self, size=-1):
        self._check()
        if size is None or size < 0:
            size = len(self.data)
        result = dts_gi(self.data, slice(
            self.position, self.position + size))
        self.position = self.position + len(result)
        return result

    def seek(self, offset, whence=0):
        self._check()
        if whence == 0 and offset < 0:
            raise ValueError("negative seek value")
        if whence == 1:
            offset = self.position + offset
        elif whence == 2:
            offset = len(self.data) + offset
        self.position = 0 if offset < 0 else offset
        return self.position

    def tell(self):
        self._check()
        return self.position

    def getvalue(self):
        self._check()
        return self.data

    def close(self):
        self.closed = True

    def __enter__(self):
        self._check()
        return self

    def __exit__(self, *args):
        self.close()


@models(io.BytesIO)
def _bytes_io(*args):
    if has_sym(args):
        return SymBytesIO(_bytes(*args))
    return io.BytesIO(*args)


@models(functools.reduce)
def _reduce(function, iterable, *initial):
    items = list(_iterate(iterable))
    if initial:
        items.insert(0, initial[0])
    if not items:
        raise TypeError("reduce() of empty iterable with no initial value")
    result = items[0]
    for item in items[1:]:
        result = dts_c(function, result, item)
    return result


@models(map)
def _map(function, *iterables):
    return (dts_c(function, *values)
            for values in zip(*[_iterate(x) for x in iterables]))


@models(collections.OrderedDict)
def _ordered_dict(*args, **kwargs):
    # A dictionary keeps its order; the models of its methods offer more.
    return _dict(*args, **kwargs)


def choose_text(text):
    """A concrete text: forks over what a lookup in a table can give."""
    if not isinstance(text, SymStr):
        return text
    items = text.items
    if len(items) == 1 and isinstance(items[0], Atom) and (
            items[0].kind == "lookup"):
        key = items[0].args[0]
        table, default = items[0].extra
        groups = {}
        for number, value in table:
            groups.setdefault(value, []).append(number)
        for value, numbers in groups.items():
            if bool(sym_or([key == number for number in numbers])):
                return value
        if type(default) is str:
            return default
    pieces = []
    for item in items:
        if isinstance(item, Atom) and item.kind.startswith("int:"):
            value = core.ENGINE.choose(item.args[0])
            pieces.append(format(value, item.kind[4:]))
        elif isinstance(item, str):
            pieces.append(item)
        else:
            raise Unsupported("choice of a symbolic text")
    return "".join(pieces)


@models(getattr)
def _getattr(instance, name, *default):
    return getattr(instance, choose_text(name), *default)


for _function in (list, tuple, enumerate, zip, filter, reversed, iter,
                  next, setattr, hasattr, delattr, id, eval, property,
                  staticmethod, classmethod, slice, issubclass, object):
    def _make(function):
        def passthrough(*args, **kwargs):
            return function(*args, **kwargs)
        return passthrough
    FUNCS[id(_function)] = _make(_function)
    _KEEP.append(_function)


def _iterate(value):
    return value


# --------------------------------------------------------------------------
# UUIDs
# --------------------------------------------------------------------------


class SymUUID:
    """uuid.UUID over symbolic bytes (big-endian byte order)."""

    __py_type__ = uuid.UUID
    __is_sym__ = True

    def __init__(self, items):
        self.items = tuple(items)

    @property
    def bytes(self):
        return make_bytes(self.items)

    @property
    def bytes_le(self):
        i = self.items
        return make_bytes(i[3::-1] + i[5:3:-1] + i[7:5:-1] + i[8:])

    @property
    def int(self):
        return combine_bytes(list(reversed(self.items)))

    @property
    def hex(self):
        return make_str([format_value(x, "02x") for x in self.items])

    def __sym_str__(self):
        parts = []
        for i, item in enumerate(self.items):
            if i in (4, 6, 8, 10):
                parts.append("-")
            parts.append(format_value(item, "02x"))
        return make_str(parts)

    def __sym_format__(self, spec):
        if spec:
            raise TypeError("unsupported format string passed to UUID")
        return self.__sym_str__()

    def __sym_repr__(self):
        return make_str(["UUID('", self.__sym_str__(), "')"])

    def __str__(self):
        raise Unsupported("native str of symbolic UUID")

    def __eq__(self, other):
        if isinstance(other, SymUUID):
            return _lift_bytes(self.items) == make_bytes(other.items)
        if isinstance(other, uuid.UUID):
            return _lift_bytes(self.items) == other.bytes
        return False

    def __ne__(self, other):
        return sym_not(self.__eq__(other))

    def __hash__(self):
        if core.HASH_ALLOWED[0]:
            return core.path_hash(self)
        raise Unsupported("hash of symbolic UUID")

    def __sym_concretise__(self, model):
        return uuid.UUID(bytes=core.concretise(make_bytes(self.items), model))


@models(uuid.UUID)
def _uuid(hex=None, bytes=None, bytes_le=None, fields=None, int=None,
          version=None, **kwargs):
    if not has_sym([hex, bytes, bytes_le, fields, int]):
        return uuid.UUID(hex=hex, bytes=bytes, bytes_le=bytes_le,
                         fields=fields, int=int, version=version, **kwargs)
    if isinstance(bytes_le, SymBytes):
        if len(bytes_le) != 16:
            raise ValueError("bytes_le is not a 16-char string")
        i = bytes_le.items
        return SymUUID(i[3::-1] + i[5:3:-1] + i[7:5:-1] + i[8:])
    if isinstance(bytes, SymBytes):
        if len(bytes) != 16:
            raise ValueError("bytes is not a 16-char string")
        return SymUUID(bytes.items)
    if isinstance(int, SymInt):
        if builtins.bool(sym_or([int < 0, int >= (1 << 128)])):
            raise ValueError("int is out of range (need a 128-bit value)")
        return SymUUID(byte_items(int.to_bytes(16, "big")))
    raise Unsupported("uuid.UUID from symbolic text or fields")


# --------------------------------------------------------------------------
# Formatting
# --------------------------------------------------------------------------


def _formatted(value, conversion, spec):
    if conversion == "s":
        value = sym_str(value)
    elif conversion == "r":
        value = sym_repr(value)
    elif conversion == "a":
        raise Unsupported("ascii conversion")
    return format_value(value, spec)


def dts_f(*parts):
    out = []
    for part in parts:
        if type(part) is str:
            out.append(part)
        else:
            value, conversion, spec = part
            if not conversion and type(value) in (str, int, float):
                if isinstance(spec, SymStr):
                    raise Unsupported("symbolic format spec")
                out.append(format(value, spec))
            else:
                out.append(_formatted(value, conversion, spec))
    for item in out:
        if type(item) is not str:
            return make_str(out)
    return "".join(out)


_PRINTF = re.compile(r"%(?:(%)|(0?[0-9]*)([dxXs]))")


def _printf(text, values):
    """The text of a simple printf-style format with symbolic values."""
    values = list(values) if isinstance(values, tuple) else [values]
    parts = []
    at = 0
    for match in _PRINTF.finditer(text):
        between = text[at:match.start()]
        if "%" in between:
            raise Unsupported("printf-style formatting")
        parts.append(between)
        at = match.end()
        if match.group(1):
            parts.append("%")
            continue
        if not values:
            raise Unsupported("printf-style formatting")
        value = values.pop(0)
        width, kind = match.group(2), match.group(3)
        if kind != "s" and py_type(value) not in (int, bool) or (
                kind == "s" and width):
            raise Unsupported("printf-style formatting")
        parts.append((value, "s" if kind == "s" else "",
                      "" if kind == "s" else width + kind))
    if "%" in text[at:] or values:
        raise Unsupported("printf-style formatting")
    return dts_f(*parts, text[at:])


def dts_bor(left, right):
    if isinstance(left, set) and isinstance(right, (set, frozenset)) and (
            has_sym(left) or has_sym(right)):
        result = set()
        for container in (left, right):
            for value in container:
                set_add(result, value)
        return result
    return left | right


def dts_ibor(left, right):
    if isinstance(left, set) and isinstance(right, (set, frozenset)):
        for value in right:
            set_add(left, value)
        return left
    left |= right
    return left


def dts_set(values):
    return _set(values)


def dts_dict(items):
    result = {}
    for item in items:
        if len(item) == 1:
            for key, value in item[0].items():
                dict_store(result, key, value)
        else:
            dict_store(result, *item)
    return result


def dts_mod(left, right):
    if type(left) is str and has_sym(right):
        return _printf(left, right)
    if isinstance(left, (str, bytes)) and has_sym(right):
        raise Unsupported("printf-style formatting")
    if isinstance(left, SymStr):
        raise Unsupported("printf-style formatting")
    return left % right


# --------------------------------------------------------------------------
# Calls
# --------------------------------------------------------------------------

_PYTHON_FUNCTION = (types.FunctionType,)
_NATIVE_TYPES = {str, bytes, bytearray, dict, list, set, frozenset, tuple, int,
                 float, bool, struct.Struct, memoryview, type(None)}
STUB_CLASSES = {}


_CACHED = type(functools.lru_cache(maxsize=1)(abs))


def dts_c(function, /, *args, **kwargs):
    kind = type(function)
    if kind is types.FunctionType or kind is types.MethodType:
        handler = FUNCS.get(id(function))
        if handler is None:
            if kind is types.MethodType and type(
                    function.__func__) is _CACHED and has_sym(
                        (args, kwargs)):
                return function.__func__.__wrapped__(
                    function.__self__, *args, **kwargs)
            return function(*args, **kwargs)
        return handler(*args, **kwargs)
    if kind is _CACHED and has_sym((args, kwargs)):
        return function.__wrapped__(*args, **kwargs)
    handler = FUNCS.get(id(function))
    if handler is not None:
        return handler(*args, **kwargs)
    if kind is types.BuiltinFunctionType or kind is types.MethodDescriptorType:
        owner = getattr(function, "__self__", None)
        if owner is not None and not isinstance(owner, types.ModuleType):
            handler = FUNCS_BOUND.get((owner, function.__name__)) if isinstance(
                owner, type) else None
            if handler is not None:
                return handler(*args, **kwargs)
            if type(owner) in _NATIVE_TYPES or type(owner) is re.Pattern:
                return dts_m(owner, function.__name__, *args, **kwargs)
        if has_sym(args) or has_sym(kwargs):
            raise Unsupported(
                f"builtin {getattr(function, '__qualname__', function)}")
        return function(*args, **kwargs)
    if isinstance(function, enum.EnumMeta) and len(args) == 1 and (
            has_sym(args)):
        if issubclass(function, enum.Flag):
            raise Unsupported("flags of a symbolic value")
        for member in function:
            if bool(deep_eq_key(member.value, args[0])):
                return member
        raise ValueError(f"not a valid {function.__name__}")
    if isinstance(function, type):
        if function in (collections.deque, collections.defaultdict) and not (
                any(isinstance(x, dict) for x in args)):
            return function(*args, **kwargs)
        if (function.__module__ in ("builtins", "collections", "datetime",
                                    "decimal", "fractions")
                and not issubclass(function, BaseException)
                and (has_sym(args) or has_sym(kwargs))):
            raise Unsupported(f"constructor {function.__name__}")
        return function(*args, **kwargs)
    return function(*args, **kwargs)


def dts_m(receiver, name, /, *args, **kwargs):
    kind = type(receiver)
    if kind is re.Pattern and (has_sym(args) or has_sym(kwargs)):
        from dtsym import regex
        return regex.call(receiver, name, args, kwargs)
    if kind in _NATIVE_TYPES:
        handler = METHS.get((kind, name))
        if handler is not None:
            return handler(receiver, *args, **kwargs)
        if has_sym(args) or has_sym(kwargs):
            allowed = METHS_NATIVE_OK.get(kind)
            if allowed is not None:
                if name in allowed:
                    return getattr(receiver, name)(*args, **kwargs)
                raise Unsupported(f"{kind.__name__}.{name}")
            if kind is str:
                return getattr(lift_str(receiver), name)(*args, **kwargs)
            if kind in (bytes, bytearray):
                return getattr(SymBytes(tuple(receiver)), name)(
                    *args, **kwargs)
            if kind is int and name == "to_bytes":
                return receiver.to_bytes(*[
                    core.ENGINE.choose(x) if isinstance(x, SymInt) else x
                    for x in args], **kwargs)
            raise Unsupported(f"{kind.__name__}.{name}")
        return getattr(receiver, name)(*args, **kwargs)
    if isinstance(receiver, _PLAIN_DICTS) and (dict, name) in METHS and (
            has_sym(args) or _is_marked(receiver)):
        return METHS[dict, name](receiver, *args, **kwargs)
    function = getattr(receiver, name)
    return dts_c(function, *args, **kwargs)


# --------------------------------------------------------------------------
# Containment, subscripts
# --------------------------------------------------------------------------


def dts_in(value, container):
    kind = type(container)
    if kind in (dict, set, frozenset) or isinstance(container, dict):
        if not _needs_symbolic(container, value):
            return value in container
        return container_has(container, value)
    if kind in (list, tuple):
        if not has_sym(value) and not has_sym(container):
            return value in container
        if isinstance(value, SymInt) and all(
                type(x) is int for x in container):
            return container_has(container, value)
        return sym_or([deep_eq_key(x, value) for x in container])
    if kind is type({}.keys()) or kind is type({}.values()):
        return sym_or([deep_eq_key(x, value) for x in container])
    if kind is range and is_sym(value):
        if container.step != 1:
            raise Unsupported("containment in a stepped range")
        return sym_and([value >= container.start, value < container.stop])
    if kind is SymRange:
        return container.contains(value)
    if kind is str:
        if isinstance(value, SymStr):
            return lift_str(container).contains(value)
        return value in container
    if kind is bytes:
        if is_sym(value):
            return SymBytes(tuple(container)).contains(value)
        return value in container
    if kind in (SymStr, SymBytes):
        return container.contains(value)
    if kind is SymByteArray:
        return SymBytes(tuple(container.items)).contains(value)
    return value in container


def _seq_eq(a, b):
    if type(a) is not type(b) or len(a) != len(b):
        return False
    conditions = []
    for x, y in zip(a, b):
        if type(x) in (tuple, list) and type(x) is type(y):
            condition = _seq_eq(x, y)
        else:
            condition = x == y
        if condition is False:
            return False
        conditions.append(condition)
    return sym_and(conditions)


def dts_eq(a, b):
    if type(a) in (tuple, list) and type(b) in (tuple, list) and (
            has_sym(a) or has_sym(b)):
        return _seq_eq(a, b)
    return a == b


def dts_ne(a, b):
    if type(a) in (tuple, list) and type(b) in (tuple, list) and (
            has_sym(a) or has_sym(b)):
        return sym_not(_seq_eq(a, b))
    return a != b


def dts_notin(value, container):
    return sym_not(dts_in(value, container))


_PLAIN_DICTS = (collections.defaultdict, collections.Counter)


def dts_gi(container, index):
    kind = type(container)
    if kind is dict or isinstance(container, dict):
        if type(container).__getitem__ is dict.__getitem__ and not hasattr(
                container, "__missing__"):
            return dict_lookup(container, index, None, False)
        if isinstance(container, _PLAIN_DICTS) and _needs_symbolic(
                container, index):
            found = _find_key(container, index)
            if found is not None:
                return _native_get(container, found[0])
            if kind is collections.Counter:
                return 0
            if container.default_factory is None:
                raise KeyError(index)
            value = container.default_factory()
            dict_store(container, index, value)
            return value
        return container[index]
    if kind in (list, tuple):
        if isinstance(index, (SymInt, SymBool)):
            index = core.resolve_index(index, len(container), kind.__name__)
            if isinstance(index, int):
                return container[index]
            if all(isinstance(x, (int, SymInt)) and not isinstance(x, bool)
                   for x in container):
                return mux(list(container), index)
            if all(type(x) is str for x in container):
                table = tuple(enumerate(container))
                return make_str([Atom("lookup", (index,), (table, None))])
            return container[core.ENGINE.choose(index)]
        if isinstance(index, slice) and (
                is_sym(index.start) or is_sym(index.stop)):
            start, stop, _ = core.resolve_slice(index, len(container))
            return container[start:stop]
        return container[index]
    if kind in (bytes, str):
        if isinstance(index, (SymInt, SymBool)) or (
                isinstance(index, slice) and (
                    is_sym(index.start) or is_sym(index.stop))):
            if kind is bytes:
                return SymBytes(tuple(container))[index]
            return lift_str(container)[index]
        return container[index]
    return container[index]


def dts_si(value, container, index):
    kind = type(container)
    if kind is dict or isinstance(container, _PLAIN_DICTS):
        dict_store(container, index, value)
        return
    if kind is list and isinstance(index, SymInt):
        index = core.resolve_index(index, len(container), "list")
        if isinstance(index, SymInt):
            index = core.ENGINE.choose(index)
    container[index] = value


def dts_di(container, index):
    if type(container) is dict:
        dict_delete(container, index)
        return
    if isinstance(index, slice):
        start, stop, step = core.resolve_slice(index, len(container))
        index = slice(start, stop, step)
    del container[index]


def dts_not(value):
    if isinstance(value, SymBool):
        return sym_not(value)
    if isinstance(value, SymInt):
        return value == 0
    return not value


def dts_and(value, *rest):
    collected = [value]
    if not isinstance(value, SymBool) and not value:
        return value
    for item in rest:
        if any(isinstance(x, SymBool) for x in collected):
            try:
                result = item()
            except Exception:
                # The guard may protect the operand: decide it first.
                if not bool(sym_and(collected)):
                    return False
                collected = [True]
                result = item()
        else:
            result = item()
        if not isinstance(result, (SymBool, bool)):
            result = bool(result)
        collected.append(result)
        if result is False:
            return False
    return sym_and(collected)


def dts_or(value, *rest):
    collected = [value]
    if not isinstance(value, SymBool) and value:
        return value
    for item in rest:
        if any(isinstance(x, SymBool) for x in collected):
            try:
                result = item()
            except Exception:
                if bool(sym_or(collected)):
                    return True
                collected = [False]
                result = item()
        else:
            result = item()
        if not isinstance(result, (SymBool, bool)):
            result = bool(result)
        collected.append(result)
        if result is True:
            return True
    return sym_or(collected)


FUNCTIONS = set()


def dts_fn(label):
    FUNCTIONS.add(label)
    engine = core.ENGINE
    if engine is not None:
        engine.tick()


def dts_tick():
    engine = core.ENGINE
    if engine is not None:
        engine.tick()


def dts_iter(value):
    return value


def dts_slice(start, stop, step):
    return slice(start, stop, step)


def install():
    builtins.__dts_f__ = dts_f
    builtins.__dts_eq__ = dts_eq
    builtins.__dts_ne__ = dts_ne
    builtins.__dts_fn__ = dts_fn
    builtins.__dts_c__ = dts_c
    builtins.__dts_m__ = dts_m
    builtins.__dts_in__ = dts_in
    builtins.__dts_notin__ = dts_notin
    builtins.__dts_gi__ = dts_gi
    builtins.__dts_si__ = dts_si
    builtins.__dts_di__ = dts_di
    builtins.__dts_not__ = dts_not
    builtins.__dts_and__ = dts_and
    builtins.__dts_or__ = dts_or
    builtins.__dts_mod__ = dts_mod
    builtins.__dts_bor__ = dts_bor
    builtins.__dts_ibor__ = dts_ibor
    builtins.__dts_set__ = dts_set
    builtins.__dts_dict__ = dts_dict
    builtins.__dts_tick__ = dts_tick
    builtins.__dts_iter__ = dts_iter
    builtins.__dts_slice__ = dts_slice
