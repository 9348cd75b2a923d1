"""C02, C03, C04: structure reading, value formatting, file life cycle."""

from dtfabric.runtime import fabric as dtfabric_fabric

from dtformats import data_format
from dtformats import errors
from dtformats import output_writers
from dtformats import yaml_definitions_file

from props import lib

REGISTRY = lib.Registry()
cases = REGISTRY.cases
find_case = REGISTRY.find

DEFINITION = b"""name: t
type: format
attributes:
  byte_order: little-endian
---
name: byte
type: integer
attributes:
  format: unsigned
  size: 1
  units: bytes
---
name: char
type: integer
attributes:
  format: signed
  size: 1
  units: bytes
---
name: uint8
type: integer
attributes:
  format: unsigned
  size: 1
  units: bytes
---
name: uint16
type: integer
attributes:
  format: unsigned
  size: 2
  units: bytes
---
name: int32
type: integer
attributes:
  format: signed
  size: 4
  units: bytes
---
name: fixed
type: structure
members:
- name: a
  data_type: uint8
- name: b
  data_type: uint16
- name: c
  data_type: int32
---
name: counted
type: structure
members:
- name: number
  data_type: uint8
- name: values
  type: sequence
  element_data_type: uint16
  number_of_elements: counted.number
- name: size
  data_type: uint8
- name: data
  type: stream
  element_data_type: byte
  elements_data_size: counted.size
---
name: guarded
type: structure
members:
- name: signature
  data_type: uint16
  value: 0x4241
- name: length
  data_type: uint8
- name: data
  type: stream
  element_data_type: byte
  elements_data_size: guarded.length
"""


class Format(data_format.BinaryDataFormat):
    _FABRIC = dtfabric_fabric.DataTypeFabric(yaml_definition=DEFINITION)

    _DEBUG_INFORMATION = {
        "fixed": [("a", "A", "_FormatIntegerAsHexadecimal2"),
                  ("missing", "Missing", None),
                  ("b", "B value", "_FormatIntegerAsDecimal"),
                  ("c", "C", "_FormatIntegerAsOffset")]}


def slot(data, offset, size):
    """The bytes of the file at an offset, all of them or none."""
    if offset < 0 or offset >= 1 << 63:
        raise lib.Reject("offset")
    if size == 0:
        return b""
    if size < 0 or offset + size > len(data):
        raise lib.Reject("outside the file")
    return data[offset:offset + size]


def ref_fixed(data, offset):
    data = slot(data, offset, 7)
    return ((lib.uint(data, 0, 1), lib.uint(data, 1, 2),
             lib.sint(data, 3, 4)), 7)


def ref_counted(data, offset):
    number = lib.uint(data, offset, 1)
    values = []
    position = offset + 1
    for _ in range(number):
        values.append(lib.uint(data, position, 2))
        position += 2
    size = lib.uint(data, position, 1)
    content = slot(data, position + 1, size)
    return (number, tuple(values), size, content), position + 1 + size - offset


def ref_guarded(data, offset):
    if lib.uint(data, offset, 2) != 0x4241:
        raise lib.Reject("signature")
    size = lib.uint(data, offset + 2, 1)
    return (0x4241, size, slot(data, offset + 3, size)), 3 + size


REFERENCES = {
    "fixed": (ref_fixed, ("a", "b", "c")),
    "counted": (ref_counted, ("number", "values", "size", "data")),
    "guarded": (ref_guarded, ("signature", "length", "data")),
}


def fields(structure, names):
    values = []
    for name in names:
        value = getattr(structure, name)
        # No elements: the mapper leaves the member unset or empty.
        if name == "values":
            value = tuple(value or ())
        elif name == "data":
            value = value or b""
        values.append(value)
    return tuple(values)


def read_data(env, file_size, hi):
    data = env.bytes("data", file_size)
    offset = env.int("offset", -(1 << 64), 1 << 65)
    size = env.int("size", -(1 << 64), 1 << 65)
    file_object = lib.MemFile(data)
    file_object.seek(env.int("position", 0, hi))
    reader = Format()
    got = lib.outcome(reader._ReadData, file_object, offset, size, "test")
    want, _ = lib.reference(lambda out: slot(data, offset, size))
    env.check("data", got, want)
    env.reach(got[0])


def read_structure(env, kind, file_size, hi, debug, count):
    data = env.bytes("data", file_size)
    offset = env.int("offset", 0, hi)
    if kind != "fixed":
        env.assume(data[0] <= count)
    file_object = lib.MemFile(data)
    file_object.seek(env.int("position", 0, 1))
    writer = lib.Writer()
    reader = Format(debug=debug, output_writer=writer)
    decode, names = REFERENCES[kind]
    data_type_map = reader._GetDataTypeMap(kind)
    with lib.use_hexdump(env):
        got = lib.outcome(
            reader._ReadStructureFromFileObject, file_object, offset,
            data_type_map, "test")
    if got[0] == "ok":
        got = ("ok", (fields(got[1][0], names), got[1][1]))
    want, _ = lib.reference(lambda out: decode(data, offset))
    env.check("structure", got, want)
    # The same from memory.
    if offset < file_size:
        stream = data[offset:]
        got = lib.outcome(
            reader._ReadStructureFromByteStream, stream, offset,
            data_type_map, "test")
        if got[0] == "ok":
            got = ("ok", fields(got[1], names))
        if want[0] == "ok":
            want = ("ok", want[1][0])
        env.check("stream", got, want)
    env.reach(want[0])


def read_object(env, file_size):
    data = env.bytes("data", file_size)
    offset = env.int("offset", 0, 3)
    writer = lib.Writer()
    reader = Format(debug=True, output_writer=writer)
    with lib.use_hexdump(env):
        got = lib.outcome(
            reader._ReadStructureObjectFromFileObject, lib.MemFile(data),
            offset, "fixed", "test")
    if got[0] == "ok":
        got = ("ok", fields(got[1], ("a", "b", "c")))

    def decode(out):
        (a, b, c), _ = ref_fixed(data, offset)
        out.append(lib.line("A", f"0x{a:02x}"))
        out.append(lib.line("B value", b))
        out.append(lib.line("C", f"{c} (0x{c:08x})"))
        out.append("\n")
        return (a, b, c)

    want, text = lib.reference(decode)
    env.check("structure", got, want)
    env.check("text", writer.text(), text)
    env.reach(want[0])


# Formatters.


def hexdump(env, size, pieces):
    """A dump whose rows repeat or not, in every combination."""
    rows = [env.bytes(f"row{i}", 16) for i in range(max(pieces) + 1)]
    data = b"".join([rows[i] for i in pieces])[:size]
    reader = Format()
    got = reader._FormatDataInHexadecimal(data)
    env.check("dump", got, (lib.hexdump_text(data), True))
    writer = lib.Writer()
    reader = Format(debug=True, output_writer=writer)
    reader._DebugPrintData("Some description", data)
    env.check("printed", writer.text(),
              "Some description:\n" + lib.hexdump_text(data))


def hexdump_equal(env, size, base, holes):
    data = lib.overlay(bytes.fromhex(base), [
        (at, env.bytes(f"at{at}", length)) for at, length in holes])[:size]
    reader = Format()
    got = reader._FormatDataInHexadecimal(data)
    env.check("dump", got, (lib.hexdump_text(data), True))


def integers(env, lo, hi):
    value = env.int("value", lo, hi)
    reader = Format()
    env.check("decimal", reader._FormatIntegerAsDecimal(value),
              (f"{value:d}", False))
    for digits, function in (
            (2, reader._FormatIntegerAsHexadecimal2),
            (4, reader._FormatIntegerAsHexadecimal4),
            (8, reader._FormatIntegerAsHexadecimal8)):
        if digits == 2:
            text = f"0x{value:02x}"
        elif digits == 4:
            text = f"0x{value:04x}"
        else:
            text = f"0x{value:08x}"
        env.check(f"hexadecimal{digits}", function(value), (text, False))
    env.check("offset", reader._FormatIntegerAsOffset(value),
              f"{value:d} (0x{value:08x})")
    writer = lib.Writer()
    reader = Format(debug=True, output_writer=writer)
    reader._DebugPrintDecimalValue("Number", value)
    env.check("printed", writer.text(), lib.line("Number", value))


def timestamps(env, kind, lo, hi):
    value = env.int("value", lo, hi)
    writer = lib.Writer()
    reader = Format(debug=True, output_writer=writer)
    if kind == "filetime":
        text = lib.filetime(value)
        env.check("text", reader._FormatIntegerAsFiletime(value),
                  (text, False))
        reader._DebugPrintFiletimeValue("Time", value)
        env.check("printed", writer.text(), lib.line("Time", text))
    elif kind == "posix":
        text = lib.posix_time(value)
        env.check("text", reader._FormatIntegerAsPosixTime(value), text)
        reader._DebugPrintPosixTimeValue("Time", value)
        env.check("printed", writer.text(), lib.line("Time", text))
    elif kind == "hfs":
        env.check("text", reader._FormatIntegerAsHFSTime(value),
                  lib.hfs_time(value))
    elif kind == "posix_us":
        env.check("text", reader._FormatIntegerAsPosixTimeInMicroseconds(
            value), lib.posix_time_us(value))
    elif kind == "posix_ns":
        env.check("text", reader._FormatIntegerAsPosixTimeInNanoseconds(
            value), lib.posix_time_ns(value))


def arrays(env, size):
    data = env.bytes("data", size)
    reader = Format()
    values = list(data)
    decimals = ""
    offsets = ""
    for value in values:
        decimals = decimals + (", " if decimals != "" else "") + f"{value}"
        offsets = offsets + (", " if offsets != "" else "") + \
            f"{value} (0x{value:08x})"
    env.check("decimals", reader._FormatArrayOfIntegersAsDecimals(values),
              (decimals, False))
    env.check("offsets", reader._FormatArrayOfIntegersAsOffsets(values),
              (offsets, False))
    v4 = None
    if size == 4:
        v4 = f"{values[0]}.{values[1]}.{values[2]}.{values[3]}"
    env.check("ipv4", reader._FormatArrayOfIntegersAsIPv4Address(values),
              (v4, False))
    v6 = None
    if size == 16:
        v6 = ":".join([f"{data[i]:02x}{data[i + 1]:02x}"
                       for i in range(0, 16, 2)])
    env.check("ipv6", reader._FormatArrayOfIntegersAsIPv6Address(values),
              (v6, False))


def stream(env, size):
    data = env.bytes("data", size)
    reader = Format()
    text = ""
    for value in data:
        text += lib.ESCAPED[value]
    env.check("text", reader._FormatStreamAsString(data), text)


def string(env, size, trailing):
    data = env.bytes("data", size)
    env.assume(env.all([x < 0x80 for x in data]))
    text = data.decode("ascii") + "\x00" * trailing
    end = size
    while end > 0 and data[end - 1] == 0:
        end -= 1
    env.check("text", Format()._FormatString(text),
              data[:end].decode("ascii"))


def uuids(env):
    import uuid
    data = env.bytes("data", 16)
    value = uuid.UUID(bytes_le=data)
    order = (3, 2, 1, 0, None, 5, 4, None, 7, 6, None, 8, 9, None, 10, 11, 12,
             13, 14, 15)
    text = ""
    for index in order:
        text += "-" if index is None else f"{data[index]:02x}"
    env.check("text", Format()._FormatUUIDAsString(value), text)


def labels(env, length):
    """Descriptions of every length line up the same way."""
    value = env.int("value", 0, 0xffffffff)
    description = "d" * length
    reader = Format()
    pad = max(9 - length // 8, 0)
    text = description + "\t" * pad + f": {value}\n"
    env.check("format", reader._FormatValue(description, value), text)
    writer = lib.Writer()
    reader = Format(debug=True, output_writer=writer)
    reader._DebugPrintValue(description, value)
    env.check("printed", writer.text(), text)
    reader._DebugPrintText("some text")
    env.check("text", writer.text(), text + "some text")

    class Capture(output_writers.StdoutWriter):
        written = ""

        def WriteText(self, text):
            self.written = self.written + text

    capture = Capture()
    capture.WriteValue(description, value)
    env.check("writer", capture.written, text)
    capture.WriteValue("\t" + description, value)
    pad = max(9 - (length + 8) // 8, 0)
    env.check("writer tab", capture.written,
              text + "\t" + description + "\t" * pad + f": {value}\n")
    # Without an output writer nothing is written and nothing fails.
    quiet = Format(debug=True)
    quiet._DebugPrintValue(description, value)
    quiet._DebugPrintData(description, b"1")
    quiet._DebugPrintText("text")


class Values:
    pass


def structures(env, kinds):
    """Every attribute of a structure is shown, in order."""
    values = Values()
    debug_info = []
    expected = []
    for index, kind in enumerate(kinds):
        name = f"v{index}"
        description = f"Value {index}" * (index + 1)
        if kind == "none":
            setattr(values, name, None)
            debug_info.append((name, description, "_FormatIntegerAsDecimal"))
        elif kind == "absent":
            debug_info.append((name, description, "_FormatIntegerAsDecimal"))
        elif kind == "decimal":
            value = env.int(name, -5, 0xffffffff)
            setattr(values, name, value)
            debug_info.append((name, description, "_FormatIntegerAsDecimal"))
            expected.append(lib.line(description, value))
        elif kind == "plain":
            value = env.int(name, -5, 0xffffffff)
            setattr(values, name, value)
            debug_info.append((name, description, None))
            expected.append(lib.line(description, value))
        elif kind == "unknown":
            value = env.int(name, -5, 0xffffffff)
            setattr(values, name, value)
            debug_info.append((name, description, "_NoSuchFormatter"))
            expected.append(lib.line(description, value))
        elif kind == "time":
            value = env.int(name, 0, 0xffffffff)
            setattr(values, name, value)
            debug_info.append((name, description, "_FormatIntegerAsPosixTime"))
            expected.append(lib.line(description, lib.posix_time(value)))
        elif kind == "data":
            value = env.bytes(name, 5)
            setattr(values, name, value)
            debug_info.append((name, description, "_FormatDataInHexadecimal"))
            expected.append(description + ":\n" + lib.hexdump_text(value))
        elif kind == "list":
            value = [env.int(f"{name}_{i}", 0, 255) for i in range(2)]
            setattr(values, name, value)
            debug_info.append(
                (name, description, "_FormatArrayOfIntegersAsDecimals"))
            expected.append(lib.line(
                description, f"{value[0]}, {value[1]}"))
    text = "".join(expected)
    shown = [x for x in kinds if x not in ("none", "absent")]
    if not shown or shown[-1] != "data":
        text += "\n"
    reader = Format()
    env.check("text", reader._FormatStructureObject(values, debug_info), text)
    writer = lib.Writer()
    reader = Format(debug=True, output_writer=writer)
    reader._DebugPrintStructureObject(values, debug_info)
    env.check("printed", writer.text(), text)


# Life cycle of files.


class File(data_format.BinaryDataFile):
    _FABRIC = dtfabric_fabric.DataTypeFabric(yaml_definition=DEFINITION)

    seen = None

    def ReadFileObject(self, file_object):
        if not self._file_size:
            self.seen = None, 0
            return
        data = self._ReadData(file_object, 0, 2, "test")
        if data[0] != 0x41:
            raise errors.ParseError("signature")
        self.seen = data[1], self._file_size


def life_cycle(env, operations):
    contents = {f"/f{i}": env.bytes(f"file{i}", 3 + i) for i in range(2)}
    contents["/short"] = b"A"
    contents["/empty"] = b""
    with lib.use_files(contents) as file_system:
        reader = File(file_system_helper=env.pick(
            "helper", [None, file_system]))
        opened = None
        for number, operation in enumerate(operations):
            if operation == "close":
                got = lib.outcome(reader.Close)
                if opened is None:
                    env.check(f"{number}:close", got, ("raise", "OSError"))
                else:
                    env.check(f"{number}:close", got, ("ok", None))
                    env.check(f"{number}:closed", opened.close_count, 1)
                    opened = None
                continue
            path = operation
            before = len(file_system.opened)
            got = lib.outcome(reader.Open, path)
            if opened is not None:
                env.check(f"{number}:open", got, ("raise", "OSError"))
                env.check(f"{number}:untouched", len(file_system.opened),
                          before)
                env.check(f"{number}:usable", opened.closed, False)
                continue
            data = contents[path]
            if len(data) == 1:
                env.check(f"{number}:open", got, ("raise", "ParseError"))
            elif data and data[0] != 0x41:
                env.check(f"{number}:open", got, ("raise", "ParseError"))
            else:
                env.check(f"{number}:open", got, ("ok", None))
                env.check(f"{number}:seen", reader.seen,
                          (data[1] if data else None, len(data)))
                opened = file_system.opened[-1]
                env.check(f"{number}:usable", opened.closed, False)
    env.reach("history completed")


def given(env, rounds):
    """A file object that is passed in stays open and is not kept."""
    reader = File(file_system_helper=lib.MemFileSystem({}))
    for number in range(rounds):
        data = env.bytes(f"data{number}", 2)
        file_object = lib.MemFile(data)
        reader._file_size = 2
        got = lib.outcome(reader.ReadFileObject, file_object)
        good = data[0] == 0x41
        env.check(f"{number}:read", got[0], "ok" if good else "raise")
        env.check(f"{number}:open", file_object.close_count, 0)
        env.check(f"{number}:close", lib.outcome(reader.Close),
                  ("raise", "OSError"))
        env.check(f"{number}:still open", file_object.close_count, 0)
    env.reach("read")


# Debug definitions.


FORMATS = ("binary_data", "decimal", "floating_point", "hexadecimal",
           "hexadecimal_2digits", "hexadecimal_4digits",
           "hexadecimal_8digits", "string", "uuid")


def definitions(env, count, extra):
    """Debug definitions are accepted exactly when they are complete."""
    names = [env.pick(f"name{i}", [None, "", "x", "y"]) for i in range(count)]
    descriptions = [env.pick(f"description{i}", [None, "", "X"])
                    for i in range(count)]
    formats = [env.pick(f"format{i}", [None, ""] + extra)
               for i in range(count)]
    data_type_map = env.pick("map", [None, "", "m"] if count < 2 else ["m"])
    key = env.pick("key", [None, "other"] if count < 2 else [None])
    attributes = []
    for name, description, value in zip(names, descriptions, formats):
        attribute = {}
        if name is not None:
            attribute["name"] = name
        if description is not None:
            attribute["description"] = description
        if value is not None:
            attribute["format"] = value
        attributes.append(attribute)
    values = {"attributes": attributes}
    if data_type_map is not None:
        values["data_type_map"] = data_type_map
    if key:
        values[key] = 1

    def decode(out):
        if key or not data_type_map or not attributes:
            raise lib.Reject("incomplete")
        seen = []
        for name, description, value in zip(names, descriptions, formats):
            if not name or not description or not value or name in seen:
                raise lib.Reject("attribute")
            if value not in FORMATS and value[:7] != "custom:":
                raise lib.Reject("format")
            seen.append(name)
        return (data_type_map, list(zip(names, descriptions, formats)))

    reader = yaml_definitions_file.YAMLDebugDefinitionsFile()
    got = lib.outcome(reader._ReadDefinition, values)
    if got[0] == "ok":
        got = ("ok", (got[1].data_type_map, [
            (x.name, x.description, x.format)
            for x in got[1].attributes.values()]))
    want, _ = lib.reference(decode)
    env.check("definition", got, want)
    env.reach(want[0])


def _register():
    add = REGISTRY.add
    for size, hi in ((4, 6), (0, 2)):
        add("C02", f"data-{size}", read_data, {"file_size": size, "hi": hi},
            bounds=f"file of {size} symbolic bytes; offset and size from "
                   f"-2^64 to 2^65, any earlier position to {hi}")
    for debug in (False, True):
        add("C02", f"fixed-{debug}", read_structure,
            {"kind": "fixed", "file_size": 9, "hi": 10, "debug": debug,
             "count": 0}, bounds="9 symbolic bytes, offset 0..10")
        for kind, size, hi, count in (
                ("counted", 7, 2, 3), ("guarded", 6, 2, 255),
                ("counted", 1, 2, 255), ("counted", 4, 0, 255),
                ("guarded", 2, 2, 255)):
            add("C02", f"{kind}-{size}-{debug}", read_structure,
                {"kind": kind, "file_size": size, "hi": hi, "debug": debug,
                 "count": count},
                bounds=f"{size} symbolic bytes, offset 0..{hi}")
    add("C02", "counted-long", read_structure,
        {"kind": "counted", "file_size": 10, "hi": 3, "debug": False,
         "count": 255}, tier="thorough",
        bounds="10 symbolic bytes, offset 0..3")
    add("C02", "object", read_object, {"file_size": 9},
        bounds="9 symbolic bytes, offset 0..3")
    for size in list(range(0, 18)) + [24, 31, 32]:
        add("C03", f"hexdump-{size}", hexdump,
            {"size": size, "pieces": list(range(size // 16 + 1))},
            bounds=f"{size} symbolic bytes")
    for name, pieces in (
            ("aa", (0, 0)), ("aaa", (0, 0, 0)), ("aaaa", (0, 0, 0, 0)),
            ("aaba", (0, 0, 1, 0)), ("aaabb", (0, 0, 0, 1, 1)),
            ("abab", (0, 1, 0, 1)), ("aabbbb", (0, 0, 1, 1, 1, 1))):
        for less in (0, 1, 8, 15):
            add("C03", f"hexdump-{name}-{less}", hexdump,
                {"size": 16 * len(pieces) - less, "pieces": pieces},
                bounds=f"rows {name} of symbolic bytes, last row short by "
                       f"{less}")
    add("C03", "integers", integers, {"lo": -(1 << 63), "hi": (1 << 64) - 1},
        bounds="any 64-bit integer, signed or not")
    for kind, lo, hi in (
            ("filetime", 0, (1 << 64) - 1), ("posix", -(1 << 31), 1 << 32),
            ("hfs", 0, 0xffffffff), ("posix_us", 0, 1 << 52),
            ("posix_ns", 0, 1 << 62)):
        add("C03", f"time-{kind}", timestamps,
            {"kind": kind, "lo": lo, "hi": hi}, bounds=f"{lo}..{hi}")
    for size in (0, 1, 3, 4, 5, 15, 16, 17):
        add("C03", f"array-{size}", arrays, {"size": size},
            bounds=f"{size} symbolic integers")
    for size in (0, 1, 2, 4):
        add("C03", f"stream-{size}", stream, {"size": size},
            bounds=f"{size} symbolic bytes")
    for size, trailing in ((0, 0), (0, 2), (2, 0), (3, 1)):
        add("C03", f"string-{size}-{trailing}", string,
            {"size": size, "trailing": trailing},
            bounds=f"{size} symbolic characters, {trailing} NUL")
    add("C03", "uuid", uuids, {}, bounds="16 symbolic bytes")
    for length in (1, 7, 8, 15, 16, 31, 63, 64, 71, 72, 73, 80):
        add("C03", f"label-{length}", labels, {"length": length},
            bounds=f"description of {length} characters, symbolic value")
    for kinds in (
            (), ("none",), ("decimal", "absent", "plain"),
            ("unknown", "time", "none", "list"), ("data", "decimal"),
            ("decimal", "data"), ("data",), ("data", "data", "none")):
        add("C03", "structure-" + "-".join(kinds), structures,
            {"kinds": kinds}, bounds="symbolic attribute values")
    names = ("/f0", "/f1", "/short", "/empty", "close")
    for first in names:
        for second in names:
            for third in names:
                add("C04", f"{first}-{second}-{third}", life_cycle,
                    {"operations": (first, second, third)},
                    bounds="3 operations on 3 files, 2 with symbolic content")
    for rounds in (1, 2):
        add("C04", f"given-{rounds}", given, {"rounds": rounds},
            bounds=f"{rounds} file objects with 2 symbolic bytes")
    for path in ("/f0", "/f1", "close"):
        add("C04", f"longer-{path}", life_cycle,
            {"operations": ("/f0", "close", path, "/short", "/f1", "close")},
            bounds="6 operations on 3 files, 2 with symbolic content")
    for count in (0, 1, 2):
        extra = ["decimal", "custom:", "nope"]
        if count == 1:
            extra = list(FORMATS) + ["custom:", "custom:x", "custom", "nope",
                                     "hexadecimal_3digits", "Decimal"]
        add("C05", f"definition-{count}", definitions,
            {"count": count, "extra": extra},
            bounds=f"{count} attributes, each key absent, empty or set")


_register()
