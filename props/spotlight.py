"""C20: Apple Spotlight stores."""

import struct
import zlib

import lz4.block

from dfdatetime import cocoa_time
from dtformats import spotlight_storedb

from props import lib

REGISTRY = lib.Registry()
cases = REGISTRY.cases
find_case = REGISTRY.find

STORE = "/s/store.db"
BLOCK = 0x1000

HEADER = (
    ("Signature", 4, "str"), ("Flags", 4, "x8"), ("Unknown1", 4, "x8"),
    ("Unknown2", 4, "x8"), ("Unknown3", 4, "x8"), ("Unknown4", 4, "x8"),
    ("Unknown5", 4, "x8"), ("Unknown6", 4, "x8"), ("Unknown7", 4, "x8"),
    ("Map offset", 4, "x8"), ("Map size", 4, "d"), ("Page size", 4, "d"),
    ("Metadata types block number", 4, "d"),
    ("Metadata values block number", 4, "d"),
    ("Unknown values 0x41 block number", 4, "d"),
    ("Metadata lists block number", 4, "d"),
    ("Metadata localized strings block number", 4, "d"),
    ("Unknown8", 256, "b"))

STREAMS = (
    ("Signature", 8, "str"), ("Unknown1", 4, "x8"), ("Unknown2", 4, "x8"),
    ("Unknown3", 4, "x8"), ("Data size", 4, "d"),
    ("Number of buckets", 4, "d"), ("Number of offsets", 4, "d"),
    ("Copy of data size", 4, "d"), ("Copy of number of buckets", 4, "d"),
    ("Copy of number of offsets", 4, "d"), ("Unknown10", 4, "x8"),
    ("Unknown11", 4, "x8"), ("Unknown12", 4, "x8"))


def number(data, offset, end):
    """The leading one bits of the first byte count the bytes that follow."""
    if offset >= end:
        raise lib.Reject("number")
    first = data[offset]
    more = 0
    while more < 8 and first >= 256 - 2 ** (7 - more):
        more += 1
    if offset + 1 + more > end:
        raise lib.Reject("number")
    value = 0
    if more < 5:
        value = first % 2 ** (7 - more)
    for index in range(more):
        value = value * 256 + data[offset + 1 + index]
    return value, offset + 1 + more


def text_at(data, offset, end):
    stop = offset
    while True:
        if stop >= end:
            raise lib.Reject("text")
        if data[stop] == 0:
            break
        stop += 1
    try:
        return data[offset:stop].decode("utf-8"), stop + 1
    except UnicodeDecodeError:
        raise lib.Reject("text")


def cocoa(value):
    if value == 0:
        return "Not set (0)"
    try:
        text = cocoa_time.CocoaTime(timestamp=value).CopyToDateTimeString()
    except (OverflowError, ValueError):
        return f"{value:f}"
    return f"{text:s} UTC"


class Unspecified(Exception):
    """The file mixes tables: only the kind of outcome is specified."""


def find(table, index):
    """The entry of a table that was stored last."""
    for key, value in reversed(table):
        if key == index:
            return value
    return None


class Store:
    """Reference decoder of a store and its streams."""

    def __init__(self, out, files):
        self.out = out
        self.files = files
        self.data = files[STORE]
        self.types = []
        self.names = []
        self.lists = []
        self.strings = []
        self.records = []
        self.pages = []

    def line(self, label, value):
        self.out.append(lib.line(label, value))

    def open(self, debug):
        data = self.data
        if len(data) < 580:
            raise lib.Reject("header")
        if data[:4] != b"8tsd":
            raise lib.Reject("signature")
        path = data[324:580]
        stop = 0
        while stop < 256 and path[stop] != 0:
            stop += 1
        try:
            path = path[:stop].decode("utf-8")
        except UnicodeDecodeError:
            raise lib.Reject("path")
        header = lib.layout(self.out, data, 0, HEADER[:-1])
        self.out.pop()
        self.out.append(lib.dump("Unknown8", data[68:324]))
        self.out.append(lib.item("Path", path))
        lib.close(self.out)
        blocks = self.map(header[9], header[10])
        self.attributes(header[12], 1, self.types)
        self.attributes(header[13], 2, self.names)
        self.indexes(header[14], 3, [])
        self.indexes(header[15], 4, self.lists)
        self.indexes(header[16], 5, self.strings)
        for block in blocks:
            self.record_page(block * BLOCK)
        if debug:
            for identifier in sorted(self.identifiers()):
                self.item(identifier)

    def map(self, offset, size):
        result = []
        end = offset + size
        while offset < end:
            if lib.uint(self.data, offset, 4) not in (0x64626d31, 0x64626d32):
                raise lib.Reject("signature")
            values = lib.layout(self.out, self.data, offset, (
                ("Signature", 4, "str"), ("Page size", 4, "d"),
                ("Number of map values", 4, "d"), ("Unknown1", 4, "x8"),
                ("Unknown2", 4, "x8")))
            if values[1] < 20:
                raise lib.Reject("page size")
            at = offset + 20
            count = 0
            while count < values[2]:
                entry = lib.layout(self.out, self.data, at, (
                    ("Unknown1", 8, "x8"), ("Block number", 4, "d"),
                    ("Unknown2", 4, "x8")))
                result.append(entry[1])
                at += 16
                count += 1
            offset += values[1]
        return result

    def page(self, offset):
        values = []
        for index in range(5):
            values.append(lib.uint(self.data, offset + 4 * index, 4))
        if values[0] != 0x64627032:
            raise lib.Reject("signature")
        size = values[1]
        if size < 20 or size < values[2]:
            raise lib.Reject("page size")
        self.line("Block number", offset // BLOCK)
        self.line("Page number", offset // size)
        self.out.append("\n")
        lib.layout(self.out, self.data, offset, (
            ("Signature", 4, "str"), ("Page size", 4, "d"),
            ("Used page size", 4, "d"), ("Property table type", 4, "x8"),
            ("Uncompressed page size", 4, "d")))
        return values

    def content(self, offset, size):
        if offset + size > len(self.data):
            raise lib.Reject("page")
        return self.data[offset + 20:offset + size]

    def property_pages(self, block, table):
        seen = []
        while block != 0:
            if block in seen:
                raise lib.Reject("loop")
            seen.append(block)
            head = self.page(block * BLOCK)
            kind = None
            for entry in (0x11, 0x21, 0x41, 0x81):
                if head[3] == entry:
                    kind = entry
            if kind is None:
                raise lib.Reject("type")
            if (kind == 0x11) != (table is self.types) or (
                    (kind == 0x21) != (table is self.names)):
                raise Unspecified()
            data = self.content(block * BLOCK, head[1])
            block = lib.layout(self.out, data, 0, (
                ("Next block number", 4, "d"), ("Unknown1", 8, "x8")))[0]
            offset = 12
            while kind != 0x41 and offset < head[2] - 20:
                index = lib.uint(data, offset, 4)
                if kind == 0x11:
                    offset = self.type_entry(table, index, data, offset + 4)
                elif kind == 0x21:
                    offset = self.name_entry(table, index, data, offset + 4)
                else:
                    offset = self.list_entry(table, index, data, offset + 4)

    def type_entry(self, table, index, data, offset):
        value_type = lib.uint(data, offset, 1)
        property_type = lib.uint(data, offset + 1, 1)
        name, offset = text_at(data, offset + 2, len(data))
        self.line("Table index", index)
        self.line("Value type", f"0x{value_type:02x}")
        self.line("Property type", f"0x{property_type:02x}")
        self.out.append(lib.item("Key name", name))
        lib.close(self.out)
        table.append((index, (value_type, property_type, name)))
        return offset

    def name_entry(self, table, index, data, offset):
        name, offset = text_at(data, offset, len(data))
        self.line("Table index", index)
        self.out.append(lib.item("Value name", name))
        lib.close(self.out)
        table.append((index, name))
        return offset

    def list_entry(self, table, index, data, offset, padding=False):
        size, offset = number(data, offset, len(data))
        rest = size % 4
        values = []
        while 4 * len(values) < size - rest:
            values.append(lib.uint(data, offset + rest + 4 * len(values), 4))
        self.line("Table index", index)
        self.line("Index size", size - rest)
        if padding:
            self.out.append(lib.dump("Padding", data[offset:offset + rest]))
        self.line("Index values", ", ".join([f"{x:d}" for x in values]))
        self.out.append("\n")
        names = []
        for value in values:
            name = find(self.names, value)
            if name is None:
                name = ""
            names.append(name)
            self.line(f"Value: {value:d}", name)
        self.out.append("\n")
        table.append((index, names))
        return offset + size

    def attributes(self, block, which, table):
        if block != 0:
            self.property_pages(block, table)
            return
        for index, stream in self.streams(which):
            size, offset = number(stream, 0, len(stream))
            self.line("Data size", size)
            if offset + size != len(stream):
                continue
            if which == 1:
                self.type_entry(table, index, stream, offset)
            else:
                self.name_entry(table, index, stream, offset)

    def indexes(self, block, which, table):
        if block != 0:
            self.property_pages(block, table)
            return
        for index, stream in self.streams(which):
            first, offset = number(stream, 0, len(stream))
            self.line("Unknown1", first)
            self.list_entry(table, index, stream, offset, padding=True)

    def streams(self, which):
        base = f"/s/dbStr-{which:d}.map."
        size, count = streams_header([], self.files[base + "header"])
        ranges = streams_offsets([], self.files[base + "offsets"], size, count)
        values = streams_values([], self.files[base + "data"], size, ranges)
        return [(index, value) for index, value in enumerate(values)
                if index > 0]

    # Records.

    def record_page(self, offset):
        head = self.page(offset)
        kind = None
        for entry in (0x9, 0x1009, 0x4009, 0x5009):
            if head[3] == entry:
                kind = entry
        if kind is None:
            raise lib.Reject("type")
        data = self.content(offset, head[1])
        if head[4] > 0:
            if kind & 0x1000 and data[:4] in (b"bv41", b"bv4-"):
                data = self.lz4(data)
            elif data[:1] == b"\x78":
                try:
                    data = zlib.decompress(data)
                except zlib.error:
                    raise lib.Reject("compressed")
            else:
                self.out.append(lib.dump("Data", data))
                raise lib.Reject("compression")
        elif head[2] < 20:
            data = b""
        else:
            data = data[:head[2] - 20]
        at = 0
        while at < len(data):
            self.line("Record data offset", f"0x{at + 20:08x}")
            size, values, _ = self.record_header(data, at)
            identifier, flags, item, parent, time = values
            self.line("Identifier" if identifier <= 1
                      else "File system identifier", identifier)
            self.line("Flags", f"0x{flags:02x}")
            self.line("Item identifier", f"0x{item:02x}")
            self.line("Parent identifier" if parent <= 1
                      else "Parent file system identifier", parent)
            self.line("Last update time", lib.posix_time_us(time))
            self.out.append("\n")
            self.records.append((identifier, (offset, data, at)))
            at += 4 + size

    def record_header(self, data, at):
        size = lib.uint(data, at, 4)
        identifier, offset = number(data, at + 4, len(data))
        flags = lib.uint(data, offset, 1)
        item, offset = number(data, offset + 1, len(data))
        parent, offset = number(data, offset, len(data))
        time, offset = number(data, offset, len(data))
        self.line("Record data size", size)
        return size, (identifier, flags, item, parent, time), offset

    def lz4(self, data):
        result = b""
        previous = None
        at = 0
        while True:
            if at >= len(data):
                raise lib.Reject("marker")
            marker = data[at:at + 4]
            self.out.append(lib.dump("LZ4 block marker", marker))
            if marker == b"bv4$":
                return result
            values = lib.layout(self.out, data, at, (
                ("Signature", 4, "str"), ("Uncompressed data size", 4, "d"),
                ("compressed data size", 4, "d")))
            if marker == b"bv4-":
                previous = data[at + 8:at + 8 + values[1]]
                at += 8 + values[1]
            elif marker == b"bv41":
                content = data[at + 12:at + 12 + values[2]]
                try:
                    previous = lz4.block.decompress(
                        content, uncompressed_size=values[1], dict=previous)
                except (lz4.block.LZ4BlockError, OverflowError):
                    raise lib.Reject("compressed")
                at += 12 + values[2]
            else:
                raise lib.Reject("marker")
            result += previous

    def identifiers(self):
        result = []
        for identifier, _ in self.records:
            if identifier not in result:
                result.append(identifier)
        return result

    def item(self, identifier):
        place, data, at = find(self.records, identifier)
        self.out.append(
            f"Retrieving record: {identifier:d} in page: 0x{place:08x} at "
            f"offset: 0x{at + 20:04x}\n")
        self.out.append("\n")
        self.line("Record data offset", f"0x{at + 20:08x}")
        size, values, offset = self.record_header(data, at)
        end = at + 4 + size
        if end > len(data):
            raise lib.Reject("record")
        attributes = []
        index = 0
        count = 0
        while offset < end:
            step, offset = number(data, offset, end)
            index += step
            self.line(f"Relative metadata attribute: {count:d} type index",
                      step)
            self.line(f"Metadata attribute: {count:d} type index", index)
            entry = find(self.types, index)
            if entry is None:
                raise lib.Reject("attribute type")
            value, offset = self.attribute(entry, data, offset, end)
            attribute = (entry[2], entry[1], entry[0], value)
            place = None
            for position, other in enumerate(attributes):
                if other[0] == entry[2]:
                    place = position
            if place is None:
                attributes.append(attribute)
            else:
                attributes[place] = attribute
            count += 1
        return (values[0], values[2], values[3], values[4], [
            entry[:3] + (plain(entry[3]), ) for entry in attributes])

    def attribute(self, entry, data, offset, end):
        kind, flags, name = entry
        self.line("Key name", name)
        self.line("Property type", f"0x{flags:02x}")
        self.line("Value type", f"0x{kind:02x}")
        many = flags & 2 != 0
        value = None
        if name == "kMDStoreAccumulatedSizes":
            value = data[offset:end]
            self.out.append(lib.dump("Data", value))
            offset = end
        elif kind == 0 or kind == 2 or kind == 6:
            value, offset = number(data, offset, end)
            if kind == 0:
                self.line("Integer", value)
                self.line("Boolean", "False" if value == 0 else "True")
            else:
                self.line("Integer", f"0x{value:08x}")
        elif kind == 7 and not many:
            value, offset = number(data, offset, end)
            self.line("Integer", value)
        elif kind == 7:
            size, offset = self.size(data, offset, end)
            stop = offset + size
            value = []
            while offset < stop:
                element, offset = number(data, offset, min(stop, end))
                value.append(element)
            self.each("Integer", value)
        elif kind == 8 and not many:
            value = lib.uint(data[:end], offset, 1)
            offset += 1
            self.line("Byte", value)
        elif kind == 8:
            size, offset = self.size(data, offset, end)
            if offset + size > end:
                raise lib.Reject("bytes")
            value = [data[offset + i] for i in range(size)]
            offset += size
            self.each("Byte", value)
        elif kind == 9 or kind == 10 or kind == 12:
            value, offset = self.floats(kind, many, data, offset, end)
        elif kind == 11:
            value, offset = self.text(flags, data, offset, end)
        elif kind == 14:
            size, offset = self.size(data, offset, end)
            if offset + size > end:
                raise lib.Reject("binary")
            value = data[offset:offset + size]
            offset += size
        elif kind == 15:
            value, offset = self.reference(flags, data, offset, end)
        self.out.append("\n")
        return value, offset

    def size(self, data, offset, end):
        size, offset = number(data, offset, end)
        self.line("Data size", size)
        return size, offset

    def each(self, label, values):
        for index, value in enumerate(values):
            self.line(f"{label:s}: {index:d}", value)

    def floats(self, kind, many, data, offset, end):
        width = 4 if kind == 9 else 8
        form = "<f" if kind == 9 else "<d"
        size = width
        if many:
            size, offset = self.size(data, offset, end)
        values = []
        while (len(values) + 1) * width <= size:
            at = offset + len(values) * width
            if at + width > end:
                raise lib.Reject("float")
            values.append(struct.unpack(form, data[at:at + width])[0])
        for index, value in enumerate(values):
            text = f"{value:f}"
            label = "Floating-point"
            if kind == 12 and value < 7500000000.0:
                label = "Date and time"
                text = cocoa(value)
            if many:
                label = f"{label:s}: {index:d}"
            self.line(label, text)
        return (values if many else values[0]), offset + size

    def text(self, flags, data, offset, end):
        size, offset = self.size(data, offset, end)
        stop = offset + size
        self.out.append(lib.dump("Data", data[offset:min(stop, end)]))
        if stop > end:
            raise lib.Reject("text")
        values = []
        while offset < stop:
            value, offset = text_at(data, offset, stop)
            values.append(value)
        if flags & 3 == 2:
            for index, value in enumerate(values):
                self.line(f"String: {index:d}", value)
            return values, offset
        if not values:
            raise lib.Reject("text")
        value = values[0]
        if flags & 3 == 3:
            value = value.split("\x16\x02")[0]
        self.line("String", value)
        return value, offset

    def reference(self, flags, data, offset, end):
        index, offset = number(data, offset, end)
        if flags & 3 == 3:
            self.line("Localized strings table index", index)
            values = find(self.strings, index)
            value = values[0] if values else "(null)"
            value = value.split("\x16\x02")[0]
            self.line("Localized string", value)
        elif flags & 3 == 2:
            self.line("Values list table index", index)
            value = find(self.lists, index)
            if value is None:
                value = []
            self.line("Values list", f"{value!s}")
        else:
            self.line("Values table index", index)
            value = find(self.names, index)
            if value is None:
                value = "(null)"
            self.line("Value", value)
        return value, offset


def streams_header(out, data):
    if len(data) < 56 or data[:8] != b"\x00PataD\x00\x00":
        raise lib.Reject("header")
    values = lib.layout(out, data, 0, STREAMS)
    return values[4], values[6]


def streams_offsets(out, data, size, count):
    if 4 * count > len(data):
        raise lib.Reject("offsets")
    offsets = []
    while len(offsets) < count:
        offsets.append(lib.uint(data, 4 * len(offsets), 4))
    ranges = []
    for index, offset in enumerate(offsets):
        if index > 0:
            first = offsets[index - 1]
            ranges.append((first, offset - first))
            out.append(lib.line(
                f"Range: {index:d}",
                f"0x{first:08x} - 0x{offset:08x} ({offset - first:d})"))
    if offsets and offsets[-1] != 0:
        first = offsets[-1]
        ranges.append((first, size - first))
        out.append(lib.line(
            f"Range: {len(offsets) - 1:d}",
            f"0x{first:08x} - 0x{size:08x} ({size - first:d})"))
    out.append("\n")
    return ranges


def streams_values(out, data, size, ranges):
    if size > len(data):
        raise lib.Reject("data")
    values = []
    for index, (offset, length) in enumerate(ranges):
        value = data[:size][offset:offset + length]
        out.append(lib.dump(
            f"Stream value: {index:d} at offset: 0x{offset:08x} of size: "
            f"{length:d}", value))
        values.append(value)
    return values


# Runners.


def place(env, parts, base, holes, size, limits):
    """Files out of the parts (path, offset, size) of a byte string."""
    data = lib.fill(env, base, holes, size, limits)
    files = {}
    at = 0
    for path, offset, length in parts:
        have = files.get(path, b"")
        if offset > len(have):
            have += b"\x00" * (offset - len(have))
        files[path] = have + data[at:at + length]
        at += length
    return files


def same_nan(value):
    if getattr(value, "bits", None) is None and value != value:
        return "nan"
    return value


def plain(value):
    if type(value) in (list, tuple):
        return [same_nan(element) for element in value]
    value = same_nan(value)
    return value


def item_of(reader, identifier):
    item = reader.GetMetadataItemByIdentifier(identifier)
    if item is None:
        return None
    return (item.identifier, item.item_identifier, item.parent_identifier,
            item.last_update_time,
            [(key, entry.property_type, entry.value_type, plain(entry.value))
             for key, entry in item.attributes.items()])


def make(debug, writer):
    return spotlight_storedb.SpotlightStoreDatabaseFile(
        debug=debug, output_writer=writer)


def judge(env, function, *args):
    """What a reference decoder makes of it, as an outcome."""
    try:
        return ("ok", function(*args))
    except lib.Reject:
        return ("raise", "ParseError")
    except Unspecified:
        return ("any", None)


def handled(result):
    """An outcome that is allowed of any file."""
    return result[0] == "ok" or result[1] == "ParseError"


def run_store(env, parts, base, holes, size=None, limits=()):
    files = place(env, parts, base, holes, size, limits)
    for debug in (True, False):
        out = []
        store = Store(out, files)
        want = judge(env, store.open, debug)
        name = "debug" if debug else "quiet"
        result, text, reader = lib.read_file(
            env, make, files, debug=debug, path=STORE)
        if want[0] == "any":
            env.check(f"{name} handled", handled(result), True)
            env.reach(want[0])
            continue
        env.check(f"{name} outcome", result, want)
        env.check(f"{name} text", text, "".join(out) if debug else "")
        if want[0] == "ok":
            identifiers = store.identifiers()
            env.check(f"{name} number", reader.number_of_metadata_items,
                      len(identifiers))
            for identifier in identifiers:
                env.check(f"{name} item",
                          lib.outcome(item_of, reader, identifier),
                          judge(env, store.item, identifier))
        if debug:
            env.reach(want[0])


def run_streams(env, parts, base, holes, size=None, limits=()):
    """The three files of a streams map, each with its own output."""
    files = place(env, parts, base, holes, size, limits)
    out = []
    module = spotlight_storedb

    def header(debug, writer):
        return module.SpotlightStreamsMapHeaderFile(
            debug=debug, output_writer=writer)

    want = judge(env, streams_header, out, files["/header"])
    result, text, reader = lib.read_file(env, header, files, path="/header")
    env.check("header outcome", (result[0], ), (want[0], ))
    env.check("header text", text, "".join(out))
    env.reach(want[0])
    if want[0] != "ok":
        env.check("header error", result, want)
        return
    length, count = want[1]
    env.check("header values", (reader.data_size, reader.number_of_offsets),
              want[1])

    def offsets(debug, writer):
        return module.SpotlightStreamsMapOffsetsFile(
            length, count, debug=debug, output_writer=writer)

    out = []
    want = judge(env, streams_offsets, out, files["/offsets"], length, count)
    result, text, reader = lib.read_file(env, offsets, files, path="/offsets")
    env.check("offsets outcome", (result[0], ), (want[0], ))
    if want[0] != "ok":
        env.check("offsets error", result, want)
        return
    env.check("offsets text", text, "".join(out))
    env.check("offsets values", reader.ranges, want[1])
    ranges = want[1]

    def values(debug, writer):
        return module.SpotlightStreamsMapDataFile(
            length, ranges, debug=debug, output_writer=writer)

    out = []
    want = judge(env, streams_values, out, files["/data"], length, ranges)
    result, text, reader = lib.read_file(env, values, files, path="/data")
    env.check("data outcome", (result[0], ), (want[0], ))
    if want[0] != "ok":
        env.check("data error", result, want)
        return
    env.check("data text", text, "".join(out))
    env.check("data values", reader.stream_values, want[1])


# Example files.


def le(*values):
    return b"".join([value.to_bytes(4, "little") for value in values])


def var(value):
    return bytes([value]) if value < 128 else bytes(
        [0xc0]) + value.to_bytes(2, "big")


def page(kind, content, uncompressed=0, used=None, size=None, spare=4):
    if size is None:
        size = 20 + len(content) + spare
    if used is None:
        used = 20 + len(content)
    return b"2pbd" + le(size, used, kind, uncompressed) + content + (
        b"\xaa" * (size - 20 - len(content)))


def property_page(kind, content, following=0, **options):
    return page(kind, le(following) + b"\x07" * 8 + content, **options)


def type_value(index, kind, flags, name):
    return le(index) + bytes([kind, flags]) + name + b"\x00"


def list_value(index, values, padding=b""):
    return le(index) + var(4 * len(values) + len(padding)) + padding + le(
        *values)


def make_record(values, identifier=b"\x05", item=b"\x07", parent=b"\x02",
                time=b"\xf8\x0f\x00\x00\x00\x00"):
    content = identifier + b"\x11" + item + parent + time
    for step, value in values:
        content += var(step) + value
    return le(len(content)) + content


def header(blocks, map_offset=580, map_size=None, path=b"/.Spotlight"):
    return (b"8tsd" + le(0x10004, 0, 12, 0, 3, 0, 4, 0, map_offset, map_size,
                         4096, *blocks)
            + b"\x00" * 250 + b"\x01\x02\x03\x04\x05\x06"
            + path.ljust(256, b"\x00"))


def map_page(blocks, size=None):
    content = b""
    for index, block in enumerate(blocks):
        content += le(index, 1, block, 0x4000)
    if size is None:
        size = 20 + len(content) + 4
    return b"2mbd" + le(size, len(blocks), 1, 2) + content + b"\x00" * (
        size - 20 - len(content))


class Example:
    """Parts of a store, and where they are in the joined base."""

    def __init__(self):
        self.parts = []
        self.base = b""
        self.at = {}

    def add(self, name, path, offset, content):
        self.at[name] = len(self.base)
        self.parts.append([path, offset, len(content)])
        self.base += content


TYPES = ((1, 0x00, 0x0c, b"flag"), (2, 0x07, 0x0c, b"int"),
         (3, 0x07, 0x0e, b"ints"), (4, 0x08, 0x0c, b"byte"),
         (5, 0x08, 0x0e, b"bytes"), (6, 0x09, 0x00, b"float"),
         (7, 0x09, 0x02, b"floats"), (8, 0x0a, 0x00, b"double"),
         (9, 0x0a, 0x02, b"doubles"), (10, 0x0b, 0x00, b"string"),
         (11, 0x0b, 0x02, b"strings"), (12, 0x0b, 0x03, b"local"),
         (13, 0x0c, 0x00, b"date"), (14, 0x0c, 0x02, b"dates"),
         (15, 0x0e, 0x00, b"blob"), (16, 0x0f, 0x00, b"value"),
         (17, 0x0f, 0x02, b"list"), (18, 0x0f, 0x03, b"localized"),
         (19, 0x02, 0x00, b"group"), (20, 0x01, 0x00, b"other"),
         (21, 0x0e, 0x08, b"kMDStoreAccumulatedSizes"),
         (22, 0x06, 0x00, b"version"), (23, 0x0b, 0x01, b"one"))


def example(records, types=TYPES[:3], names=((1, b"alpha"), (4, b"b\xc3\xa9")),
            lists=((2, (1, 4), b""), (3, (4, 9), b"\x07")),
            strings=((5, (1, ), b""), ), pages=None, map_blocks=None):
    result = Example()
    if pages is None:
        pages = [page(0x9, records)]
    blocks = [6 + i for i in range(len(pages))]
    table = map_page(blocks if map_blocks is None else map_blocks)
    result.add("header", STORE, 0, header((1, 2, 3, 4, 5),
                                          map_size=len(table)))
    result.add("map", STORE, 580, table)
    result.add("types", STORE, BLOCK, property_page(
        0x11, b"".join([type_value(*x) for x in types])))
    result.add("names", STORE, 2 * BLOCK, property_page(
        0x21, b"".join([le(x) + y + b"\x00" for x, y in names])))
    result.add("other", STORE, 3 * BLOCK, property_page(0x41, b"\x00" * 5))
    result.add("lists", STORE, 4 * BLOCK, property_page(
        0x81, b"".join([list_value(*x) for x in lists])))
    result.add("strings", STORE, 5 * BLOCK, property_page(
        0x81, b"".join([list_value(*x) for x in strings])))
    for index, content in enumerate(pages):
        result.add(f"records{index:d}", STORE, (6 + index) * BLOCK, content)
    return result


def streams_file(values, prefix, result, trailing=b""):
    data = b""
    offsets = [1]
    data += b"\x00"
    for value in values:
        offsets.append(len(data))
        data += value
    head = b"\x00PataD\x00\x00" + le(1, 2, 3, len(data), 9, len(offsets),
                                     len(data), 9, len(offsets), 4, 5, 6)
    result.add(prefix + "header", prefix + "header", 0, head)
    result.add(prefix + "offsets", prefix + "offsets", 0, le(*offsets))
    result.add(prefix + "data", prefix + "data", 0, data + trailing)


def case(name, entry, holes, limits=(), tier="quick", size=None,
         runner=run_store, prefix="store", **options):
    REGISTRY.add("C20", f"{prefix}-{name}", runner, {
        "parts": entry.parts, "base": entry.base.hex(), "holes": holes,
        "limits": limits, "size": size},
        bounds=f"files of {len(entry.base)} bytes together, bytes " + ", ".join(
            f"{a}..{a + b - 1}" for a, b in holes) + " symbolic",
        tier=tier, **options)


def _register():
    small = make_record([(1, b"\x01"), (1, b"\x85\x06"),
                         (1, b"\x03\x05\x80\x81")])
    other = make_record([], identifier=b"\x81\x02", parent=b"\x01")
    entry = example(small + other)
    for offset in range(4, 36, 8):
        case(f"header-{offset}", entry, [(offset, 8)])
    case("signature", entry, [(0, 4)])
    case("map-offset", entry, [(36, 4)], [(36, 0x30, 0x50), (37, 0, 7), (38, 0, 1)])
    case("map-offset-any", entry, [(36, 4)], tier="thorough")
    case("map-size", entry, [(40, 4)], [(40, 0, 63)])
    case("page-size", entry, [(44, 4)])
    for number_, name in enumerate(("types", "names", "other", "lists",
                                    "strings")):
        at = 48 + 4 * number_
        if number_ == 2:
            case(f"{name}-block", entry, [(at, 4)], [(at, 1, 255)])
        else:
            case(f"{name}-block", entry, [(at, 4)], [(at, number_ + 1, 255)])
    case("unknown8", entry, [(68, 3), (320, 4)])
    case("path", entry, [(324, 2)])
    case("path-end", entry, [(578, 2)])
    at = entry.at["map"]
    case("map-signature", entry, [(at, 4)])
    case("map-page-size", entry, [(at + 4, 4)],
         [(at + 4, 0, 63), (at + 5, 0, 1), (at + 6, 0, 0)])
    case("map-page-size-any", entry, [(at + 4, 4)], tier="thorough")
    case("map-values", entry, [(at + 8, 4)], [(at + 8, 0, 3), (at + 9, 0, 0)])
    case("map-values-any", entry, [(at + 8, 4)], tier="thorough")
    case("map-unknown", entry, [(at + 12, 8)])
    case("map-value", entry, [(at + 20, 8)])
    case("map-block", entry, [(at + 28, 4)], [(at + 28, 5, 255)])
    case("map-value-unknown", entry, [(at + 32, 4)])
    for name in ("types", "names", "other", "lists", "strings", "records0"):
        at = entry.at[name]
        used = entry.base[at + 8]
        case(f"{name}-signature", entry, [(at, 4)])
        case(f"{name}-page-size", entry, [(at + 4, 4)],
             [(at + 4, used - 2, used + 13), (at + 5, 0, 1), (at + 6, 0, 0)])
        case(f"{name}-page-size-high", entry, [(at + 4, 4)],
             [(at + 4, used, used + 5), (at + 5, 0, 0)])
        case(f"{name}-page-size-any", entry, [(at + 4, 4)], tier="thorough")
        case(f"{name}-used-size", entry, [(at + 8, 4)],
             [(at + 8, used - 9, used + 6)])
        case(f"{name}-used-size-any", entry, [(at + 8, 4)], tier="thorough")
        case(f"{name}-type", entry, [(at + 12, 4)])
        case(f"{name}-uncompressed", entry, [(at + 16, 4)])
        if name != "records0":
            following = int(name == "names")
            case(f"{name}-next", entry, [(at + 20, 4)])
            case(f"{name}-unknown", entry, [(at + 24, 8)])
            case(f"{name}-index", entry, [(at + 32, 4)])
    at = entry.at["types"] + 36
    case("type-kind", entry, [(at, 2)], [(at, 0, 7)])
    case("type-name", entry, [(at + 2, 2)])
    case("type-name-end", entry, [(at + 5, 2)])
    at = entry.at["types"] + 36 + 11
    case("second-index", entry, [(at, 4)])
    at = entry.at["names"] + 36
    case("name", entry, [(at, 2)])
    case("name-end", entry, [(at + 4, 2)])
    for name in ("lists", "strings"):
        at = entry.at[name] + 36
        case(f"{name}-size", entry, [(at, 1)])
        case(f"{name}-value", entry, [(at + 1, 4)])
    at = entry.at["lists"] + 45 + 4
    case("padded-size", entry, [(at, 1)], [(at, 0, 31)])
    case("padded", entry, [(at + 1, 9)])
    # Chains of pages.
    chain = example(small)
    chain.parts[2][2] = len(property_page(0x11, type_value(1, 2, 3, b"x")))
    chain = Example()
    table = map_page([3])
    chain.add("header", STORE, 0, header((1, 2, 4, 4, 4),
                                         map_size=len(table)))
    chain.add("map", STORE, 580, table)
    chain.add("first", STORE, BLOCK, property_page(
        0x11, type_value(1, 2, 0, b"x"), following=2))
    chain.add("second", STORE, 2 * BLOCK, property_page(
        0x11, type_value(2, 6, 0, b"y")))
    chain.add("records", STORE, 3 * BLOCK, page(0x9, make_record(
        [(2, b"\x09")])))
    chain.add("other", STORE, 4 * BLOCK, property_page(0x41, b""))
    at = chain.at["second"]
    case("chain-next", chain, [(chain.at["first"] + 20, 4)])
    case("chain-second-next", chain, [(at + 20, 4)])
    case("chain-index", chain, [(at + 32, 1)])
    case("chain-type", chain, [(at + 12, 2)])
    # Records.
    at = entry.at["records0"] + 20
    for offset in range(4, 14):
        case(f"record-{offset}", entry, [(at + offset, 1)])
    case("record-time", entry, [(at + 8, 6)], [(at + 8, 0xf8, 0xfb)])
    case("record-time-zero", entry, [(at + 8, 1)], [(at + 8, 0, 3)])
    case("record-size", entry, [(at, 4)], [(at, 10, 40)])
    case("record-size-any", entry, [(at, 4)], tier="thorough")
    at += 14
    for offset in range(len(small) - 14):
        case(f"attribute-{offset}", entry, [(at + offset, 1)])
    at = entry.at["records0"] + 20 + len(small)
    case("second-identifier", entry, [(at + 4, 2)],
         [(at + 4, 0, 0xbf)])
    case("second-size", entry, [(at, 1)])
    # Attributes: one value of each type, the second attribute behind it.
    double = struct.pack("<d", 1.5)
    values = {
        "flag": (1, b"\x01"), "int": (2, b"\xc1\x02\x03"),
        "ints": (3, b"\x06\x05\x81\x02\xc0\x01\x02"),
        "byte": (4, b"\x07"), "bytes": (5, b"\x03abc"),
        "float": (6, struct.pack("<f", 2.5)),
        "floats": (7, b"\x08" + struct.pack("<ff", 2.5, -1)),
        "double": (8, double), "doubles": (9, b"\x10" + double + double),
        "string": (10, b"\x03ab\x00"), "strings": (11, b"\x05a\x00bc\x00"),
        "local": (12, b"\x07a\x16\x02en\x00"), "date": (13, double),
        "dates": (14, b"\x10" + double + struct.pack("<d", 8e9)),
        "blob": (15, b"\x04\x01\x02\x03\x04"), "value": (16, b"\x04"),
        "list": (17, b"\x02"), "localized": (18, b"\x05"),
        "group": (19, b"\x80\x99"), "other": (20, b""),
        "kMDStoreAccumulatedSizes": (21, b"\x80\x98\x00\xe0"),
        "version": (22, b"\xc1\x00\x05"), "one": (23, b"\x05a\x00bc\x00")}
    for name, (index, value) in values.items():
        kinds = [TYPES[index - 1], (30, 0, 0, b"last")]
        after = [(30 - index, b"\x01")] if index != 21 else []
        record = make_record([(index, value)] + after)
        entry = example(record + other, types=kinds,
                        strings=((5, (1, ), b""), (6, (7, ), b"")),
                        names=((1, b"al\x16\x02en"), (4, b"bc")))
        at = entry.at["records0"] + 20 + 14
        case(f"{name}-step", entry, [(at, 1)], [(at, max(index - 3, 1),
                                                index + 3)])
        for offset in range(len(value)):
            if index in (13, 14) and offset != 0:
                continue
            if index == 13:
                continue
            if index in (11, 12, 10, 23) and offset > 1:
                case(f"{name}-{offset}", entry, [(at + 1 + offset, 1)],
                     [(at + 1 + offset, 0, 0x7f)])
                continue
            if index in (6, 8) or index in (7, 9) and offset > 0:
                continue
            case(f"{name}-{offset}", entry, [(at + 1 + offset, 1)])
        if index in (6, 8):
            case(f"{name}-all", entry, [(at + 1, len(value))])
        if index in (7, 9):
            case(f"{name}-all", entry, [(at + 2, len(value) - 1)])
        if index == 15:
            case(f"{name}-all", entry, [(at + 2, 4)])
        end = at + len(record) - 14 - 4
        case(f"{name}-flags", entry, [(entry.at["types"] + 37, 1)]
             if index not in (13, 14) else
             [(entry.at["types"] + 37, 1)])
        case(f"{name}-record-size", entry, [(at - 14, 1)],
             [(at - 14, 9, 9 + len(value) + 10)])
    for name, value in (("zero", 0.0), ("negative", -0.25), ("old", -7e10),
                        ("huge", -1e300), ("far", 7499999999.0),
                        ("beyond", 7500000000.0), ("infinite", float("inf")),
                        ("minus", float("-inf")), ("nan", float("nan"))):
        packed = struct.pack("<d", value)
        record = make_record([(13, packed), (1, b"\x10" + packed + double)])
        entry = example(record, types=TYPES[12:14])
        case(f"date-{name}", entry, [(entry.at["map"] + 12, 4)])
    # Empty values.
    for name in ("ints", "bytes", "floats", "doubles", "string", "strings",
                 "local", "dates", "blob"):
        index, _ = values[name]
        record = make_record([(index, b"\x00"), (30 - index, b"\x02")])
        entry = example(record, types=[TYPES[index - 1],
                                       (30, 0, 0, b"last")])
        case(f"{name}-empty", entry, [(entry.at["types"] + 37, 1)])
    record = make_record([(1, b"\x01"), (0, b"\x02"), (1, b"\x03")])
    entry = example(record, types=((1, 0, 0, b"same"), (2, 7, 0, b"same")))
    at = entry.at["types"] + 47
    case("same-name", entry, [(entry.at["records0"] + 35, 1)])
    # Compressed pages.
    uncompressed = 20 + len(small) + len(other)
    packed = zlib.compress(small + other)
    entry = example(b"", pages=[page(0x9, packed, uncompressed)])
    at = entry.at["records0"]
    case("zlib", entry, [(at + 12, 8)])
    first = lz4.block.compress(small, store_size=False)
    second = lz4.block.compress(small, store_size=False, dict=small)
    blocks = (b"bv41" + le(len(small), len(first)) + first
              + b"bv4-" + le(len(other)) + other
              + b"bv41" + le(len(other), 0)[:4])
    third = lz4.block.compress(other, store_size=False, dict=other)
    blocks += le(len(third)) + third + b"bv4$"
    entry = example(b"", pages=[page(0x5009, blocks, 77)])
    at = entry.at["records0"]
    case("lz4-type", entry, [(at + 12, 8)])
    place_ = at + 20 + 12 + len(first)
    case("lz4-marker", entry, [(place_, 4)])
    last = example(b"", pages=[page(
        0x5009, blocks[:12 + len(first) + 8 + len(other)] + b"bv4$", 77)])
    case("lz4-stored", last, [(place_ + 8 + 4, 2)])
    case("lz4-stored-size", entry, [(place_ + 4, 4)],
         [(place_ + 4, len(other) - 4, len(other) + 20)])
    end = at + 20 + len(blocks) - 4
    case("lz4-end", entry, [(end, 4)])
    stored = b"bv4-" + le(len(small)) + small + b"bv4$"
    entry = example(b"", pages=[page(0x1009, stored, 77, spare=0)])
    at = entry.at["records0"]
    case("stored-size", entry, [(at + 24, 4)], [(at + 24, 0, 63)])
    case("stored-end", entry, [(at + 28 + len(small), 4)])
    # Two record pages with the same identifier, and none.
    entry = example(b"", pages=[page(0x9, small), page(0x4009, make_record(
        [(2, b"\x2a")]))])
    at = entry.at["records1"]
    case("two-pages", entry, [(at + 24, 1), (at + 35, 1)])
    case("two-pages-type", entry, [(at + 12, 4)])
    for name, content in (("empty", b""), ("short", b"\x01\x02"),
                          ("zero", le(0, 0, 0))):
        entry = example(content)
        case(f"{name}-page", entry, [(entry.at["map"] + 12, 4)])
    entry = example(b"", pages=[])
    case("no-pages", entry, [(entry.at["map"] + 12, 4)])
    # Cut files.
    entry = example(small + other)
    total = len(entry.base)
    for size in (0, 100, 579, 580, 599, 600, 615, 640, entry.at["types"] + 10,
                 entry.at["types"] + 30, entry.at["names"] + 19,
                 entry.at["lists"] + 30, entry.at["records0"] + 10,
                 entry.at["records0"] + 20, total - 5, total - 1):
        case(f"cut-{size}", entry, [], size=size)
    # Streams instead of pages.
    entry = Example()
    table = map_page([1])
    entry.add("header", STORE, 0, header((0, 0, 0, 0, 0),
                                         map_size=len(table)))
    entry.add("map", STORE, 580, table)
    entry.add("records", STORE, BLOCK, page(0x9, make_record(
        [(2, b"\x01"), (1, b"\x02"), (1, b"\x03"), (1, b"\x2a")])))
    streams_file([
        b"\x07" + b"\x00\x00flag\x00"[:7],
        b"\x05\x0f\x00v\x00x", b"\x05\x0f\x02l\x00y", b"\x05\x0f\x03s\x00z",
        b"\x04\x02\x00i\x00", b"\x09oops"], "/s/dbStr-1.map.", entry)
    streams_file([b"\x05name\x00", b"\x03\xc3\xa9\x00", b"\x01\x00"],
                 "/s/dbStr-2.map.", entry)
    streams_file([], "/s/dbStr-3.map.", entry)
    streams_file([b"\x00\x00", b"\x07\x09\x55" + le(1, 2)],
                 "/s/dbStr-4.map.", entry)
    streams_file([b"\x00\x00", b"\x00\x00", b"\x80\x01\x04" + le(2)],
                 "/s/dbStr-5.map.", entry)
    for which in range(1, 6):
        base = f"/s/dbStr-{which:d}.map."
        start = entry.at[base + "data"]
        count = int.from_bytes(
            entry.base[entry.at[base + "header"] + 28:][:4], "little")
        offsets = [int.from_bytes(entry.base[
            entry.at[base + "offsets"] + 4 * i:][:4], "little")
                   for i in range(count)]
        at = entry.at[base + "header"]
        case(f"header-{which}", entry, [(at + 20, 4)],
             [(at + 20, 0, 63)] if which in (1, 4) else [(at + 20, 0, 20)],
             prefix="streams")
        case(f"count-{which}", entry, [(at + 28, 4)], [(at + 28, 0, 10)],
             prefix="streams")
        for index, offset in enumerate(offsets):
            at = entry.at[base + "offsets"] + 4 * index
            case(f"offset-{which}-{index}", entry, [(at, 1)],
                 [(at, max(offset - 3, 0), offset + 4)], prefix="streams")
            if index:
                case(f"size-{which}-{index}", entry, [(start + offset, 2)],
                     [(start + offset, 0, 0x81),
                      (start + offset + 1, 0, 0x40)], prefix="streams")
    at = entry.at["/s/dbStr-4.map.data"] + 6
    case("index-values", entry, [(at, 8)], prefix="streams")
    case("index-size", entry, [(at - 2, 1)], prefix="streams")
    at = entry.at["records"] + 20 + 14
    for offset in (1, 3, 5, 7):
        case(f"reference-{offset}", entry, [(at + offset, 1)],
             prefix="streams")
    # The files of a streams map on their own.
    entry = Example()
    streams_file([b"\x03abc", b"", b"\x01x"], "/", entry, trailing=b"rest")
    at = entry.at["/header"]
    for offset in range(8, 56, 8):
        if offset not in (16, 24):
            case(f"header-{offset}", entry, [(at + offset, 8)],
                 runner=run_streams, prefix="map")
    case("signature", entry, [(at, 8)], runner=run_streams, prefix="map")
    case("data-size", entry, [(at + 20, 4)], [(at + 20, 0, 15)],
         runner=run_streams, prefix="map")
    case("offsets", entry, [(at + 28, 4)], [(at + 28, 0, 7)],
         runner=run_streams, prefix="map")
    at = entry.at["/offsets"]
    for index in range(4):
        case(f"offset-{index}", entry, [(at + 4 * index, 4)],
             [(at + 4 * index, 0, 15)], runner=run_streams, prefix="map")
    case("data", entry, [(entry.at["/data"], 4)], runner=run_streams,
         prefix="map")


_register()
