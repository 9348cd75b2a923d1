"""C25 and C26: login item alias data and background item bookmark data."""

import struct

from dtformats import alias_data
from dtformats import bookmark_data

from props import lib

REGISTRY = lib.Registry()
cases = REGISTRY.cases
find_case = REGISTRY.find


def utf(data, encoding):
    try:
        return data.decode(encoding)
    except UnicodeDecodeError:
        raise lib.Reject(encoding)


def text_item(label, text):
    return lib.item(label, text.rstrip("\x00"))


# Alias data.


def make_alias(debug, writer):
    return alias_data.MacOSLoginItemAliasData(
        debug=debug, output_writer=writer)


def hfs_time_64(value):
    """Seconds in the upper 48 bits, 1/65536 seconds in the lower 16."""
    if value == 0:
        return "Not set (0)"
    seconds, fraction = value >> 16, value & 0xffff
    if seconds == 0:
        text = "1904-01-01 00:00:00 UTC"
    else:
        text = lib.hfs_time(seconds)
    if not text.endswith(" UTC"):
        return f"0x{value:08x}"
    return f"{text[:-4]:s}.{fraction * 1000 // 65536:03d} UTC"


ALIAS_2 = (
    ("Alias type", 2, "d"), ("Volume name", 28, "b"),
    ("Volume creation date and time", 4, lib.hfs_time),
    ("File system type", 2, "b"), ("Disk type", 2, "b"),
    ("Parent file system identifier", 4, "d"), ("Target name", 64, "b"),
    ("Target file system identifier", 4, "d"),
    ("Target creation date and time", 4, lib.hfs_time))

ALIAS_3 = (
    ("Alias type", 2, "d"), ("Volume creation date and time", 8, hfs_time_64),
    ("File system type", 4, "b"), ("Disk type", 2, "d"),
    ("Parent file system identifier", 4, "d"),
    ("Target file system identifier", 4, "d"),
    ("Target creation date and time", 8, hfs_time_64),
    ("Volume flags", 4, "x4"), ("Unknown1", 14, "b"))


def alias(out, data):
    if len(data) < 8:
        raise lib.Reject("header")
    version = lib.uint(data, 6, 2, True)
    if version != 2 and version != 3:
        raise lib.Reject("version")
    lib.layout(out, data, 0, (
        ("Application information", 4, "b"), ("Record size", 2, "d"),
        ("Format version", 2, "d")), big=True)
    if data[:4] != bytes(4) or lib.uint(data, 4, 2, True) != len(data):
        raise lib.Reject("header")
    if version == 2:
        lib.layout(out, data, 8, ALIAS_2, big=True)
        offset = 150
    else:
        lib.layout(out, data, 8, ALIAS_3, big=True)
        offset = 58
    while offset < len(data):
        offset = tagged(out, data, offset)


UTF8_TAGS = (0, 2, 6, 18, 19)


def tagged(out, data, offset):
    tag = lib.uint(data, offset, 2, True)
    size = lib.uint(data, offset + 2, 2, True)
    start = offset + 4
    end = start + size
    after = end + size % 2
    if after > len(data):
        raise lib.Reject("tagged value")
    value = data[start:end]
    inner = [lib.line("Value tag", f"0x{tag:04x}"),
             lib.line("Value data size", size)]
    utf8 = False
    for known in UTF8_TAGS:
        if tag == known:
            utf8 = True
    if tag == 1:
        if size % 4 != 0 or size == 0:
            raise lib.Unspecified()
        inner.append(lib.line("Integers", ", ".join(
            [f"{lib.uint(value, index, 4, True):d}"
             for index in range(0, size, 4)])))
    elif utf8:
        inner.append(text_item("String", utf(value, "utf-8")))
    elif tag == 14 or tag == 15:
        if size < 2 or 2 + 2 * lib.uint(value, 0, 2, True) != size:
            raise lib.Unspecified()
        inner.append(lib.line("Number of characters",
                              lib.uint(value, 0, 2, True)))
        inner.append(text_item("String", utf(value[2:], "utf-16-be")))
    else:
        inner.append(lib.dump("Value data", value))
    inner.append(lib.dump("Alignment padding", data[end:after]))
    out.extend(inner)
    lib.close(out)
    return after


run_alias = lib.file_runner(make_alias, alias, keep=("Value data",))


# Bookmark data.


def make_bookmark(debug, writer):
    return bookmark_data.MacOSBackgroundItemBookmarkData(
        debug=debug, output_writer=writer)


def bookmark(out, data):
    if len(data) < 48 or data[:4] != b"book" and data[:4] != b"alis":
        raise lib.Reject("header")
    values = lib.layout(out, data, 0, (
        ("Signature", 4, "str"), ("Size", 4, "d"), ("Unknown1", 4, "x8"),
        ("Data area offset", 4, "x8"), ("Unknown3", 32, "b")))
    if values[1] != len(data) or values[3] != 48:
        raise lib.Reject("header")
    size = lib.uint(data, 48, 4)
    out.append(lib.line("Data area size", size))
    out.append("\n")
    for tag, offset in contents(out, data, 48 + size):
        out.append(lib.line("Value tag", f"0x{tag:04x}"))
        kind, value = record(out, data, 48 + offset)
        if kind == "cocoa":
            if len(value) < 8:
                raise lib.Reject("timestamp")
            (number,) = struct.unpack(">d", value[:8])
            out.append(lib.line("Cocoa timestamp", f"{number:f}"))
            out.append("\n")
        elif tag == 0x1004:
            names = elements(out, data, kind, value, "string")
            out.append(lib.line("Path", "/".join(names)))
            out.append("\n")
        elif tag == 0x1005:
            numbers = elements(out, data, kind, value, "integer")
            out.append(lib.line("Integers array", ", ".join(
                [f"{number:d}" for number in numbers])))
            out.append("\n")
        elif tag == 0x1010 or tag == 0x2020:
            if kind != "data" or len(value) < 24:
                raise lib.Reject("flags")
            lib.layout(out, value, 0, (
                ("Flags", 8, "x8"), ("Valid flags bitmask", 8, "x8"),
                ("Unknown", 8, "x8")))


def elements(out, data, kind, value, wanted):
    if kind != "integers":
        raise lib.Reject("array")
    result = []
    for index in range(0, len(value), 4):
        found, element = record(out, data, 48 + lib.uint(value, index, 4))
        if found != wanted:
            raise lib.Reject("element")
        result.append(element)
    return result


def contents(out, data, offset):
    if offset + 20 > len(data):
        raise lib.Reject("TOC")
    number = lib.uint(data, offset + 16, 4)
    if (lib.uint(data, offset + 4, 4) != 0xfffffffe
            or offset + 20 + 12 * number > len(data)):
        raise lib.Reject("TOC")
    if number == 0:
        raise lib.Unspecified()
    following = lib.layout(out, data, offset, (
        ("Entries data size", 4, "d"), ("Unknown1", 4, "x8"),
        ("Identifier", 4, "d"), ("Next TOC offset", 4, "x8"),
        ("Number of tagged values", 4, "d")))[3]
    out.pop()
    rows = []
    result = []
    index = 0
    while index < number:
        tag, position, unknown = [
            lib.uint(data, offset + 20 + 12 * index + x, 4)
            for x in (0, 4, 8)]
        rows.append(f"\ttag: 0x{tag:04x}, data record offset: "
                    f"0x{position:08x}, unknown1: 0x{unknown:08x}\n")
        result.append((tag, position))
        index += 1
    out.append("Tagged values:\n" + "".join(rows))
    out.append("\n")
    if following != 0:
        raise lib.Reject("next TOC")
    return result


NUMBERS = ((0x301, 1), (0x302, 2), (0x303, 4), (0x304, 8))


def record(out, data, offset):
    """A data record: its kind and value."""
    if offset + 8 > len(data):
        raise lib.Reject("data record")
    size = lib.uint(data, offset, 4)
    kind = lib.uint(data, offset + 4, 4)
    if offset + 8 + size > len(data):
        raise lib.Reject("data record")
    value = data[offset + 8:offset + 8 + size]
    inner = [lib.line("Data size", size), lib.line("Data type", f"0x{kind:08x}")]
    for known, width in NUMBERS:
        if kind == known:
            if size != width:
                raise lib.Unspecified()
            number = lib.sint(value, 0, width)
            inner.append(lib.line("Integer", number))
            return finish(out, inner, "integer", number)
    for known, width, code in ((0x305, 4, "<f"), (0x306, 8, "<d")):
        if kind == known:
            if size != width:
                raise lib.Unspecified()
            (number,) = struct.unpack(code, value)
            inner.append(lib.line("Floating point", f"{number:f}"))
            return finish(out, inner, "float", None)
    if kind == 0x601:
        if size % 4 != 0 or size == 0:
            raise lib.Unspecified()
        inner.append(lib.line("Integers", ", ".join(
            [f"{lib.uint(value, index, 4):d}"
             for index in range(0, size, 4)])))
        return finish(out, inner, "integers", value)
    if kind == 0x101:
        text = utf(value, "utf-8")
        inner.append(text_item("String", text))
        return finish(out, inner, "string", text)
    inner.append(lib.dump("Data", value))
    return finish(out, inner, "cocoa" if kind == 0x400 else "data", value)


def finish(out, inner, kind, value):
    out.extend(inner)
    lib.close(out)
    return kind, value


run_bookmark = lib.file_runner(make_bookmark, bookmark)


# Cases.


def be(value, size):
    return value.to_bytes(size, "big")


def le(value, size):
    return value.to_bytes(size, "little")


def tag_base(tag, raw):
    return be(tag, 2) + be(len(raw), 2) + raw + bytes(len(raw) % 2)


def alias_base(version, *values, tail=b""):
    if version == 2:
        body = (be(1, 2) + b"volume" + bytes(22) + be(0x90000000, 4) + b"H+"
                + be(3, 2) + be(4, 4) + b"target" + bytes(58) + be(5, 4)
                + be(0, 4) + bytes(28))
    else:
        body = (be(1, 2) + be(0x0000900000008000, 8) + b"H+\0\0" + be(3, 2)
                + be(4, 4) + be(5, 4) + be(0x0000a00000000000, 8)
                + be(0x20, 4) + bytes(14))
    body += b"".join(values) + tail
    return bytes(4) + be(8 + len(body), 2) + be(version, 2) + body


def record_base(kind, raw):
    return le(len(raw), 4) + le(kind, 4) + raw


def bookmark_base(records, tags, following=0, number=None, tail=b""):
    """A bookmark of records and (tag, record number) values."""
    area = b""
    offsets = []
    for kind, raw in records:
        offsets.append(4 + len(area))
        if callable(raw):
            raw = raw(offsets)
        area += record_base(kind, raw)
    size = 4 + len(area)
    toc = (le(8 + 12 * len(tags), 4) + le(0xfffffffe, 4) + le(1, 4)
           + le(following, 4)
           + le(len(tags) if number is None else number, 4))
    for tag, index in tags:
        toc += le(tag, 4) + le(offsets[index], 4) + le(0, 4)
    total = 48 + size + len(toc) + len(tail)
    return (b"book" + le(total, 4) + le(7, 4) + le(48, 4) + bytes(range(32))
            + le(size, 4) + area + toc + tail), [48 + x for x in offsets]


def _register_alias():
    family = lib.Family(REGISTRY, "C25", "alias", run_alias)
    for version, at in ((2, 150), (3, 58)):
        name = f"v{version}"
        base = alias_base(version, tag_base(0, b"ab"), tag_base(
            0x1234, b"xyz"), tag_base(0xffff, b""))
        family.fields(base, [(0, 4), (4, 2), (6, 2)], name=f"{name}-head")
        if version == 2:
            fields = ((8, 2), (10, 6), (38, 4), (42, 4), (46, 4), (50, 8),
                      (114, 4), (118, 4), (122, 4))
        else:
            fields = ((8, 2), (10, 8), (18, 6), (24, 4), (28, 4), (32, 8),
                      (40, 4), (44, 14))
        family.fields(base, fields, name=f"{name}-field")
        family.holes(f"{name}-tag", base, [(at, 2)])
        family.holes(f"{name}-size", base, [(at + 2, 2)],
                     limits=[(at + 2, 0, 0)])
        family.holes(f"{name}-value", base, [(at + 4, 2)])
        family.holes(f"{name}-next-size", base, [(at + 8, 2)],
                     limits=[(at + 8, 0, 0)])
        family.holes(f"{name}-next", base, [(at + 10, 4)])
        family.cuts(base, range(0, len(base), 7), name=f"{name}-cut")
        family.holes(f"{name}-none", alias_base(version), [(4, 4)])
        sizes = alias_base(version, tag_base(0, b"ab"))
        for cut in range(1, 10):
            short = sizes[:4] + be(len(sizes) - cut, 2) + sizes[6:-cut]
            family.holes(f"{name}-short-{cut}", short, [],
                         bounds=f"{cut} bytes missing at the end")
    start = 58
    for tag, raw in ((1, bytes(12)), (2, b"abcd"), (6, b"\xc3\xa9"),
                     (14, be(2, 2) + b"\0a\0b"), (15, be(1, 2) + b"\xd8\x34"),
                     (15, be(2, 2) + b"\xd8\x34\xdd\x1e"), (18, b"abc"),
                     (19, b""), (3, b"abc"), (20, b"abcdefgh")):
        base = alias_base(3, tag_base(tag, raw), tag_base(0xffff, b""))
        name = f"tag-{tag}-{len(raw)}"
        if raw:
            family.holes(f"{name}-value", base,
                         [(start + 4, min(len(raw), 4))])
            if len(raw) > 4:
                family.holes(f"{name}-rest", base,
                             [(start + 8, len(raw) - 4)])
        family.holes(f"{name}-tag", base, [(start, 2)])
        family.holes(f"{name}-size", base, [(start + 2, 2)],
                     limits=[(start + 2, 0, 0)])
        family.holes(f"{name}-size-any", base, [(start + 2, 2)],
                     tier="thorough")
        family.holes(f"{name}-tag-any", base, [(start, 4 + len(raw))],
                     limits=[(start, 0, 0), (start + 2, 0, 0)],
                     tier="thorough")


def _register_bookmark():
    family = lib.Family(REGISTRY, "C26", "bookmark", run_bookmark)
    strings = [(0x101, b"Users"), (0x101, b"a"),
               (0x601, lambda offsets: le(offsets[0], 4) + le(
                   offsets[1], 4))]
    numbers = [(0x303, le(5, 4)), (0x304, le(6, 8)), (0x301, b"\x07"),
               (0x302, b"\xfe\xff"),
               (0x601, lambda offsets: b"".join(
                   [le(x, 4) for x in offsets[:4]]))]
    base, at = bookmark_base(strings, [(0x1004, 2)])
    family.fields(base, [(0, 4), (4, 4), (8, 4), (12, 4), (16, 8), (40, 8)],
                  name="head")
    size = len(base)
    family.holes("area-size", base, [(48, 4)], limits=[(49, 0, 0),
                                                       (50, 0, 0)])
    family.holes("area-size-any", base, [(48, 4)], tier="thorough")
    family.holes("string", base, [(at[0] + 8, 5)])
    family.holes("string-kind", base, [(at[0] + 4, 4)])
    family.holes("string-size", base, [(at[0], 4)], limits=[
        (at[0] + 1, 0, 0), (at[0] + 2, 0, 0)])
    family.holes("list-kind", base, [(at[2] + 4, 4)])
    family.holes("list-size", base, [(at[2], 4)], limits=[
        (at[2] + 1, 0, 0), (at[2] + 2, 0, 0)])
    family.holes("list-first", base, [(at[2] + 8, 1)])
    family.holes("list-first-any", base, [(at[2] + 8, 4)], tier="thorough")
    family.holes("list-second", base, [(at[2] + 12, 4)],
                 limits=[(at[2] + 12, 0, 40)])
    toc = size - 32
    family.fields(base, [(toc, 4), (toc + 4, 4), (toc + 8, 4),
                         (toc + 12, 4), (toc + 16, 4), (toc + 20, 4),
                         (toc + 28, 4)], name="toc")
    family.holes("toc-offset", base, [(toc + 24, 1)])
    family.holes("toc-offset-high", base, [(toc + 25, 3)])
    family.holes("toc-offset-any", base, [(toc + 24, 4)], tier="thorough")
    family.cuts(base, range(0, size, 5))
    for cut in range(1, size - 48, 5):
        short = base[:4] + le(size - cut, 4) + base[8:size - cut]
        family.holes(f"short-{cut}", short, [],
                     bounds=f"{cut} bytes missing at the end")
    base, at = bookmark_base(numbers, [(0x1005, 4), (0x1234, 0)])
    for index, length in ((0, 4), (1, 8), (2, 1), (3, 2)):
        family.holes(f"number-{index}", base, [(at[index] + 8, length)])
        family.holes(f"number-{index}-kind", base, [(at[index] + 4, 2)])
        family.holes(f"number-{index}-size", base, [(at[index], 1)])
    family.holes("number-list-size", base, [(at[4], 1)])
    family.holes("number-tags", base, [(len(base) - 24, 2),
                                       (len(base) - 12, 2)])
    base, at = bookmark_base([(0x400, struct.pack(">d", 1.5)), (
        0x305, struct.pack("<f", 2.5)), (0x306, struct.pack("<d", -1.25))],
        [(0x1040, 0), (0x1041, 1), (0x1042, 2)])
    family.holes("cocoa", base, [(at[0] + 8, 8)])
    family.holes("cocoa-size", base, [(at[0], 1)])
    family.holes("cocoa-kind", base, [(at[0] + 4, 4)])
    family.holes("float", base, [(at[1] + 8, 4)])
    family.holes("float-size", base, [(at[1], 1)])
    family.holes("double", base, [(at[2] + 8, 8)])
    for tag in (0x1010, 0x2020):
        base, at = bookmark_base([(0x201, le(5, 8) + le(6, 8) + le(7, 8))],
                                 [(tag, 0)])
        name = f"flags-{tag:x}"
        family.holes(name, base, [(at[0] + 8, 24)])
        family.holes(f"{name}-size", base, [(at[0], 1)])
        family.holes(f"{name}-kind", base, [(at[0] + 4, 4)])
        family.holes(f"{name}-tag", base, [(len(base) - 12, 4)])
    base, at = bookmark_base([(0x201, b"")], [(0x1001, 0)])
    family.holes("empty", base, [(at[0] + 4, 4)])
    base, at = bookmark_base([(0x501, b""), (0x1234, b"abc")],
                             [(0x1001, 0), (0x1002, 1)])
    family.holes("data", base, [(at[1] + 8, 3)])
    family.holes("data-kinds", base, [(at[0] + 4, 2), (at[1] + 4, 2)],
                 tier="thorough")
    base, _ = bookmark_base(strings, [], tail=b"tail")
    family.holes("toc-empty", base, [(48, 1)])
    base, _ = bookmark_base(strings, [(0x1004, 2)], tail=b"t" * 12)
    family.holes("toc-more", base, [(len(base) - 28, 4)])


_register_alias()
_register_bookmark()

REGISTRY.add_reuse()
