"""C24: jump lists.

The libraries that read compound files (pyolecf) and shortcuts (pylnk) are
written in C: the harness puts small ones written in Python in their place,
when the code is executed symbolically and when it is replayed.
"""

import struct

from dtformats import jump_list

from props import lib

REGISTRY = lib.Registry()
cases = REGISTRY.cases
find_case = REGISTRY.find

LNK = (b"\x01\x14\x02\x00\x00\x00\x00\x00"
       b"\xc0\x00\x00\x00\x00\x00\x00\x46")


class Shortcut:
    """A shortcut: its size in one byte and its contents."""

    def __init__(self):
        self.content = None

    def open_file_object(self, file_object):
        head = file_object.read(1)
        if len(head) != 1 or head[0] == 0xff:
            raise OSError("not a shortcut")
        content = file_object.read(head[0])
        if len(content) != head[0]:
            raise OSError("truncated")
        self.content = content

    def close(self):
        pass


class Stream(lib.MemFile):
    """A stream of a compound file."""

    def __init__(self, name, data):
        super().__init__(data)
        self.name = name
        self.size = len(data)

    def get_offset(self):
        return self.tell()


class Storage:
    """The root of a compound file."""

    def __init__(self, streams):
        self.sub_items = streams

    def get_sub_item_by_name(self, name):
        for stream in self.sub_items:
            if stream.name == name:
                return stream
        return None


class Compound:
    """A compound file: streams of a name and a size."""

    def __init__(self):
        self.root_item = None

    def open_file_object(self, file_object):
        data = file_object.read()
        streams = []
        offset = 0
        while offset < len(data):
            name = "DestList" if data[offset] == 0 else f"{data[offset]:x}"
            size = data[offset + 1] | (data[offset + 2] << 8)
            offset += 3
            streams.append(Stream(name, data[offset:offset + size]))
            offset += size
        self.root_item = Storage(streams)

    def close(self):
        self.root_item = None


class Module:
    """A module that offers one class."""

    def __init__(self, kind):
        self.file = kind


class use_libraries:
    """Context manager: the stand-ins in place of the libraries."""

    def __enter__(self):
        self.original = jump_list.pylnk, jump_list.pyolecf
        jump_list.pylnk = Module(Shortcut)
        jump_list.pyolecf = Module(Compound)
        return self

    def __exit__(self, *args):
        jump_list.pylnk, jump_list.pyolecf = self.original


def shortcut(data, offset, end):
    """The contents and end of a shortcut."""
    if offset >= end or data[offset] == 0xff:
        raise lib.Reject("shortcut")
    size = data[offset]
    if offset + 1 + size > end:
        raise lib.Reject("shortcut")
    return data[offset + 1:offset + 1 + size], offset + 1 + size


def utf16(data):
    try:
        return data.decode("utf-16-le")
    except UnicodeDecodeError:
        raise lib.Reject("UTF-16")


# Custom destinations.

CATEGORIES = ("Custom category", "Known category", "User tasks")


def custom(out, data):
    if len(data) < 12 or lib.uint(data, 0, 4) != 2:
        raise lib.Reject("header")
    values = lib.layout(out, data, 0, (
        ("Format version", 4, "d"), ("Number of categories", 4, "d"),
        ("Unknown1", 4, "x8")))
    entries = []
    offset = 12
    count = 0
    while count < values[1]:
        count += 1
        offset = category(out, data, offset, entries)
    return entries


def category(out, data, offset, entries):
    if offset + 8 > len(data):
        raise lib.Reject("category")
    kind = lib.uint(data, offset, 4)
    if kind > 2:
        raise lib.Reject("category type")
    offset += 4
    inner = [lib.line("Category type", f"{kind:d} ({CATEGORIES[kind]})")]
    number = 0
    if kind == 0:
        size = lib.uint(data, offset, 2)
        offset += 2
        if offset + 2 * size + 4 > len(data):
            raise lib.Reject("category name")
        name = utf16(data[offset:offset + 2 * size])
        offset += 2 * size
        inner.append(lib.line("Number of characters", size))
        inner.append(lib.item("Category name", name.rstrip("\x00")))
    if kind == 1:
        inner.append(lib.line("Category identifier",
                              lib.uint(data, offset, 4)))
    else:
        number = lib.uint(data, offset, 4)
        inner.append(lib.line("Number of entries", number))
    offset += 4
    out.extend(inner)
    lib.close(out)
    index = 0
    while index < number and len(data) - offset >= 16:
        index += 1
        if data[offset:offset + 16] == LNK:
            start = offset + 16
            content, offset = shortcut(data, start, len(data))
            entries.append((f"0x{start:08x}", content))
            out.append("\n")
        elif data[offset:offset + 4] == b"\xab\xfb\xbf\xba":
            break
        else:
            raise lib.Reject("entry")
    if offset + 4 > len(data):
        raise lib.Reject("footer")
    out.append(lib.dump("Signature", data[offset:offset + 4]))
    if data[offset:offset + 4] != b"\xab\xfb\xbf\xba":
        raise lib.Reject("footer")
    return offset + 4


def observe(reader):
    return [(entry.identifier, entry.lnk_file.content)
            for entry in reader.GetJumpListEntries()]


def make_custom(debug, writer):
    return jump_list.CustomDestinationsFile(debug=debug, output_writer=writer)


def run_custom(env, base, holes, size=None, limits=(), before=()):
    data = lib.fill(env, base, holes, size, limits)
    with use_libraries():
        lib.decide(env, make_custom, custom, data, observe=observe,
                   before=before)


run_custom.reusable = True


def run_custom_again(env, base, holes, size=None, limits=()):
    """A reader that read another file before."""
    data = lib.fill(env, base, holes, size, limits)
    with use_libraries():
        with lib.use_files({"/first": bytes.fromhex(base), "/f": data}):
            reader = make_custom(False, lib.Writer())
            first = lib.outcome(reader.Open, "/first")
            if first[0] == "ok":
                reader.Close()
            got = lib.outcome(reader.Open, "/f")
        want, _ = lib.reference(custom, data)
        env.check("outcome", got[0], want[0])
        if want[0] == "ok":
            env.check("entries", observe(reader), want[1])
    env.reach(want[0])


# Automatic destinations.


def characters(value):
    return f"{value:d} characters ({2 * value:d} bytes)"


def uuid_text(data):
    order = (3, 2, 1, 0, -1, 5, 4, -1, 7, 6, -1, 8, 9, -1,
             10, 11, 12, 13, 14, 15)
    return "".join(["-" if x < 0 else f"{data[x]:02x}" for x in order])


def real(out, label, data):
    out.append(lib.line(label, f"{struct.unpack('<f', data)[0]:f}"))


DESTINATION_V2 = (("Unknown4", 4, "i"), ("Unknown5", 4, "x8"),
                  ("Unknown6", 8, "x8"))


def dest_list(out, data):
    if len(data) < 32:
        raise lib.Reject("header")
    version = lib.layout(out, data, 0, (
        ("Format version", 4, "d"), ("Number of entries", 4, "d"),
        ("Number of pinned entries", 4, "d")))[0]
    out.pop()
    real(out, "Unknown1", data[12:16])
    lib.layout(out, data, 16, (
        ("Last entry number", 4, "d"), ("Unknown2", 4, "x8"),
        ("Last revision number", 4, "d"), ("Unknown3", 4, "x8")))
    if version < 1 or version > 4:
        raise lib.Reject("version")
    offset = 32
    while offset < len(data):
        offset = destination(out, data, offset, version)


def destination(out, data, offset, version):
    at = 114 if version == 1 else 130
    if offset + at > len(data):
        raise lib.Reject("entry")
    size = lib.uint(data, offset + at - 2, 2)
    end = offset + at + 2 * size
    if version > 1:
        end += 4
    if end > len(data):
        raise lib.Reject("entry")
    host = data[offset + 72:offset + 88]
    for byte in host:
        if byte > 127:
            raise lib.Reject("host")
    host = host.decode("ascii")
    path = utf16(data[offset + at:offset + at + 2 * size])
    inner = []
    lib.layout(inner, data, offset, (("Unknown1", 8, "x8"),))
    inner.pop()
    for index, label in enumerate((
            "Droid volume identifier", "Droid file identifier",
            "Birth droid volume identifier", "Birth droid file identifier")):
        start = offset + 8 + 16 * index
        inner.append(lib.line(label, uuid_text(data[start:start + 16])))
    inner.append(lib.item("Hostname", host.rstrip("\x00")))
    out.extend(inner)
    lib.layout(out, data, offset + 88, (
        ("Entry number", 4, "d"), ("Unknown2", 4, "x8")))
    out.pop()
    real(out, "Unknown3", data[offset + 96:offset + 100])
    lib.layout(out, data, offset + 100, (
        ("Last modification time", 8, "ft"), ("Pin status", 4, "i")))
    out.pop()
    if version > 1:
        lib.layout(out, data, offset + 112, DESTINATION_V2)
        out.pop()
    out.append(lib.line("Path size", characters(size)))
    out.append(lib.item("Path", path.rstrip("\x00")))
    if version > 1:
        lib.layout(out, data, end - 4, (("Unknown7", 4, "x8"),))
    else:
        lib.close(out)
    return end


def automatic(out, data):
    """The DestList stream, and a shortcut in every other stream."""
    streams = []
    offset = 0
    while offset < len(data):
        size = data[offset + 1] | (data[offset + 2] << 8)
        streams.append((data[offset],
                        data[offset + 3:offset + 3 + size]))
        offset += 3 + size
    found = None
    for name, content in streams:
        if name == 0 and found is None:
            found = content
    if found is None:
        raise lib.Reject("DestList")
    if len(found) > 0:
        dest_list(out, found)
    entries = []
    for name, content in streams:
        if name != 0:
            entries.append((name, content))
    return entries


def read_automatic(data, debug):
    """What the reader and its entries make of a file."""
    writer = lib.Writer()
    with lib.use_files({"/f": data}):
        reader = jump_list.AutomaticDestinationsFile(
            debug=debug, output_writer=writer)
        got = lib.outcome(reader.Open, "/f")
    text = writer.text()
    entries = None
    if got[0] == "ok":
        entries = lib.outcome(observe, reader)
        reader.Close()
    return got, text, entries


def expected_entries(entries):
    result = []
    for name, content in entries:
        inner, _ = shortcut(content, 0, len(content))
        result.append((f"{name:x}", inner))
    return result


def run_automatic(env, base, holes, size=None, limits=()):
    data = lib.fill(env, base, holes, size, limits)
    want, expected = lib.reference(automatic, data)
    entries = None
    if want[0] == "ok":
        entries, _ = lib.reference(lambda out: expected_entries(want[1]))
        want = ("ok", None)
    with use_libraries():
        with lib.use_hexdump(env):
            got, text, found = read_automatic(data, True)
        env.check("outcome", got, want)
        env.check("values", text, expected)
        env.check("entries", found, entries)
        got, text, found = read_automatic(data, False)
        env.check("quiet outcome", got, want)
        env.check("quiet text", text, "")
        env.check("quiet entries", found, entries)
    env.reach(want[0])


def le(value, size):
    return value.to_bytes(size, "little")


def lnk(content=b"abc"):
    return LNK + bytes([len(content)]) + content


FOOTER = b"\xab\xfb\xbf\xba"


def custom_base(*categories, tail=b""):
    return (le(2, 4) + le(len(categories), 4) + le(7, 4)
            + b"".join(categories) + tail)


def named(name, *entries):
    raw = name.encode("utf-16-le")
    return (le(0, 4) + le(len(raw) // 2, 2) + raw + le(len(entries), 4)
            + b"".join(entries) + FOOTER)


def known(number):
    return le(1, 4) + le(number, 4) + FOOTER


def tasks(*entries):
    return le(2, 4) + le(len(entries), 4) + b"".join(entries) + FOOTER


def entry_base(version, path="p"):
    raw = path.encode("utf-16-le")
    data = (le(5, 8) + bytes(range(64)) + b"host" + bytes(12) + le(3, 4)
            + le(1, 4) + struct.pack("<f", 1.5) + le(0x01d700000000, 8)
            + le(0xffffffff, 4))
    if version > 1:
        data += le(1, 4) + le(2, 4) + le(3, 8)
    data += le(len(raw) // 2, 2) + raw
    if version > 1:
        data += le(9, 4)
    return data


def dest_base(version, *entries):
    return (le(version, 4) + le(len(entries), 4) + le(0, 4)
            + struct.pack("<f", -2.25) + le(4, 4) + le(5, 4) + le(6, 4)
            + le(7, 4) + b"".join(entries))


def stream(name, data):
    return bytes([name]) + le(len(data), 2) + data


def _register():
    family = lib.Family(REGISTRY, "C24", "custom", run_custom)
    again = lib.Family(REGISTRY, "C24", "custom-again", run_custom_again)
    base = custom_base(tasks(lnk(), lnk(b"defgh")))
    family.holes("header", base, [(0, 4)])
    family.holes("number", base, [(4, 4)], limits=[(5, 0, 0)])
    family.holes("unknown", base, [(8, 4)])
    family.holes("type", base, [(12, 4)])
    family.holes("entries", base, [(16, 4)])
    family.holes("entry-first", base, [(20, 4)])
    family.holes("entry-first-guid", base, [(33, 4)])
    family.holes("entry-size", base, [(36, 1)])
    family.holes("entry-content", base, [(37, 3)])
    family.holes("entry-second", base, [(40, 4)])
    family.holes("entry-second-size", base, [(56, 1)])
    family.holes("footer", base, [(len(base) - 4, 4)])
    family.cuts(base, range(0, len(base)))
    again.holes("entries", base, [(16, 4)])
    again.holes("number", base, [(4, 1)])
    three = custom_base(named("ab", lnk(b"x")), known(3), tasks(lnk(b"")))
    family.holes("three-name-size", three, [(16, 2)], limits=[(17, 0, 0)])
    family.holes("three-name", three, [(18, 4)])
    family.holes("three-count", three, [(22, 4)])
    start = 12 + len(named("ab", lnk(b"x")))
    family.holes("three-type", three, [(start, 4)])
    family.holes("three-known", three, [(start + 4, 4)])
    family.holes("three-known-footer", three, [(start + 8, 4)])
    family.holes("three-tasks", three, [(start + 12, 4)])
    family.holes("three-tasks-count", three, [(start + 16, 4)])
    family.cuts(three, range(13, len(three), 3), name="three-cut")
    family.holes("many", custom_base(*[known(x) for x in range(4)]),
                 [(4, 1)])
    family.holes("tail", custom_base(tasks(), tail=b"tail"), [(16, 4)])
    family.holes("tail-long", custom_base(tasks(), tail=bytes(20)),
                 [(16, 4)])
    family.holes("hostile", le(2, 4) + le(1, 4) + le(0, 4) + le(2, 4)
                 + b"\xff" * 4 + FOOTER + bytes(16), [(16, 4)])

    family = lib.Family(REGISTRY, "C24", "automatic", run_automatic)
    for version in (1, 2, 4):
        content = dest_base(version, entry_base(version),
                            entry_base(version, "ab\x00"))
        base = stream(3, b"\x02ab") + stream(0, content) + stream(
            0x1a, b"\x00")
        start = 6 + 3
        if version == 1:
            family.fields(base, [
                (start, 4), (start + 4, 8), (start + 12, 4),
                (start + 16, 8), (start + 24, 8), (3, 1), (4, 1)],
                name="head")
        at = start + 32
        for offset, length in ((0, 8), (8, 4), (20, 4), (24, 4), (40, 4),
                               (68, 4), (72, 2), (86, 2), (88, 8), (96, 4),
                               (100, 5), (108, 4), (112, 8), (120, 8)):
            if version == 1 and offset >= 112:
                continue
            family.holes(f"v{version}-entry-{offset}", base,
                         [(at + offset, length)])
        size = at + (112 if version == 1 else 128)
        family.holes(f"v{version}-path-size", base, [(size, 2)],
                     limits=[(size + 1, 0, 0)])
        family.holes(f"v{version}-path", base, [(size + 2, 2)])
        family.holes(f"v{version}-behind", base, [(size + 4, 4)])
        for cut in (0, 1, 31, 32, 33, 32 + 112, 32 + 114, 32 + 128,
                    32 + 130, 32 + 132, len(content) - 1):
            if cut < len(content):
                family.holes(
                    f"v{version}-cut-{cut}", stream(0, content[:cut])
                    + stream(5, b"\x01z"), [],
                    bounds=f"DestList stream cut to {cut} bytes")
    two = stream(0, dest_base(1, entry_base(1, "ab"), b""))
    family.holes("path", two, [(len(two) - 4, 4)])
    three = dest_base(2, entry_base(2, "C:\\\u20ac"))
    family.holes("long", stream(0, three), [(len(three) + 2 - 8, 4)])
    family.holes("streams", stream(1, b"\x01a") + stream(0, b"")
                 + stream(2, b"\x02bc"), [(0, 1), (8, 1)],
                 bounds="names of the streams symbolic")
    family.holes("none", stream(1, b"\x01a"), [(0, 1)],
                 limits=[(0, 1, 255)], bounds="no DestList stream")


_register()

REGISTRY.add_reuse()
