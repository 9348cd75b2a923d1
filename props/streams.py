"""C13: CUPS IPP; C14: gzip members and fseventsd disk log streams."""

import zlib

from dtformats import cups_ipp
from dtformats import fseventsd
from dtformats import gzipfile

from props import lib

REGISTRY = lib.Registry()
cases = REGISTRY.cases
find_case = REGISTRY.find


TAGS = {
    1: "operation-attributes-tag", 2: "job-attributes-tag",
    3: "end-of-attributes-tag", 4: "printer-attributes-tag",
    5: "unsupported-attributes-tag", 15: "chunking-end-of-attributes-tag",
    0x13: "no-value", 0x21: "integer", 0x22: "boolean", 0x23: "enum",
    0x30: "octetString", 0x31: "dateTime", 0x32: "resolution",
    0x33: "rangeOfInteger", 0x35: "textWithLanguage",
    0x36: "nameWithLanguage", 0x41: "textWithoutLanguage",
    0x42: "nameWithoutLanguage", 0x44: "keyword", 0x45: "uri",
    0x46: "uriScheme", 0x47: "charset", 0x48: "naturalLanguage",
    0x49: "mimeMediaType"}

MONTHS = (31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)


def decoded(data, charset):
    try:
        return data.decode(charset)
    except (LookupError, ValueError):
        raise lib.Reject("characters")


def ipp_time(data):
    if len(data) < 11:
        raise lib.Reject("date and time")
    year = lib.uint(data, 0, 2, big=True)
    month, day, hours, minutes, seconds, tenths = [data[i] for i in range(2, 8)]
    if year > 9999 or month < 1 or month > 12:
        raise lib.Reject("date")
    days = MONTHS[month - 1]
    if month == 2 and (year % 4 == 0 and year % 100 != 0 or year % 400 == 0):
        days = 29
    if day < 1 or day > days:
        raise lib.Reject("day")
    if hours > 23 or minutes > 59 or seconds > 59 or tenths > 9:
        raise lib.Reject("time")
    if data[8] != 0x2b and data[8] != 0x2d:
        raise lib.Reject("direction")
    if data[9] > 13 or data[10] > 59:
        raise lib.Reject("offset")
    return (f"{year:04d}-{month:02d}-{day:02d} "
            f"{hours:02d}:{minutes:02d}:{seconds:02d}.{tenths:d}")


def ipp(out, data):
    """Header, then groups of attributes up to the end tag."""
    if len(data) < 8:
        raise lib.Reject("header")
    out.append(lib.line("Major format version", lib.sint(data, 0, 1)))
    out.append(lib.line("Minor format version", lib.sint(data, 1, 1)))
    out.append(lib.line("Operation identifier",
                        f"0x{lib.sint(data, 2, 2, big=True):04x}"))
    out.append(lib.line("Request identifier",
                        f"0x{lib.sint(data, 4, 4, big=True):08x}"))
    out.append("\n")
    charset = "ascii"
    at = 8
    while True:
        if at >= len(data):
            raise lib.Reject("tag")
        tag = data[at]
        if tag == 3:
            return
        if tag == 1 or tag == 2 or tag == 4 or tag == 5:
            at += 1
            continue
        if tag < 0x10 or tag > 0x7f:
            raise lib.Reject("tag")
        size = lib.sint(data, at + 1, 2, big=True)
        if size < 0 or at + 5 + size > len(data):
            raise lib.Reject("name")
        name = decoded(data[at + 3:at + 3 + size], "utf-8")
        length = lib.sint(data, at + 3 + size, 2, big=True)
        start = at + 5 + size
        if length < 0 or start + length > len(data):
            raise lib.Reject("value")
        value = data[start:start + length]
        at = start + length
        label = TAGS.get(tag, "UNKNOWN")
        out.append(lib.line("Tag value", f"0x{tag:02x} ({label:s})"))
        out.append(lib.line("Name size", size))
        out.append(lib.item("Name", name.rstrip("\x00")))
        out.append(lib.line("Value data size", length))
        out.append(lib.dump("Value data", value))
        if tag == 0x21 or tag == 0x23:
            out.append(lib.line("Value", lib.sint(value, 0, 4, big=True)))
        elif tag == 0x22:
            if value == b"\x00":
                out.append(lib.line("Value", "False"))
            elif value == b"\x01":
                out.append(lib.line("Value", "True"))
            else:
                raise lib.Reject("boolean")
        elif tag == 0x31:
            out.append(lib.line("Value", ipp_time(value)))
        elif tag == 0x41 or tag == 0x42:
            out.append(lib.line("Value", decoded(value, charset)))
        elif 0x44 <= tag <= 0x49:
            text = decoded(value, "ascii")
            out.append(lib.line("Value", text))
            if tag == 0x47:
                charset = text
        out.append("\n")


def make_ipp(debug, writer):
    return cups_ipp.CupsIppFile(debug=debug, output_writer=writer)


def gzip(out, data):
    """Members: header, optional fields, deflate stream, footer."""
    at = 0
    while at < len(data):
        if at + 10 > len(data):
            raise lib.Reject("header")
        out.append(lib.line("Signature", f"0x{lib.uint(data, at, 2):04x}"))
        out.append(lib.line("Compression method", lib.sint(data, at + 2, 1)))
        flags = data[at + 3]
        out.append(lib.line("Flags", f"0x{flags:02x}"))
        out.append(lib.line("Modification time",
                            lib.posix_time(lib.sint(data, at + 4, 4))))
        out.append(lib.line("Operating system", data[at + 9]))
        out.append(lib.line("Compression flags", f"0x{data[at + 8]:02x}"))
        out.append("\n")
        if data[at:at + 3] != b"\x1f\x8b\x08":
            raise lib.Reject("signature")
        at += 10
        if flags & 4:
            at += 2 + lib.uint(data, at, 2)
        for flag, label in ((8, "Original filename"), (16, "Comment")):
            if flags & flag:
                end = at
                while True:
                    if end >= len(data):
                        raise lib.Reject(label)
                    if data[end] == 0:
                        break
                    end += 1
                text = data[at:end].decode("iso-8859-1")
                out.append(lib.line(label, text))
                at = end + 1
        if flags & 2:
            at += 2
        decompressor = zlib.decompressobj(-15)
        try:
            decompressor.decompress(data[at:])
        except zlib.error:
            raise lib.Reject("deflate")
        if decompressor.eof:
            at = len(data) - len(decompressor.unused_data)
        else:
            at = max(at, len(data))
        if at + 8 > len(data):
            raise lib.Reject("footer")
        out.append(lib.line("Checksum", f"0x{lib.uint(data, at, 4):08x}"))
        out.append(lib.line("Uncompressed data size",
                            lib.uint(data, at + 4, 4)))
        out.append("\n")
        at += 8


def make_gzip(debug, writer):
    return gzipfile.GZipFile(debug=debug, output_writer=writer)


class PlainGzip(lib.MemFile):
    """Stands in for the gzip library: the file holds uncompressed data."""

    def __init__(self):
        super().__init__(b"")

    def open_file_object(self, file_object):
        file_object.seek(0)
        self.data = file_object.read()
        if self.data[:1] == b"\xff":
            raise OSError("no gzip signature")

    def get_uncompressed_data_size(self):
        return len(self.data)


def make_events(debug, writer):
    fseventsd.pygzipf.file = PlainGzip
    return fseventsd.FseventsFile(debug=debug, output_writer=writer)


def events(out, data):
    """Pages of the disk log stream."""
    if data[:1] == b"\xff":
        raise lib.Reject("gzip")
    at = 0
    while at < len(data):
        if at + 12 > len(data):
            raise lib.Reject("page")
        signature = data[at:at + 4]
        size = lib.uint(data, at + 8, 4)
        end = at + size
        if signature != b"1SLD" and signature != b"2SLD":
            raise lib.Reject("signature")
        out.append(lib.line("Signature", signature.decode("ascii")))
        out.append(lib.dump("Unknown1", data[at + 4:at + 8]))
        out.append(lib.line("Page size", size))
        out.append("\n")
        at += 12
        while at < end:
            extra = 8
            if signature == b"1SLD":
                extra = 0
            zero = at
            while True:
                if zero >= len(data):
                    raise lib.Reject("path")
                if data[zero] == 0:
                    break
                zero += 1
            path = decoded(data[at:zero], "utf-8")
            if zero + 13 + extra > len(data):
                raise lib.Reject("record")
            out.append(lib.item("Path", path))
            out.append(lib.line("Event identifier", lib.uint(data, zero + 1, 8)))
            out.append(lib.line("Flags", f"0x{lib.uint(data, zero + 9, 4):04x}"))
            if extra:
                out.append(lib.line("Node identifier",
                                    lib.uint(data, zero + 13, 8)))
            out.append("\n")
            at = zero + 13 + extra


def attribute(tag, name, value):
    return (bytes([tag]) + len(name).to_bytes(2, "big") + name
            + len(value).to_bytes(2, "big") + value)


def _register():
    run = lib.file_runner(make_ipp, ipp)
    family = lib.Family(REGISTRY, "C13", "ipp", run)
    head = bytes.fromhex("0200000200000007")
    base = (head + b"\x01" + attribute(0x47, b"charset", b"utf-8")
            + attribute(0x21, b"n", bytes([0, 0, 1, 2])) + b"\x02"
            + attribute(0x41, b"", "\u00e9".encode()) + b"\x03")
    family.holes("header", base, [(0, 8)])
    family.holes("group", base, [(8, 1)])
    first = 9
    second = first + 5 + 7 + 5
    third = second + 5 + 1 + 4
    last = third + 1
    family.holes("end", base, [(len(base) - 1, 1)])
    family.holes("between", base, [(third, 1)])
    for name, at, size in (("first", first, 7), ("second", second, 1),
                           ("last", last, 0)):
        family.holes(f"{name}-name-size", base, [(at + 1, 2)])
        family.holes(f"{name}-value-size", base, [(at + 3 + size, 2)])
    family.holes("first-name", base, [(first + 3, 3)])
    for width, sizes in ((0, ()), (1, ()), (2, ()), (4, ()), (5, ()),
                         (11, ())):
        data = (head + b"\x01" + attribute(0x12, b"n", bytes(width))
                + b"\x03")
        if width <= 2:
            family.holes(f"tag-{width}", data, [(9, 1), (15, width)])
        else:
            family.holes(f"tag-{width}", data, [(9, 1)])
    for tag in (0x21, 0x23):
        for width in (3, 4, 5):
            data = head + b"\x04" + attribute(tag, b"i", bytes(width)) + b"\x03"
            family.holes(f"integer-{tag}-{width}", data, [(15, width)])
    stamp = bytes([7, 0xe8, 2, 29, 23, 59, 59, 9, 0x2b, 13, 59])
    for width in (10, 11, 12):
        data = head + attribute(0x31, b"t", (stamp + b"\x00")[:width]) + b"\x03"
        for name, offset, size in (
                ("year", 0, 2), ("month", 2, 2), ("feb-year", 0, 2),
                ("hours", 4, 2), ("seconds", 6, 2), ("zone", 8, 2)):
            family.holes(f"time-{width}-{name}", data, [(14 + offset, size)])
        family.holes(f"time-{width}-offset", data, [(24, 1)])
    day = bytes([7, 0xe7, 4, 30, 1, 2, 3, 4, 0x2d, 1, 30])
    data = head + attribute(0x31, b"t", day) + b"\x03"
    family.holes("time-date", data, [(14, 1), (16, 2)])
    family.holes("time-whole", data, [(18, 7)])
    for tag in range(0x41, 0x4a):
        data = (head + b"\x05" + attribute(tag, b"s", b"abc") + b"\x03")
        if tag != 0x47:
            family.holes(f"text-{tag}", data, [(15, 3)])
    for charset in (b"utf-8", b"us-ascii", b"iso-8859-1", b"bogus", b"utf-16",
                    b""):
        for tag in (0x41, 0x42, 0x44, 0x36):
            data = (head + b"\x01" + attribute(0x47, b"c", charset)
                    + attribute(tag, b"s", b"abc") + b"\x03")
            if charset == b"utf-16":
                family.holes(f"charset-{charset.decode()}-{tag}", data, [])
                continue
            family.holes(f"charset-{charset.decode()}-{tag}", data,
                         [(len(data) - 3, 2)])
    family.cuts(base, [0, 1, 7, 8, 9, 10, 11, 12, 18, 19, 20, 21, 22, 25,
                       second, second + 9, second + 10, len(base) - 2,
                       len(base) - 1])

    run = lib.file_runner(make_gzip, gzip)
    family = lib.Family(REGISTRY, "C14", "gzip", run)
    packed = deflated(b"hello hello")
    nothing = deflated(b"")
    stored = deflated(b"xyz", 0)
    foot = bytes(range(1, 9))
    plain = b"\x1f\x8b\x08\x00" + bytes(6)
    full = (b"\x1f\x8b\x08\x1e" + bytes(6) + b"\x03\x00abc" + b"name\x00"
            + b"note\x00" + b"\x12\x34")
    for name, content in (("packed", packed), ("empty", nothing),
                          ("stored", stored)):
        base = plain + content + foot
        family.holes(f"{name}-footer", base, [(len(base) - 8, 8)])
        family.holes(f"{name}-trailer", base + bytes(3), [(len(base), 3)])
        family.holes(f"{name}-two", base + plain + nothing + foot,
                     [(len(base), 4), (len(base) + len(plain + nothing), 8)],
                     bounds="the footer and the header of the second symbolic",
                     limits=[(len(base) + 3, 0, 0)])
        family.cuts(base, [0, 3, 9, 10, len(base) - 9, len(base) - 8,
                           len(base) - 7, len(base) - 1], name=f"{name}-cut")
    base = plain + stored + foot
    family.holes("header", base, [(0, 3), (4, 6)])
    family.holes("time", base, [(4, 4)])
    base = full + stored + foot
    family.holes("full-numbers", base, [(4, 6), (len(base) - 8, 8)])
    family.holes("full-extra", base, [(12, 3), (25, 2)])
    family.holes("full-name", base, [(15, 4)])
    family.holes("full-comment", base, [(20, 4)])
    family.cuts(base, [10, 11, 12, 14, 15, 16, 19, 20, 24, 25, 26, 27,
                       len(base) - 8, len(base) - 1], name="full-cut")
    for flags in (1, 2, 3, 4, 5, 6, 8, 9, 10, 12, 16, 17, 20, 24, 26, 28, 31,
                  0x40, 0xe0):
        parts = plain[:3] + bytes([flags]) + plain[4:]
        if flags & 4:
            parts += b"\x02\x00zz"
        if flags & 8:
            parts += b"f\x00"
        if flags & 16:
            parts += b"c\x00"
        if flags & 2:
            parts += b"\x01\x02"
        holes = [(4, 5)]
        base = parts + stored + foot
        family.holes(f"flags-{flags}", base, holes + [(len(base) - 8, 8)])
    family.holes("corrupt", plain + b"\x06" + bytes(20), [(4, 4)])
    family.holes("corrupt-stored", plain + b"\x01\x03\x00\x00\x00abc" + foot,
                 [(4, 4)])

    run = lib.file_runner(make_events, events)
    family = lib.Family(REGISTRY, "C14", "events", run)
    one = b"a\x00" + bytes(range(1, 13))
    two = b"/bc\x00" + bytes(range(1, 21))
    v1 = b"1SLD" + bytes(4) + (12 + 2 * len(one)).to_bytes(4, "little") \
        + one + one
    v2 = b"2SLD" + bytes(4) + (12 + len(two)).to_bytes(4, "little") + two
    empty = b"2SLD" + bytes(4) + b"\x0c\x00\x00\x00"
    base = v1 + empty + v2
    for name, at in (("first", 0), ("empty", len(v1)),
                     ("last", len(v1 + empty))):
        family.holes(f"{name}-signature", base, [(at, 4)])
        family.holes(f"{name}-unknown", base, [(at + 4, 4)])
        family.holes(f"{name}-size", base, [(at + 8, 4)])
    family.holes("record-one", base, [(14, 12), (28, 12)])
    family.holes("record-two", base, [(len(base) - 20, 20)])
    family.holes("path-one", base, [(12, 2)])
    family.holes("path-two", base, [(len(base) - 24, 4)])
    family.holes("path-text", base, [(len(base) - 24, 2)])
    family.cuts(base, [0, 1, 4, 11, 12, 13, 25, 26, 27, 39, 40, 51, 52, 63,
                       64, 68, len(base) - 1])


def deflated(data, level=9):
    packer = zlib.compressobj(level, zlib.DEFLATED, -15)
    return packer.compress(data) + packer.flush()


_register()

REGISTRY.add_reuse()
