"""C11: Safari cookies; C12: time zone information."""

import datetime
import struct

from dtformats import safari_cookies
from dtformats import tzif

from props import lib

REGISTRY = lib.Registry()
cases = REGISTRY.cases
find_case = REGISTRY.find


def cookie_time(value):
    text = f"{value:f}"
    try:
        moment = datetime.datetime(2001, 1, 1) + datetime.timedelta(
            seconds=int(value))
    except (OverflowError, ValueError):
        return text
    return f"{moment!s} ({text:s})"


def cookie_string(page, offset):
    """ASCII characters up to and including a NUL."""
    end = offset
    while True:
        if end >= len(page):
            raise lib.Reject("string")
        if page[end] == 0:
            break
        end += 1
    try:
        return page[offset:end].decode("ascii")
    except UnicodeDecodeError:
        raise lib.Reject("string")


def cookies(out, data):
    if len(data) < 8 or data[:4] != b"cook":
        raise lib.Reject("header")
    pages = lib.uint(data, 4, 4, big=True)
    out.append(lib.line("Signature", f"{data[:4]!s}"))
    out.append(lib.line("Number of pages", pages))
    out.append("\n")
    if 8 + 4 * pages > len(data):
        raise lib.Reject("page sizes")
    sizes = [lib.uint(data, 8 + 4 * i, 4, big=True) for i in range(pages)]
    for index, size in enumerate(sizes):
        out.append(lib.line(f"Page: {index} size", size))
    if pages > 0:
        out.append("\n")
    start = 8 + 4 * len(sizes)
    for size in sizes:
        if size == 0 or start + size > len(data):
            raise lib.Reject("page")
        cookie_page(out, data[start:start + size])
        start += size
    if start + 8 > len(data):
        raise lib.Reject("footer")


def cookie_page(out, page):
    count = lib.uint(page, 4, 4)
    if 8 + 4 * count > len(page):
        raise lib.Reject("page header")
    out.append(lib.line("Signature", f"0x{lib.uint(page, 0, 4):08x}"))
    out.append(lib.line("Number of records", count))
    starts = [lib.uint(page, 8 + 4 * i, 4) for i in range(count)]
    for index, start in enumerate(starts):
        out.append(lib.line(f"Record: {index} offset", start))
    if count > 0:
        out.append("\n")
    for start in starts:
        if start + 56 > len(page):
            raise lib.Reject("record")
        at = start
        out.append(lib.line("Size", lib.uint(page, at, 4)))
        out.append(lib.line("Unknown1", f"0x{lib.uint(page, at + 4, 4):08x}"))
        out.append(lib.line("Flags", f"0x{lib.uint(page, at + 8, 4):08x}"))
        out.append(lib.line("Unknown2", f"0x{lib.uint(page, at + 12, 4):08x}"))
        names = ("URL", "Name", "Path", "Value")
        offsets = []
        for index, name in enumerate(names):
            value = lib.uint(page, at + 16 + 4 * index, 4)
            offsets.append(value)
            out.append(lib.line(f"{name:s} offset", value))
        out.append(lib.line("Unknown3", f"0x{lib.uint(page, at + 32, 8):08x}"))
        expires, = struct.unpack("<d", page[at + 40:at + 48])
        created, = struct.unpack("<d", page[at + 48:at + 56])
        out.append(lib.line("Expiration time", cookie_time(expires)))
        out.append(lib.line("Creation time", cookie_time(created)))
        out.append("\n")
        for name, offset in zip(names, offsets):
            text = ""
            if offset != 0:
                text = cookie_string(page, start + offset)
            out.append(lib.line(name, text))
        out.append("\n")


def make_cookies(debug, writer):
    return safari_cookies.BinaryCookiesFile(debug=debug, output_writer=writer)


TZ_KEEP = ("Local time types table data",
           "Timezeone abbreviation strings data",
           "Leap second records data", "Standard time indicators data",
           "UTC time indicators data")


def zone(out, data):
    after, version = zone_part(out, data, 0, 4, 8)
    if version != 0:
        after, _ = zone_part(out, data, after, 8, 12)
        out.append(lib.dump("Time zone string", data[after:]))
    return version


def zone_part(out, data, start, size, leap_size):
    if start + 44 > len(data):
        raise lib.Reject("header")
    out.append(lib.line("Signature", f"{data[start:start + 4]!s}"))
    version = data[start + 4]
    out.append(lib.line("Format version", f"0x{version:02x}"))
    out.append(lib.dump("Unknown1", data[start + 5:start + 20]))
    counts = []
    for index, name in enumerate((
            "Number of UTC time indicators",
            "Number of standard time indicators", "Number of leap seconds",
            "Number of transition times", "Number of local time types",
            "Time zone abbreviation strings size")):
        value = lib.uint(data, start + 20 + 4 * index, 4, big=True)
        counts.append(value)
        out.append(lib.line(name, value))
    out.append("\n")
    utc, standard, leaps, times, types, letters = counts
    if data[start:start + 4] != b"TZif":
        raise lib.Reject("signature")
    if version != 0 and version != 0x32 and version != 0x33:
        raise lib.Reject("version")
    at = start + 44
    if at + times * size > len(data):
        raise lib.Reject("times")
    index = 0
    while index < times:
        value = lib.sint(data, at + index * size, size, big=True)
        out.append(lib.line(f"Transition time: {index}", value))
        index += 1
    if index > 0:
        out.append("\n")
    at += index * size
    if at + index > len(data):
        raise lib.Reject("index")
    for position in range(index):
        out.append(lib.line(f"Type of local time: {position}",
                            data[at + position]))
    if index > 0:
        out.append("\n")
    at += index
    for label, length in (
            (TZ_KEEP[0], types * 6), (TZ_KEEP[1], letters),
            (TZ_KEEP[2], leaps * leap_size), (TZ_KEEP[3], standard),
            (TZ_KEEP[4], utc)):
        if at + length > len(data):
            raise lib.Reject(label)
        out.append(lib.dump(label, data[at:at + length]))
        at += length
    return at, version


def make_zone(debug, writer):
    return tzif.TimeZoneInformationFile(debug=debug, output_writer=writer)


def observe_zone(reader):
    return reader.format_version


def cookie_record(texts, size=None):
    tail = b""
    offsets = []
    for text in texts:
        offsets.append(56 + len(tail) if text is not None else 0)
        tail += text + b"\x00" if text is not None else b""
    length = 56 + len(tail)
    return (length.to_bytes(4, "little") + bytes(12)
            + b"".join([x.to_bytes(4, "little") for x in offsets]) + bytes(8)
            + struct.pack("<dd", 1e8, 2e8) + tail)


def cookie_page_bytes(records):
    head = 8 + 4 * len(records) + 4
    starts = []
    body = b""
    for record in records:
        starts.append(head + len(body))
        body += record
    return (b"\x00\x00\x01\x00" + len(records).to_bytes(4, "little")
            + b"".join([x.to_bytes(4, "little") for x in starts]) + bytes(4)
            + body)


def cookie_file(pages):
    return (b"cook" + len(pages).to_bytes(4, "big")
            + b"".join([len(x).to_bytes(4, "big") for x in pages])
            + b"".join(pages) + bytes(8))


def zone_bytes(counts, size, leap_size, version, tail=b""):
    utc, standard, leaps, times, types, letters = counts
    body = times * size + times + types * 6 + letters + leaps * leap_size \
        + standard + utc
    return (b"TZif" + bytes([version]) + bytes(15)
            + b"".join([x.to_bytes(4, "big") for x in counts])
            + bytes(range(1, body + 1)) + tail)


def _register():
    run = lib.file_runner(make_cookies, cookies)
    family = lib.Family(REGISTRY, "C11", "cookies", run)
    one = cookie_record([b"u.org", b"n", b"/", b"v"])
    two = cookie_record([b"x", None, b"", b"ab"])
    page = cookie_page_bytes([one, two])
    base = cookie_file([page])
    at = 12 + 20
    family.holes("signature", base, [(0, 4)])
    family.holes("pages", base, [(4, 4)])
    family.holes("page-size", base, [(8, 4)])
    family.holes("page-signature", base, [(12, 4)])
    family.holes("count", base, [(16, 4)])
    for index, start in ((0, at), (1, at + len(one))):
        family.holes(f"start-{index}", base, [(20 + 4 * index, 4)],
                     max_choose=20000)
        family.holes(f"numbers-{index}", base, [(start, 16), (start + 32, 8)])
        for offset in (16, 20, 24, 28):
            family.holes(f"offset-{index}-{offset}", base,
                         [(start + offset, 4)])
        for offset in (40, 48):
            family.holes(f"time-{index}-{offset}", base,
                         [(start + offset, 8)])
    family.holes("text", base, [(at + 56, 3)])
    family.holes("text-end", base, [(at + 60, 3)])
    family.holes("last-text", base, [(len(base) - 10, 2)])
    family.cuts(base, [0, 7, 8, 11, 12, 19, 20, 27, 31, 86, 87, 88, 95, 96,
                       len(base) - 9, len(base) - 8, len(base) - 1])
    several = cookie_file([cookie_page_bytes([two]), cookie_page_bytes([]),
                           cookie_page_bytes([two])])
    family.holes("several-sizes", several, [(11, 1), (15, 1)],
                 limits=[(15, 10, 14)])
    family.holes("several-values", several, [(len(several) - 11, 2)])
    family.holes("none", cookie_file([]), [(8, 8)])
    empty = cookie_file([])
    family.cuts(empty, [8, 15], name="none-cut")

    run = lib.file_runner(make_zone, zone, observe=observe_zone, keep=TZ_KEEP)
    family = lib.Family(REGISTRY, "C12", "zone", run)
    counts = (1, 2, 1, 2, 2, 4)
    v1 = zone_bytes(counts, 4, 8, 0)
    v2 = zone_bytes((0, 1, 1, 1, 1, 3), 4, 8, 0x32) + zone_bytes(
        counts, 8, 12, 0x32, b"\nUTC0\n")
    second = len(zone_bytes((0, 1, 1, 1, 1, 3), 4, 8, 0x32))
    plain = zone_bytes((0, 0, 0, 0, 1, 4), 4, 8, 0x33)
    for name, base, starts in (("v1", v1, (0,)), ("v2", v2, (0, second)),
                               ("plain", plain + plain, (0, len(plain)))):
        for start in starts:
            family.holes(f"{name}-head-{start}", base, [(start, 5)])
            family.holes(f"{name}-reserved-{start}", base, [(start + 5, 15)])
            for index in range(6):
                family.holes(f"{name}-count-{start}-{index}", base,
                             [(start + 20 + 4 * index, 4)])
            if name != "plain":
                family.holes(f"{name}-body-{start}", base,
                             [(start + 44, 24)])
        family.holes(f"{name}-tail", base, [(len(base) - 12, 12)])
        ends = sorted({x for start in starts
                       for x in (start, start + 1, start + 43, start + 44,
                                 start + 45, start + 60)}
                      | {len(base) - 1, len(base) - 9})
        family.cuts(base, [x for x in ends if x < len(base)],
                    name=f"{name}-cut")


_register()

REGISTRY.add_reuse()
