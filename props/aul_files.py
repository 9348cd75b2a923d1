"""C32: the string and time files of the Apple unified logging."""

import uuid

from dtformats import unified_logging

from props import lib
from props.lib import Reject

REGISTRY = lib.Registry()
cases = REGISTRY.cases
find_case = REGISTRY.find


def uuid_text(data):
    groups = [data[:4], data[4:6], data[6:8], data[8:10], data[10:]]
    return "-".join(["".join([f"{x:02x}" for x in group])
                     for group in groups])


def signature_text(data):
    return "".join([lib.ESCAPED[x] for x in data])


def zero_terminated(data, offset):
    if offset >= len(data):
        raise Reject("text")
    end = offset
    while data[end] != 0:
        end += 1
        if end == len(data):
            raise Reject("text")
    try:
        return data[offset:end].decode("utf-8"), end + 1
    except UnicodeDecodeError:
        raise Reject("text")


# Shared-cache strings.

class Range:

    def __init__(self, values):
        self.data_offset = values["Data offset"]
        self.offset = values["Range offset"]
        self.size = values["Range size"]
        self.index = values["UUID descriptor index"]


def named(out, data, offset, members, order=None):
    values = lib.layout(out, data, offset, members, order=order)
    return {member[0]: value for member, value in zip(members, values)}


RANGE_ORDER = ["Data offset", "Range offset", "Range size",
               "UUID descriptor index"]
RANGE_V1 = [("UUID descriptor index", 4, "d"), ("Range offset", 4, "x8"),
            ("Data offset", 4, "x8"), ("Range size", 4, "d")]
RANGE_V2 = [("Range offset", 8, "x8"), ("Data offset", 4, "x8"),
            ("Range size", 4, "d"), ("UUID descriptor index", 8, "d")]
UUID_V1 = [("Text offset", 4, "x8"), ("Text size", 4, "d"),
           ("Image identifier", 16, "uuid"), ("Path offset", 4, "x8")]
UUID_V2 = [("Text offset", 8, "x8")] + UUID_V1[1:]


def with_uuid(members):
    return [(name, size, uuid_kind if kind == "uuid" else kind)
            for name, size, kind in members]


def uuid_kind(value):
    return uuid_text(value)


def dsc_file(out, data):
    if len(data) < 16 or data[:4] != b"hcsd":
        raise Reject("signature")
    header = named(out, data, 0, [
        ("Signature", 4, "str"), ("Major format version", 2, "d"),
        ("Minor format version", 2, "d"), ("Number of ranges", 4, "d"),
        ("Number of UUIDs", 4, "d")])
    version = header["Major format version"]
    if header["Minor format version"] != 0 or not (
            version == 1 or version == 2):
        raise Reject("version")
    offset = 16
    ranges = []
    for _ in range(header["Number of ranges"]):
        ranges.append(Range(raw(out, data, offset, RANGE_V1 if version == 1
                                else RANGE_V2, RANGE_ORDER)))
        offset += 16 if version == 1 else 24
    identifiers = []
    for _ in range(header["Number of UUIDs"]):
        values = raw(out, data, offset, UUID_V1 if version == 1 else UUID_V2)
        offset += 28 if version == 1 else 32
        path, _ = zero_terminated(data, values["Path offset"])
        out.append(lib.line("Image path", path))
        values["path"] = path
        identifiers.append(values)
    for item in ranges:
        if item.index >= len(identifiers):
            raise Reject("index")
        item.image = identifiers[item.index]
    return ranges, identifiers


def raw(out, data, offset, members, order=None):
    """Members of which the 16 byte ones are identifiers."""
    total = sum([member[1] for member in members])
    if offset + total > len(data):
        raise Reject("structure")
    texts = {}
    values = {}
    for name, size, kind in members:
        part = data[offset:offset + size]
        if kind == "uuid":
            values[name] = uuid_text(part)
            texts[name] = lib.line(name, values[name])
        else:
            values[name] = lib.uint(data, offset, size)
            texts[name] = lib.line(name, lib.shown(kind, values[name]))
        offset += size
    for name in order or [member[0] for member in members]:
        out.append(texts[name])
    out.append("\n")
    return values


def make_dsc(debug, writer):
    return unified_logging.DSCFile(debug=debug, output_writer=writer)


def observe_dsc(reader):
    return ([(x.data_offset, x.range_offset, x.range_size, x.uuid_index,
              f"{x.image_identifier!s}", x.image_path, x.text_offset,
              x.text_size) for x in reader.ranges],
            [(f"{x.image_identifier!s}", x.image_path, x.text_offset,
              x.text_size) for x in reader.uuids])


def decode_dsc(out, data):
    ranges, identifiers = dsc_file(out, data)
    images = [(x["Image identifier"], x["path"], x["Text offset"],
               x["Text size"]) for x in identifiers]
    return ([(x.data_offset, x.offset, x.size, x.index) + images[x.index]
             for x in ranges], images)


def find_dsc(data, ranges, reference, dynamic):
    for item in ranges:
        image = item.image
        if dynamic:
            begin, size = image["Text offset"], image["Text size"]
        else:
            begin, size = item.offset, item.size
        if begin <= reference and reference < begin + size:
            if dynamic:
                text = "%s"
            else:
                text, _ = zero_terminated(
                    data, item.data_offset + reference - begin)
            return (image["Image identifier"], image["path"], text,
                    image["Text offset"])
    return None


def search_dsc(env, base, holes, dynamic, high, before=()):
    data = lib.fill(env, base, holes)
    reference = env.int("reference", 0, high)
    result, _, reader = lib.read_file(env, make_dsc, data, before=before)
    try:
        ranges, _ = dsc_file([], data)
    except Reject:
        env.check("outcome", result, ("raise", "ParseError"))
        env.reach("refused")
        return
    env.check("outcome", result, ("ok", None))
    for attempt in range(2):
        found = lib.outcome(reader.GetImageValues, reference, dynamic)
        if found[0] == "ok" and found[1] is not None:
            found = ("ok", (
                f"{found[1].identifier!s}", found[1].path, found[1].string,
                found[1].text_offset))
        try:
            want = ("ok", find_dsc(data, ranges, reference, dynamic))
        except Reject:
            want = ("raise", "ParseError")
        env.check(f"image values {attempt}", found, want)
    env.reach("searched")


# Strings of an image.

def uuidtext_file(out, data):
    if len(data) < 16 or data[:4] != b"\x99\x88\x77\x66":
        raise Reject("signature")
    count = lib.uint(data, 12, 4)
    if 16 + 8 * count > len(data):
        raise Reject("entries")
    if count == 0:
        raise lib.Unspecified("no entries")
    out.append(lib.line("Signature", signature_text(data[:4])))
    major, minor = lib.uint(data, 4, 4), lib.uint(data, 8, 4)
    out.append(lib.line("Major format version", f"{major:d}"))
    out.append(lib.line("Minor format version", f"{minor:d}"))
    out.append(lib.line("Number of entries", f"{count:d}"))
    entries = []
    rows = ""
    start = 16 + 8 * count
    for index in range(count):
        reference = lib.uint(data, 16 + 8 * index, 4)
        size = lib.uint(data, 20 + 8 * index, 4)
        entries.append((reference, size, start))
        rows = rows + (f"\t[{index:03d}] offset: 0x{reference:08x}, "
                       f"data size: {size:d}\n")
        start = start + size
    out.append("Entry descriptors:\n" + rows + "\n")
    if major != 2 or minor != 1:
        raise Reject("version")
    path, _ = zero_terminated(data, start)
    out.append(lib.item("Image path", path))
    lib.close(out)
    return entries, path


def make_uuidtext(debug, writer):
    return unified_logging.UUIDTextFile(debug=debug, output_writer=writer)


def observe_uuidtext(reader):
    return reader.GetImagePath()


def decode_uuidtext(out, data):
    return uuidtext_file(out, data)[1]


def search_uuidtext(env, base, holes, high, before=()):
    data = lib.fill(env, base, holes)
    reference = env.int("reference", 0, high)
    result, _, reader = lib.read_file(env, make_uuidtext, data,
                                      before=before)
    try:
        entries, path = uuidtext_file([], data)
    except Reject:
        env.check("outcome", result, ("raise", "ParseError"))
        env.reach("refused")
        return
    env.check("outcome", result, ("ok", None))
    env.check("path", reader.GetImagePath(), path)
    for attempt in range(2):
        want = ("ok", None)
        for begin, size, start in entries:
            if begin <= reference and reference < begin + size:
                try:
                    want = ("ok", zero_terminated(
                        data, start + reference - begin)[0])
                except Reject:
                    want = ("raise", "ParseError")
                break
        env.check(f"string {attempt}",
                  lib.outcome(reader.GetString, reference), want)
    env.reach("searched")


# Time synchronisation.

BOOT = [("Signature", 2, "str"), ("Record size", 2, "d"),
        ("Unknown1", 4, "x8"), ("Boot identifier", 16, "uuid"),
        ("Timebase numerator", 4, "d"), ("Timebase denominator", 4, "d"),
        ("Timestamp", 8, "in"), ("Time zone offset", 4, "i"),
        ("Daylight saving flag", 4, "d")]
SYNC = [("Signature", 2, "str"), ("Record size", 2, "d"),
        ("Unknown1", 4, "x8"), ("Kernel time", 8, "d"),
        ("Timestamp", 8, "in"), ("Time zone offset", 4, "i"),
        ("Daylight saving flag", 4, "d")]


def timesync_record(out, data, offset):
    """The values and the size of the record at offset."""
    if offset + 2 > len(data):
        raise Reject("signature")
    signature = data[offset:offset + 2]
    if signature == b"\xb0\xbb":
        members = BOOT
    elif signature == b"Ts":
        members = SYNC
    else:
        raise Reject("signature")
    total = sum([member[1] for member in members])
    if offset + total > len(data):
        raise Reject("record")
    values = []
    size = lib.uint(data, offset + 2, 2)
    for name, length, kind in members:
        if kind == "str":
            value = data[offset:offset + length]
            text = signature_text(value)
        elif kind == "uuid":
            value = uuid_text(data[offset:offset + length])
            text = value
        elif kind == "in" or kind == "i":
            value = lib.sint(data, offset, length)
            text = f"{value:d}" if kind == "i" else lib.posix_time_ns(value)
        else:
            value = lib.uint(data, offset, length)
            text = lib.shown(kind, value)
        values.append(value)
        out.append(lib.line(name, text))
        offset += length
    out.append("\n")
    if size < total:
        raise Reject("size")
    return values, size


def make_timesync(debug, writer):
    return unified_logging.TimesyncDatabaseFile(
        debug=debug, output_writer=writer)


def values_of(record):
    values = [record.signature, record.record_size, record.unknown1]
    if record.signature == b"Ts":
        values.append(record.kernel_time)
    else:
        values.extend([f"{record.boot_identifier!s}",
                       record.timebase_numerator,
                       record.timebase_denominator])
    return values + [record.timestamp, record.time_zone_offset,
                     record.daylight_saving_flag]


def read_timesync(env, data, debug, before):
    writer = lib.Writer()
    files = {"/f": data}
    for number, content in enumerate(before):
        files[f"/{number}"] = bytes.fromhex(content)
    records = []
    with lib.use_files(files):
        reader = make_timesync(debug, writer)
        for number in range(len(before)):
            reader.Open(f"/{number}")
            lib.outcome(lambda: list(reader.ReadRecords()))
            reader.Close()
        writer.clear()
        result = lib.outcome(reader.Open, "/f")
        if result[0] == "ok":
            generator = reader.ReadRecords()
            while True:
                try:
                    records.append(values_of(next(generator)))
                except StopIteration:
                    break
                except Exception as exception:
                    result = ("raise", lib.exception_name(exception))
                    break
        reader.Close()
    return result, records, writer.text()


def timesync(env, base, holes, size=None, limits=(), before=()):
    data = lib.fill(env, base, holes, size, limits)
    out = []
    want = ("ok", None)
    expected = []
    offset = 0
    while offset < len(data):
        try:
            values, length = timesync_record(out, data, offset)
        except Reject:
            want = ("raise", "ParseError")
            break
        expected.append(values)
        offset = offset + length
    for debug in (True, False):
        name = "debug" if debug else "quiet"
        result, records, text = read_timesync(env, data, debug, before)
        env.check(f"{name} outcome", result, want)
        env.check(f"{name} records", records, expected)
        env.check(f"{name} text", text, "".join(out) if debug else "")
    env.reach(want[0])


timesync.reusable = True


def number(value, size):
    return value.to_bytes(size, "little")


def dsc(version=1, ranges=((0, 0x100, 0x20),), images=((0x1000, 0x200),),
        strings=b"%d\x00text %s\x00{}\x00" + b"abcdefghijklmn\x00" * 3):
    """A file, and where its strings begin."""
    size = 16 + len(ranges) * (16 if version == 1 else 24) + len(images) * (
        28 if version == 1 else 32)
    paths = b"".join([b"/bin/%c\x00" % (97 + index)
                      for index in range(len(images))])
    start = size + len(paths)
    data = b"hcsd" + number(version, 2) + number(0, 2) + number(
        len(ranges), 4) + number(len(images), 4)
    for index, offset, length in ranges:
        if version == 1:
            data += number(index, 4) + number(offset, 4) + number(
                start, 4) + number(length, 4)
        else:
            data += number(offset, 8) + number(start, 4) + number(
                length, 4) + number(index, 8)
        start += length
    for index, (offset, length) in enumerate(images):
        data += number(offset, 4 if version == 1 else 8) + number(length, 4)
        data += bytes(range(16 * index + 1, 16 * index + 17))
        data += number(size + 7 * index, 4)
    return data + paths + strings


def uuidtext(entries, strings, path=b"/usr/lib/x\x00"):
    data = b"\x99\x88\x77\x66" + number(2, 4) + number(1, 4) + number(
        len(entries), 4)
    for offset, size in entries:
        data += number(offset, 4) + number(size, 4)
    return data + strings + path


def boot(size=48, timestamp=1554134400123456789):
    return (b"\xb0\xbb" + number(size, 2) + number(0, 4)
            + bytes(range(16)) + number(125, 4) + number(3, 4)
            + number(timestamp, 8) + number(300, 4) + number(1, 4)
            + bytes(max(0, size - 48)))


def sync(size=32, kernel=12345, timestamp=1554134400123456789):
    return (b"Ts" + number(size, 2) + number(0, 4) + number(kernel, 8)
            + number(timestamp, 8) + number(0xffffffff, 4) + number(0, 4)
            + bytes(max(0, size - 32)))


def _register():
    run = lib.file_runner(make_dsc, decode_dsc, observe=observe_dsc)
    for version in (1, 2):
        family = lib.Family(REGISTRY, "C32", f"dsc{version}", run)
        one = dsc(version)
        step = 16 if version == 1 else 24
        family.fields(one, [(0, 4), (4, 2), (6, 2)])
        family.fields(one, [(8, 1), (12, 1)], name="count")
        family.fields(one, [(8, 4), (12, 4)], name="count", tier="thorough")
        members = RANGE_V1 if version == 1 else RANGE_V2
        offset = 16
        for _, size, _ in members:
            family.fields(one, [(offset, size)], name="range")
            offset += size
        for name, size, _ in UUID_V1 if version == 1 else UUID_V2:
            if name == "Path offset":
                family.fields(one, [(offset, 1)], name="image")
                family.fields(one, [(offset + 1, 3)], name="image")
                family.fields(one, [(offset, size)], name="image",
                              tier="thorough")
            else:
                family.fields(one, [(offset, size)], name="image")
            offset += size
        family.fields(one, [(offset, 2), (offset + 5, 2)], name="path")
        two = dsc(version, ranges=((1, 0x100, 0x10), (0, 0x110, 0x10)),
                  images=((0x1000, 0x200), (0x1200, 0x80)))
        index = 16 if version == 1 else 32
        family.holes("indexes", two, [(index, 1), (index + step, 1)])
        family.holes("three", dsc(version, ranges=(
            (0, 1, 2), (1, 3, 4), (2, 5, 6)), images=((1, 2), (3, 4),
                                                      (5, 6))),
            [(16, step)])
        family.cuts(one, [0, 3, 15, 16, 17, 16 + step - 1, 16 + step,
                          16 + step + 10, offset - 1, offset, offset + 3,
                          offset + 6, offset + 7])
        for dynamic in (False, True):
            label = "dynamic" if dynamic else "static"
            for name, base, holes, high in (
                    ("two", two, [], 0x1400),
                    ("ranges", two, [(index + (4 if version == 1 else -16),
                                      1)], 0x140),
                    ("apart", dsc(version, ranges=(
                        (0, 0x300, 8), (1, 0x100, 8), (0, 0x2f8, 8)),
                        images=((0x300, 4), (0x304, 8))), [], 0x400),
                    ("empty", dsc(version, ranges=(
                        (0, 0x100, 0), (0, 0x100, 8)),
                        images=((0x100, 0),)), [], 0x400)):
                REGISTRY.add(
                    "C32", f"dsc{version}-{label}-{name}", search_dsc,
                    {"base": base.hex(), "holes": holes, "dynamic": dynamic,
                     "high": high},
                    bounds=f"any string reference up to {high}")
    run = lib.file_runner(make_uuidtext, decode_uuidtext,
                          observe=observe_uuidtext)
    family = lib.Family(REGISTRY, "C32", "uuidtext", run)
    one = uuidtext([(0x100, 8)], b"%d\x00ab%s\x00")
    two = uuidtext([(0x200, 6), (0x100, 6)], b"first\x00other\x00")
    family.fields(one, [(0, 4), (4, 4), (8, 4), (12, 1), (16, 4), (20, 1)])
    family.fields(one, [(12, 4), (20, 4)], tier="thorough")
    family.fields(one, [(len(one) - 11, 2), (len(one) - 1, 1)], name="path")
    family.fields(two, [(16, 4), (24, 4), (28, 1)], name="two")
    family.holes("two-sizes", two, [(20, 1), (28, 1)])
    family.cuts(one, [0, 3, 4, 15, 16, 20, 24, 31, 32, 33, len(one) - 1])
    for name, base, holes, high in (
            ("one", one, [], 0x200), ("two", two, [], 0x300),
            ("size", two, [(20, 1)], 0x300),
            ("touching", uuidtext([(0x100, 6), (0x200, 6), (0x106, 6)],
                                  b"first\x00other\x00third\x00"), [],
             0x300),
            ("overlap", uuidtext([(0x100, 6), (0x103, 6)],
                                 b"first\x00other\x00"), [], 0x300),
            ("text", one, [(26, 3)], 0x108)):
        REGISTRY.add("C32", f"uuidtext-search-{name}", search_uuidtext,
                     {"base": base.hex(), "holes": holes, "high": high},
                     tier="thorough" if name == "size" else "quick",
                     bounds=f"any string reference up to {high}")
    family = lib.Family(REGISTRY, "C32", "timesync", timesync)
    for name, base, members in (("boot", boot(), BOOT),
                                ("sync", sync(), SYNC)):
        offset = 0
        for label, size, _ in members:
            if label == "Record size":
                family.fields(base + sync(), [(offset, 1)], name=name)
                family.fields(base + sync(), [(offset, 2)], name=name,
                              tier="thorough")
            else:
                family.fields(base + sync(), [(offset, size)], name=name)
            offset += size
    three = boot(56) + sync(40) + boot()
    family.holes("three", three, [(8, 16), (72, 8), (104, 16)])
    family.holes("signatures", three, [(0, 2), (56, 2), (96, 2)])
    family.fields(three, [(58, 1), (98, 1)], name="three-size")
    family.cuts(three, [0, 1, 2, 47, 48, 56, 57, 58, 87, 88, 95, 96, 143])
    REGISTRY.add_reuse()


_register()
