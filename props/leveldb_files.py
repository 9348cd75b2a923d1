"""C19: LevelDB logs, descriptors and tables, and IndexedDB tables."""

import snappy
import zstd

from dtformats import indexeddb
from dtformats import leveldb

from props import lib

REGISTRY = lib.Registry()
cases = REGISTRY.cases
find_case = REGISTRY.find

PAGE = 32768

TAGS = ("", "kComparator", "kLogNumber", "kNextFileNumber", "kLastSequence",
        "kCompactPointer", "kDeletedFile", "kNewFile", "", "kPrevLogNumber")


def varint(data, offset, end):
    """Base 128 number, least significant part first, at most 10 bytes."""
    value = 0
    for count in range(10):
        if offset + count >= end:
            raise lib.Reject("varint")
        byte = data[offset + count]
        value += (byte % 128) * 128 ** count
        if byte < 128:
            return value, offset + count + 1
    raise lib.Reject("varint")


def named(value, names):
    for number, name in names:
        if value == number:
            return f"{value:d} ({name:s})"
    return f"{value:d} (UNKNOWN)"


def value_type(value):
    return named(value, ((0, "kTypeDeletion"), (1, "kTypeValue")))


# Logs.


def blocks(out, data, record):
    """Joins the parts of records; record decodes one."""
    offset = 0
    parts = None
    start = 0
    while offset < len(data):
        size = lib.uint(data, offset + 4, 2)
        end = offset + 7 + size
        if end > len(data):
            raise lib.Reject("block")
        lib.layout(out, data, offset, (
            ("Checksum", 4, "x8"), ("Record data size", 2, "d"),
            ("Record type", 1, "d")))
        out.pop()
        content = data[offset + 7:end]
        out.append(lib.dump("Record data", content))
        if end > offset // PAGE * PAGE + PAGE:
            raise lib.Reject("page")
        kind = data[offset + 6]
        if kind == 1 or kind == 2:
            parts = [content]
            start = offset
        elif kind == 3 or kind == 4:
            if parts is None:
                raise lib.Reject("no first part")
            parts.append(content)
        if kind == 1 or kind == 4:
            out.append(lib.line("Offset", start))
            record(out, b"".join(parts))
            parts = None
        offset = end
        if PAGE - offset % PAGE < 7:
            offset = offset // PAGE * PAGE + PAGE


def part(out, data, offset, label):
    size, offset = varint(data, offset, len(data))
    if offset + size > len(data):
        raise lib.Reject("slice")
    out.append(lib.line(f"{label:s} size", size))
    content = data[offset:offset + size]
    out.append(lib.dump(label, content))
    return offset + size


def batch(out, data):
    lib.layout(out, data, 0, (("Sequence number", 8, "d"),
                              ("Number of values", 4, "d")))
    offset = 12
    while offset < len(data):
        kind = data[offset]
        out.append(lib.line("Value type", value_type(kind)))
        if kind > 1:
            raise lib.Reject("value type")
        offset = part(out, data, offset + 1, "Key")
        if kind == 1:
            offset = part(out, data, offset, "Value")


def log(out, data):
    blocks(out, data, batch)


EDITS = {2: ("Log number",), 3: ("Next file number",),
         4: ("Last sequence number",), 5: ("Level", "!Key"),
         6: ("Level", "File number"),
         7: ("Level", "File number", "File size", "!Smallest record key",
             "!Largest record key"), 9: ("Previous log number",)}


def edit(out, data):
    offset = 0
    while offset < len(data):
        tag, offset = varint(data, offset, len(data))
        out.append(lib.line("Value tag", named(tag, [
            (number, name) for number, name in enumerate(TAGS) if name])))
        if tag == 1:
            size, offset = varint(data, offset, len(data))
            if offset + size > len(data):
                raise lib.Reject("name")
            try:
                text = data[offset:offset + size].decode("utf-8")
            except UnicodeDecodeError:
                raise lib.Reject("name")
            out.append(lib.line("Name string size", size))
            out.append(lib.line("Name string", text))
            offset += size
            continue
        labels = None
        for number, names in EDITS.items():
            if tag == number:
                labels = names
        if labels is None:
            raise lib.Reject("tag")
        for label in labels:
            if label[0] == "!":
                offset = part(out, data, offset, label[1:])
            else:
                value, offset = varint(data, offset, len(data))
                out.append(lib.line(label, value))


def descriptor(out, data):
    blocks(out, data, edit)


# Tables.


def handle(out, data, offset, label):
    at, offset = varint(data, offset, len(data))
    size, offset = varint(data, offset, len(data))
    out.append(lib.line(f"{label:s} block offset", f"0x{at:08x}"))
    out.append(lib.line(f"{label:s} block size", size))
    return at, size, offset


def decompress(function, data):
    try:
        return function(data)
    except (snappy.UncompressError, zstd.Error):
        raise lib.Reject("compressed data")


def block(out, data, at, size):
    if at + size > len(data):
        raise lib.Reject("block")
    content = data[at:at + size]
    values = lib.layout(out, data, at + size, (
        ("Compression type", 1, "d"), ("Checksum", 4, "x8")))
    if values[0] > 2:
        raise lib.Reject("compression")
    if values[0] == 1:
        return decompress(snappy.decompress, content)
    if values[0] == 2:
        return decompress(zstd.decompress, content)
    return content


def entries(out, data):
    if len(data) < 4:
        raise lib.Reject("restarts")
    count = lib.uint(data, len(data) - 4, 4)
    out.append(lib.line("Number of restart values", count))
    end = len(data) - 4 - 4 * count
    if count == 0 or end < 0:
        raise lib.Reject("restarts")
    restarts = []
    while end + 4 * len(restarts) < len(data) - 4:
        restarts.append(lib.uint(data, end + 4 * len(restarts), 4))
    out.append(lib.line("Restart values", ", ".join(
        [f"{x:d}" for x in restarts])))
    result = []
    key = b""
    offset = 0
    while offset < end:
        number = len(result)
        out.append(lib.line("Offset", offset))
        shared, offset = varint(data, offset, end)
        rest, offset = varint(data, offset, end)
        size, offset = varint(data, offset, end)
        label = f"Entry: {number:d}"
        out.append(lib.line(f"{label:s} shared key data size", shared))
        out.append(lib.line(f"{label:s} non-shared key data size", rest))
        out.append(lib.line(f"{label:s} value data size", size))
        if shared > len(key) or offset + rest + size > end:
            raise lib.Reject("entry")
        key = key[:shared] + data[offset:offset + rest]
        offset += rest
        if len(key) < 8:
            raise lib.Reject("key")
        user_key = key[:-8]
        kind = key[-8]
        sequence = int.from_bytes(key[-7:], "little")
        out.append(lib.line("Key", f"{user_key!s}"))
        out.append(lib.line("Value type", value_type(kind)))
        out.append(lib.line("Sequence number", sequence))
        result.append((user_key, sequence, kind, data[offset:offset + size]))
        offset += size
    return result


def table(out, data):
    start = len(data) - 48
    if start < 0:
        raise lib.Reject("footer")
    handles = data[start:start + 40]
    signature = data[start + 40:]
    if signature != bytes.fromhex("57fb808b247547db"):
        raise lib.Reject("signature")
    meta, meta_size, at = handle(out, handles, 0, "Metaindex")
    index, index_size, at = handle(out, handles, at, "Index")
    out.append(lib.dump("Padding", handles[at:]))
    out.append(lib.dump("Signature", signature))
    if meta + meta_size > len(data):
        raise lib.Reject("metaindex")
    result = []
    for entry in entries(out, block(out, data, index, index_size)):
        at, size, _ = handle(out, entry[3], 0, "Data")
        result.extend(entries(out, block(out, data, at, size)))
    return result


def database(out, data):
    """IndexedDB: keys start with numbers of 1 up to 8 bytes."""
    result = []
    for key, sequence, kind, value in table(out, data):
        if len(key) == 0:
            raise lib.Reject("prefix")
        sizes = (key[0] // 32 + 1, key[0] // 4 % 8 + 1, key[0] % 4 + 1)
        at = 1
        if at + sum(sizes) > len(key):
            raise lib.Reject("prefix")
        numbers = []
        for size in sizes:
            numbers.append(int.from_bytes(key[at:at + size], "little"))
            at += size
        if numbers == [0, 0, 0]:
            if at >= len(key):
                raise lib.Reject("metadata type")
            numbers.append(key[at])
            at += 1
        segments = [f"{x:d}" for x in numbers]
        if at < len(key):
            segments.append(f"{key[at:]!r}"[1:])
        result.append((segments, sequence, kind, value))
    return result


class Log:
    """Reader of the values of a log."""

    maker = leveldb.LevelDBDatabaseLogFile

    def __init__(self, debug, writer):
        self.file = self.maker(debug=debug, output_writer=writer)
        self.entries = None

    def Open(self, path):
        self.file.Open(path)

    def Close(self):
        self.file.Close()


class Descriptor(Log):
    maker = leveldb.LevelDBDatabaseDescriptorFile


class Table(Log):
    maker = leveldb.LevelDBDatabaseTableFile

    def Open(self, path):
        self.file.Open(path)
        self.entries = [
            (entry.key, entry.sequence_number, entry.value_type, entry.value)
            for entry in self.file.ReadTableEntries()]


class Database(Log):
    maker = indexeddb.IndexedDBDatabaseTableFile

    def Open(self, path):
        self.file.Open(path)
        self.entries = [
            (entry.key_segments, entry.sequence_number, entry.value_type,
             entry.value) for entry in self.file.ReadEntries()]


def observe(reader):
    return reader.entries


def paged(env, base, holes, size=None, limits=(), lead=0):
    """A log that first skips lead bytes of full records."""
    data = lib.fill(env, base, holes, size, limits)
    pieces = []
    while lead > 0:
        count = min(lead, PAGE) - 7
        pieces.append(b"\x00\x00\x00\x00" + count.to_bytes(2, "little")
                      + b"\x00" + b"\x00" * count)
        lead -= count + 7
    lib.decide(env, Log, log, b"".join(pieces) + data, quiet=False)


# Example files.


def number(value):
    result = []
    while value >= 128:
        result.append(value % 128 + 128)
        value //= 128
    return bytes(result + [value])


def piece(kind, content, checksum=0x11223344):
    return (checksum.to_bytes(4, "little") + len(content).to_bytes(2, "little")
            + bytes([kind]) + content)


def slices(*values):
    return b"".join([number(len(x)) + x for x in values])


def make_block(items, compression=0, restarts=(0,)):
    body = b""
    for shared, key, value in items:
        body += (number(shared) + number(len(key)) + number(len(value)) + key
                 + value)
    for restart in restarts:
        body += restart.to_bytes(4, "little")
    body += len(restarts).to_bytes(4, "little")
    if compression == 1:
        body = snappy.compress(body)
    elif compression == 2:
        body = zstd.compress(body)
    return body, body + bytes([compression]) + b"\x01\x02\x03\x04"


def make_table(data_blocks, compression=0, index=None, keys=None):
    out = b""
    items = []
    for count, (body, stored) in enumerate(data_blocks):
        place = number(len(out)) + number(len(body))
        items.append((0, b"k%d" % count + b"\x01" * 8, place))
        out += stored
    if index is None:
        index = items
    body, stored = make_block(index, compression)
    meta = len(out)
    out += b"\x00" * 9
    at = len(out)
    out += stored
    handles = number(meta) + number(4) + number(at) + number(len(body))
    return (out + handles.ljust(40, b"\x00")
            + bytes.fromhex("57fb808b247547db")), at, len(out)


def _register():
    run = lib.file_runner(Log, log)
    family = lib.Family(REGISTRY, "C19", "log", run)
    records = (
        (9).to_bytes(8, "little") + b"\x02\x00\x00\x00\x01"
        + slices(b"key", b"value") + b"\x00" + slices(b"gone"))
    base = piece(1, records) + piece(2, records[:13]) + piece(
        3, records[13:20]) + piece(4, records[20:]) + piece(0, b"") + piece(
            7, b"abc")
    family.holes("all-header", base, [(0, 4), (7, 12)])
    family.holes("type", base, [(6, 1)])
    family.holes("kind", base, [(19, 1)])
    family.holes("key", base, [(21, 3)])
    family.holes("key-size", base, [(20, 1)])
    family.holes("key-size-two", base, [(20, 2)])
    family.holes("value-size", base, [(24, 1)])
    family.holes("second-kind", base, [(30, 1)])
    family.holes("second-size", base, [(31, 1)])
    at = 7 + len(records)
    for name in ("first", "middle", "last", "zero", "other"):
        family.holes(f"{name}-type", base, [(at + 6, 1)])
        family.holes(f"{name}-size", base, [(at + 4, 2)],
                     limits=[(at + 4, 0, 40)])
        family.holes(f"{name}-size-any", base, [(at + 4, 2)], tier="thorough")
        family.holes(f"{name}-checksum", base, [(at, 4)])
        at += 7 + int.from_bytes(base[at + 4:at + 6], "little")
    family.holes("first-data", base, [(at - 3, 3)])
    whole = 7 + len(records)
    family.holes("types", piece(2, records[:12]) + piece(3, records[12:20])
                 + piece(4, records[20:]) + piece(1, records),
                 [(6, 1), (19 + 6, 1), (34 + 6, 1), (whole + 14 + 6, 1)])
    family.cuts(base, [0, 3, 6, 7, 20, whole - 1, whole, whole + 6, whole + 12,
                       len(base) - 1, len(base) - 3, len(base) - 10])
    for size in (0, 1, 11, 12, 13, 14, 17, 18, 19, 23, 24, 25):
        family.holes(f"short-{size}", piece(1, records[:size]), [(0, 4)])
    long = piece(1, records[:13] + slices(b"x" * 130, b"y" * 200))
    family.holes("long", long, [(20, 2)], limits=[(20, 0x78, 0x8f),
                                                  (21, 0, 3)])
    family.holes("long-any", long, [(20, 2)], tier="thorough")
    for name, content in (("ten", b"\xff" * 9 + b"\x7f"),
                          ("eleven", b"\xff" * 10 + b"\x00"),
                          ("many", b"\x80" * 3000 + b"\x00"),
                          ("open", b"\x80\x80")):
        family.holes(f"varint-{name}", piece(1, records[:13] + content),
                     [(20, 1)])
    # Page boundaries.
    family = lib.Family(REGISTRY, "C19", "log-page", paged)
    for rest in range(0, 9):
        lead = PAGE - len(piece(2, records[:13])) - rest
        base = piece(2, records[:13]) + b"\x00" * (rest if rest < 7 else 0)
        if rest >= 7:
            base += piece(3, b"")[:7] + b"\x00" * (rest - 7)
        base += piece(4, records[13:])
        family.holes(f"rest-{rest}", base, [(4, 1), (len(base) - 2, 2)],
                     limits=[(4, 8, 24)])
        REGISTRY.items[-1][1].params["lead"] = lead
    base = piece(1, records)
    for lead in (PAGE - 20, PAGE - len(base) + 1, 2 * PAGE - 10,
                 2 * PAGE - len(base), PAGE - 6):
        family.holes(f"cross-{lead}", base + base, [(0, 4), (7, 2)])
        REGISTRY.items[-1][1].params["lead"] = lead
    # Descriptors.
    run = lib.file_runner(Descriptor, descriptor)
    family = lib.Family(REGISTRY, "C19", "descriptor", run)
    body = (b"\x01" + slices(b"lev\xc3\xa9l") + b"\x02\x05\x03\x86\x01"
            + b"\x04\x87\x88\x09\x05\x01" + slices(b"compact")
            + b"\x06\x02\x03\x07\x01\x02\x83\x04" + slices(b"low", b"high")
            + b"\x09\x0a")
    base = piece(1, body)
    offset = 7
    for index in range(len(body)):
        if not 3 <= index < 7 and not 20 <= index < 26:
            family.holes(f"byte-{index}", base, [(offset + index, 1)])
    for index in range(2, 6):
        family.holes(f"name-{index}", base, [(offset + index, 2)],
                     limits=[(offset + index, 0x20, 0xff),
                             (offset + index + 1, 0x20, 0xff)])
    for tag in (2, 3, 4, 9):
        for size in (1, 2, 3, 9, 10):
            family.holes(f"tag-{tag}-{size}", piece(
                1, bytes([tag]) + b"\x80" * size + b"\x01"),
                         [(8, size)] if size < 4 else [(8 + size - 2, 3)])
    family.holes("two-bytes", piece(1, b"\x02\x01\x02\x01"), [(7, 2)])
    family.holes("split", piece(2, body[:9]) + piece(4, body[9:]), [(7, 2),
                                                                   (24, 1)])
    for size in range(len(body)):
        family.holes(f"end-{size}", piece(1, body[:size]), [(0, 4)])
    # Tables.
    first = make_block([
        (0, b"apple" + b"\x01\x05\x00\x00\x00\x00\x00\x00", b"red"),
        (3, b"ly" + b"\x00\x06\x00\x00\x00\x00\x00\x00", b""),
        (13, b"", b"same")], restarts=(0, 21))
    second = make_block([
        (0, b"" + b"\x01\x07\x00\x00\x00\x00\x00\x00", b"v")])
    base, at_index, at_footer = make_table([first, second])
    run = lib.file_runner(Table, table, observe=observe)
    family = lib.Family(REGISTRY, "C19", "table", run)
    tables_cases(family, base, first, at_index, at_footer)
    for compression in (1, 2):
        blocks_ = [make_block([(0, b"apple" + b"\x01" * 8, b"red" * 9)],
                              compression),
                   make_block([(0, b"b" * 8, b"")], 3 - compression)]
        compressed, at, _ = make_table(blocks_, compression)
        family.holes(f"compressed-{compression}", compressed,
                     [(len(blocks_[0][0]), 5)])
        family.holes(f"compressed-index-{compression}", compressed,
                     [(len(compressed) - 53, 5)])
    tiny = [(b"", b"\x00" * 5), (b"\x01\x00\x00", b"\x01\x00\x00" + b"\x00" * 5),
            (b"\x01\x00\x00\x00", b"\x01\x00\x00\x00" + b"\x00" * 5),
            (b"\x00" * 4 + b"\x01\x00\x00\x00",
             b"\x00" * 4 + b"\x01\x00\x00\x00" + b"\x00" * 5)]
    for index, entry in enumerate(tiny):
        small, _, _ = make_table([entry])
        family.holes(f"tiny-{index}", small, [(len(entry[0]), 5)])
    for index, value in enumerate((b"", b"\x00", b"\x80", b"\x00\x80",
                                   b"\x00\x12\x99")):
        small, _, _ = make_table([second], index=[(0, b"\x01" * 8, value)])
        family.holes(f"handle-{index}", small, [(0, 3)],
                     limits=[(0, 0, 0), (1, 8, 8)])
    family.holes("empty", make_table([])[0], [(9, 4)])
    long = make_block([(0, b"n" * 150 + b"\x01" * 8, b"v" * 300),
                       (140, b"m" * 4 + b"\x01" * 8, b"")])
    base, _, _ = make_table([long])
    family.holes("long", base, [(1, 4)], limits=[(1, 0x9c, 0xa1), (2, 0, 2),
                                                 (3, 0xaa, 0xaf), (4, 1, 3)])
    family.holes("long-shared", base, [(463, 4)],
                 limits=[(463, 0x88, 0x9f), (464, 0, 1), (465, 0, 12),
                         (466, 0, 0)])
    # IndexedDB.
    run = lib.file_runner(Database, database, observe=observe)
    family = lib.Family(REGISTRY, "C19", "indexeddb", run)
    suffix = b"\x01\x05\x00\x00\x00\x00\x00\x00"
    for name, key in (("meta", b"\x00\x00\x00\x00\xc8abc"),
                      ("plain", b"\x00\x01\x02\x03d"),
                      ("exact", b"\x00\x01\x00\x00"),
                      ("type", b"\x00\x00\x00\x00\x05"),
                      ("none", b"\x00\x00\x00\x00"),
                      ("big", b"\xff" + bytes(range(20)) + b"x"),
                      ("mixed", b"\x29\x01\x02\x03\x04\x05\x06\x07'\"\x00"),
                      ("zero", b"\xff" + b"\x00" * 20 + b"\xc9"),
                      ("empty", b"")):
        base, _, _ = make_table([make_block([(0, key + suffix, b"value")])])
        if name in ("meta", "plain", "mixed", "big"):
            family.holes(f"{name}-prefix", base, [(3, 1)])
        if key:
            family.holes(f"{name}-numbers", base, [(4, 3)])
            family.holes(f"{name}-end", base, [(3 + len(key) - 1, 1)])
        family.holes(f"{name}-suffix", base, [(3 + len(key), 8)])
        family.holes(f"{name}-value", base, [(len(key) + 11, 2)])
        if len(key) > 12:
            family.holes(f"{name}-high", base, [(8, 4), (16, 4)])


def tables_cases(family, base, first, at_index, at_footer):
    """Cases of one uncompressed table of two blocks."""
    size = len(first[0])
    family.holes("entry-sizes", base, [(0, 3)], limits=[
        (0, 0, 2), (1, 0, 30), (2, 0, 30)])
    for offset in range(3):
        family.holes(f"entry-size-{offset}", base, [(offset, 1)])
        family.holes(f"second-size-{offset}", base, [(19 + offset, 1)])
        family.holes(f"third-size-{offset}", base, [(32 + offset, 1)])
    family.holes("second-sizes", base, [(19, 3)], limits=[
        (19, 0, 15), (20, 0, 10), (21, 0, 5)])
    family.holes("key", base, [(3, 2)])
    family.holes("suffix", base, [(8, 8)])
    family.holes("value", base, [(16, 3)])
    family.holes("second-key", base, [(22, 2), (24, 8)])
    family.holes("restarts", base, [(size - 12, 8)])
    family.holes("restart-count", base, [(size - 4, 4)])
    family.holes("trailer", base, [(size, 5)])
    family.holes("index-entry", base, [(at_index, 3)], limits=[
        (at_index, 0, 1), (at_index + 1, 0, 20), (at_index + 2, 0, 20)])
    family.holes("index-key", base, [(at_index + 3, 10)])
    for offset, name in ((13, "offset"), (14, "size")):
        family.holes(f"index-{name}", base, [(at_index + offset, 1)],
                     limits=[(at_index + offset, 0, 55)])
        family.holes(f"index-{name}-any", base, [(at_index + offset, 1)],
                     tier="thorough")
    family.holes("index-second", base, [(at_index + 28, 2)],
                 limits=[(at_index + 28, size - 1, size + 20),
                         (at_index + 29, 10, 30)])
    family.holes("index-restarts", base, [(at_footer - 13, 8)])
    family.holes("index-trailer", base, [(at_footer - 5, 5)])
    family.holes("metaindex", base, [(at_footer, 2)], limits=[
        (at_footer, 120, 135), (at_footer + 1, 0, 9)])
    family.holes("metaindex-any", base, [(at_footer, 2)], tier="thorough")
    family.holes("metaindex-offset", base, [(at_footer, 1)])
    family.holes("metaindex-size", base, [(at_footer + 1, 1)])
    family.holes("index-place", base, [(at_footer + 2, 3)], limits=[
        (at_footer + 2, at_index % 128 + 126, at_index % 128 + 129)])
    family.holes("footer-index-size", base, [(at_footer + 4, 2)])
    family.holes("padding", base, [(at_footer + 10, 30)])
    family.holes("signature", base, [(at_footer + 40, 8)])
    family.holes("full-handles", base[:at_footer]
                 + b"\x80\x80\x80\x80\x80\x80\x80\x80\x80\x00" * 4
                 + base[at_footer + 40:], [(at_footer + 39, 1)])
    family.holes("open-handles", base[:at_footer]
                 + b"\x00\x00\x00" + b"\x80\x80\x80\x80\x80\x80" * 7
                 + base[at_footer + 45:], [(at_footer + 12, 2)])
    family.cuts(base, [0, 1, 47, 48, len(base) - 1])


_register()

REGISTRY.add_reuse(skip=(
    "table-entry-sizes", "table-long", "table-long-shared"))
