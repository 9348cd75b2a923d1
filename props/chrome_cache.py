"""C06: Chrome disk cache; C10: hashes."""

import datetime
import os

from dtformats import chrome_cache
from dtformats import prefetch

from props import lib

REGISTRY = lib.Registry()
cases = REGISTRY.cases
find_case = REGISTRY.find

M32 = 0xffffffff
UNITS = (0, 36, 256, 1024, 4096)
TYPES = ("Separate file", "Rankings block file", "256 byte block file",
         "1024 byte block file", "4096 byte block file")


# Hashes.


def paul_hsieh(data):
    """SuperFastHash, over unsigned bytes, from its published description."""
    if len(data) == 0:
        return 0
    value = len(data)
    full = len(data) // 4
    for index in range(full):
        low = data[4 * index] | data[4 * index + 1] << 8
        high = data[4 * index + 2] | data[4 * index + 3] << 8
        value = (value + low) & M32
        value = ((value << 16) ^ ((high << 11) ^ value)) & M32
        value = (value + (value >> 11)) & M32
    rest = data[4 * full:]
    if len(rest) == 3:
        value = (value + (rest[0] | rest[1] << 8)) & M32
        value = (value ^ (value << 16)) & M32
        value = (value ^ (rest[2] << 18)) & M32
        value = (value + (value >> 11)) & M32
    elif len(rest) == 2:
        value = (value + (rest[0] | rest[1] << 8)) & M32
        value = (value ^ (value << 11)) & M32
        value = (value + (value >> 17)) & M32
    elif len(rest) == 1:
        value = (value + rest[0]) & M32
        value = (value ^ (value << 10)) & M32
        value = (value + (value >> 1)) & M32
    for left, right in ((3, 5), (4, 17), (25, 6)):
        value = (value ^ (value << left)) & M32
        value = (value + (value >> right)) & M32
    return value


def super_fast_hash(env, size):
    data = env.bytes("data", size)
    env.check("hash", chrome_cache.SuperFastHash(data), paul_hsieh(data))


def prefetch_hashes(env, size, kind, wide=False):
    if wide:
        # Characters that have no case.
        data = env.bytes("data", size * 2)
        env.assume(env.all([x >= 0x30 for x in data[1::2]]))
        env.assume(env.all([x < 0xa0 for x in data[1::2]]))
        path = data.decode("utf-16-le")
    else:
        data = env.bytes("data", size)
        env.assume(env.all([x < 0x80 for x in data]))
        path = data.decode("ascii")
    units = path.upper().encode("utf-16-le")
    if kind == "xp":
        value = 0
        for byte in units:
            value = (value * 37 + byte) & M32
        value = (value * 314159269) & M32
        value = env.ite(value > 0x80000000, (1 << 32) - value, value)
        want = value % 1000000007
        got = prefetch.CalculatePrefetchHashXP(path)
    elif kind == "vista":
        want = 314159
        for byte in units:
            want = (want * 37 + byte) & M32
        got = prefetch.CalculatePrefetchHashVista(path)
    else:
        want = 314159
        index = 0
        while index + 8 < len(units):
            block = 0
            for byte in units[index + 1:index + 8]:
                block = block * 37 + byte
            block = block + units[index] * 442596621
            want = (block - want * 803794207) & M32
            index += 8
        for byte in units[index:]:
            want = (want * 37 + byte) & M32
        got = prefetch.CalculatePrefetchHash2008(path)
    env.check("hash", got, want)


# Cache addresses.


def address_text(value):
    if value == 0:
        return "0x00000000 (uninitialized)"
    kind = value >> 28 & 7
    ready = "True" if value >= 0x80000000 else "False"
    if kind == 0:
        return (f"0x{value:08x} (initialized: {ready:s}, file type: "
                f"Separate file, filename: f_{value & 0xfffffff:06x})")
    if kind > 4:
        return (f"0x{value:08x} (initialized: {ready:s}, file type: "
                "Unknown)")
    for number in (1, 2, 3, 4):
        if kind == number:
            unit = UNITS[number]
            name = TYPES[number]
            break
    block = value & 0xffff
    size = (value >> 24 & 3) * unit
    return (f"0x{value:08x} (initialized: {ready:s}, file type: {name:s}, "
            f"filename: data_{value >> 16 & 0xff}, block number: {block}, "
            f"block offset: 0x{8192 + block * unit:08x}, "
            f"block size: {size})")


def address(env):
    value = env.int("value", 0, M32)
    got = chrome_cache.CacheAddress(value)
    kind = value >> 28 & 7
    filename = None
    block = None
    offset = None
    if value != 0:
        if kind == 0:
            filename = f"f_{value & 0xfffffff:06x}"
        elif kind <= 4:
            filename = f"data_{value >> 16 & 0xff}"
            block = value & 0xffff
            for number in (1, 2, 3, 4):
                if kind == number:
                    offset = 8192 + block * UNITS[number]
    env.check("value", got.value, value)
    env.check("initialized", got.is_initialized, value >= 0x80000000)
    env.check("file type", got.file_type, kind)
    env.check("filename", got.filename, filename)
    env.check("block number", got.block_number, block)
    env.check("block offset", got.block_offset, offset)
    env.check("text", got.GetDebugString(), address_text(value))


def block_size(env):
    """0 in the address stands for one block, 3 for four."""
    value = env.int("value", 0x10000000, 0x4fffffff)
    kind = value >> 28
    for number in (1, 2, 3, 4):
        if kind == number:
            want = ((value >> 24 & 3) + 1) * UNITS[number]
            listed = (value >> 24 & 3) * UNITS[number]
    got = chrome_cache.CacheAddress(value).block_size
    env.known("chrome-block-size", got == listed)
    env.check("size", got, want)


# Files.


def timestamp(value):
    try:
        moment = datetime.datetime(1601, 1, 1) + datetime.timedelta(
            microseconds=value)
    except OverflowError:
        return f"0x{value:08x}"
    return f"{moment!s} (0x{value:08x})"


def version(data):
    minor = lib.uint(data, 4, 2)
    major = lib.uint(data, 6, 2)
    if major != 2 or (minor != 0 and minor != 1):
        raise lib.Reject("version")
    return f"2.{minor}"


def decimals(data, offset, count):
    text = ""
    for index in range(count):
        text += ", " if index else ""
        text += f"{lib.uint(data, offset + 4 * index, 4)}"
    return text


def ranges(out, data, offset, count):
    """Runs of allocated blocks."""
    start = None
    number = 0
    for index in range(count):
        word = lib.uint(data, offset + 4 * index, 4)
        if word == 0 and start is None:
            number += 32
            continue
        for bit in range(32):
            if word >> bit & 1 == 1:
                if start is None:
                    start = number
            elif start is not None:
                out.append(lib.line(
                    "Block range", f"{start} - {number} ({number - start})"))
                start = None
            number += 1
    if start is not None:
        out.append(lib.line(
            "Block range", f"{start} - {number} ({number - start})"))


def block_file(out, data):
    if len(data) < 8192 or data[:4] != b"\xc3\xca\x04\xc1":
        raise lib.Reject("header")
    out.append(lib.line("Signature", "0xc104cac3"))
    out.append(lib.line("Minor format version", lib.uint(data, 4, 2)))
    out.append(lib.line("Major format version", lib.uint(data, 6, 2)))
    out.append(lib.line("File number", lib.uint(data, 8, 2)))
    out.append(lib.line("Next file number", lib.uint(data, 10, 2)))
    out.append(lib.line("Block size", lib.uint(data, 12, 4)))
    out.append(lib.line("Number of entries", lib.uint(data, 16, 4)))
    out.append(lib.line("Maximum number of entries", lib.uint(data, 20, 4)))
    out.append(lib.line("Empty", decimals(data, 24, 4)))
    out.append(lib.line("Hints", decimals(data, 40, 4)))
    out.append(lib.line("Updating", f"0x{lib.uint(data, 56, 4):08x}"))
    out.append(lib.line("User", decimals(data, 60, 5)))
    out.append("\n")
    ranges(out, data, 80, 2028)
    out.append("\n")
    return version(data), lib.uint(data, 12, 4), lib.uint(data, 16, 4)


def index_file(out, data):
    if len(data) < 256 or data[:4] != b"\xc3\xca\x03\xc1":
        raise lib.Reject("header")
    out.append(lib.line("Signature", "0xc103cac3"))
    out.append(lib.line("Minor format version", lib.uint(data, 4, 2)))
    out.append(lib.line("Major format version", lib.uint(data, 6, 2)))
    out.append(lib.line("Number of entries", lib.uint(data, 8, 4)))
    out.append(lib.line("Stored data size", lib.uint(data, 12, 4)))
    last = lib.uint(data, 16, 4)
    out.append(lib.line("Last created file number", f"{last} (f_{last:06x})"))
    out.append(lib.line("Unknown1", f"0x{lib.uint(data, 20, 4):08x}"))
    out.append(lib.line("Unknown2", f"0x{lib.uint(data, 24, 4):08x}"))
    out.append(lib.line("Table size", lib.uint(data, 28, 4)))
    out.append(lib.line("Unknown3", f"0x{lib.uint(data, 32, 4):08x}"))
    out.append(lib.line("Unknown4", f"0x{lib.uint(data, 36, 4):08x}"))
    created = lib.uint(data, 40, 8)
    out.append(lib.line("Creation time", timestamp(created)))
    out.append("\n")
    text = version(data)
    if len(data) < 368:
        raise lib.Reject("LRU")
    out.append(lib.line("Filled flag", f"0x{lib.uint(data, 264, 4):08x}"))
    for index in range(5):
        out.append(lib.line("Size", lib.uint(data, 268 + 4 * index, 4)))
    for index in range(5):
        out.append(lib.line(f"Head address: {index}", address_text(
            lib.uint(data, 288 + 4 * index, 4))))
    for index in range(5):
        out.append(lib.line(f"Tail address: {index}", address_text(
            lib.uint(data, 308 + 4 * index, 4))))
    out.append(lib.line("Transaction address",
                        address_text(lib.uint(data, 328, 4))))
    out.append(lib.line("Operation", f"0x{lib.uint(data, 332, 4):08x}"))
    out.append(lib.line("Operation list", f"0x{lib.uint(data, 336, 4):08x}"))
    out.append("\n")
    table = []
    for index in range((len(data) - 368) // 4):
        value = lib.uint(data, 368 + 4 * index, 4)
        if value != 0:
            out.append(lib.line(f"Cache address: {index}",
                                address_text(value)))
            table.append((index, value))
    out.append("\n")
    return text, created, table


def make_block(debug, writer):
    return chrome_cache.DataBlockFile(debug=debug, output_writer=writer)


def make_index(debug, writer):
    return chrome_cache.IndexFile(debug=debug, output_writer=writer)


def observe_block(reader):
    return (reader.format_version, reader.block_size,
            reader.number_of_entries)


def observe_index(reader):
    return (reader.format_version, reader.creation_time, [
        (index, address.value)
        for index, address in reader.index_table.items()])


def run_block(env, base, holes, size, limits=(), before=()):
    data = lib.fill(env, base, holes, None, limits)
    data = (data + bytes(max(0, 8192 - len(data))))[:size]
    lib.decide(env, make_block, block_file, data, observe=observe_block,
               quiet=size < 8192 or not limits,
               before=[x + "00" * (8192 - len(x) // 2) for x in before])


run_block.reusable = True


def run_bitmap(env, words, holes):
    """words: number of leading 32-bit words of the bitmap that matter."""
    base = bytearray(8192)
    base[:8] = b"\xc3\xca\x04\xc1\x00\x00\x02\x00"
    bits = []
    for word, bit in holes:
        flag = env.int(f"bit{word}.{bit}", 0, 1)
        bits.append((word, bit, flag))
    parts = {}
    for word, bit, flag in bits:
        at = 80 + 4 * word + bit // 8
        parts[at] = parts.get(at, 0) + (flag << bit % 8)
    data = lib.overlay(bytes(base), [
        (at, bytes([value])) for at, value in sorted(parts.items())])
    lib.decide(env, make_block, block_file, data, quiet=False)


def run_words(env, words):
    """Words of the bitmap: bit 0, and all other bits, set or clear."""
    base = bytearray(8192)
    base[:8] = b"\xc3\xca\x04\xc1\x00\x00\x02\x00"
    holes = []
    for word in words:
        low = env.int(f"low{word}", 0, 1)
        rest = env.int(f"rest{word}", 0, 1)
        holes.append((80 + 4 * word, bytes([
            low + rest * 254, rest * 255, rest * 255, rest * 255])))
    data = lib.overlay(bytes(base), holes)
    lib.decide(env, make_block, block_file, data, quiet=False)


def run_index(env, base, holes, size, limits=(), before=()):
    data = lib.fill(env, base, holes, size, limits)
    lib.decide(env, make_index, index_file, data, observe=observe_index,
               before=before)


run_index.reusable = True


def entry(out, data, offset):
    if offset + 256 > len(data):
        raise lib.Reject("entry")
    data = data[offset:offset + 256]
    out.append(lib.line("Hash", f"0x{lib.uint(data, 0, 4):08x}"))
    out.append(lib.line("Next address", address_text(lib.uint(data, 4, 4))))
    out.append(lib.line("Rankings node address",
                        address_text(lib.uint(data, 8, 4))))
    out.append(lib.line("Reuse count", lib.uint(data, 12, 4)))
    out.append(lib.line("Refetch count", lib.uint(data, 16, 4)))
    out.append(lib.line("State", f"0x{lib.uint(data, 20, 4):08x}"))
    created = lib.uint(data, 24, 8)
    out.append(lib.line("Creation time", timestamp(created)))
    out.append("\n")
    for index in range(4):
        out.append(lib.line(f"Data stream size: {index}",
                            lib.uint(data, 40 + 4 * index, 4)))
    for index in range(4):
        out.append(lib.line(f"Data stream address: {index}", address_text(
            lib.uint(data, 56 + 4 * index, 4))))
    out.append(lib.line("Flags", f"0x{lib.uint(data, 72, 4):08x}"))
    out.append(lib.line("Self hash", f"0x{lib.uint(data, 92, 4):08x}"))
    end = 96
    while end < 256 and data[end] != 0:
        end += 1
    key = ""
    for value in data[96:end]:
        key += chr(value) if value < 0x80 else "\ufffd"
    out.append(lib.line("Key", key))
    out.append("\n")
    return (created, lib.uint(data, 0, 4), key, lib.uint(data, 4, 4),
            lib.uint(data, 8, 4))


def block_base(entries):
    base = bytearray(8192)
    base[:8] = b"\xc3\xca\x04\xc1\x00\x00\x02\x00"
    return bytes(base) + b"".join(entries)


def make_entry(key, following=0, created=0):
    data = bytearray(256)
    data[4:8] = following.to_bytes(4, "little")
    data[24:32] = created.to_bytes(8, "little")
    data[96:96 + len(key)] = key
    return bytes(data)


def run_entry(env, base, holes, block, size):
    entries = lib.fill(env, base, holes)
    data = block_base([entries])[:8192 + size]
    offset = 8192 + block * 256
    for debug in (True, False):
        writer = lib.Writer()
        with lib.use_files({"/f": data}):
            with lib.use_hexdump(env):
                reader = make_block(debug, writer)
                reader.Open("/f")
                writer.parts.clear()
                got = lib.outcome(reader.ReadCacheEntry, offset)
        if got[0] == "ok":
            value = got[1]
            got = ("ok", (value.creation_time, value.hash, value.key,
                          value.next.value, value.rankings_node.value))
        want, text = lib.reference(entry, data, offset)
        env.check(f"entry {debug}", got, want)
        env.check(f"text {debug}", writer.text(), text if debug else "")


def run_directory(env, entries, holes, table, table_holes):
    """Chains of entries are listed in the order of the index table."""
    blocks = lib.fill(env, entries, holes)
    for offset, _ in holes:
        if offset % 256 == 24:
            env.assume(lib.uint(blocks, offset, 8) < 0x3ada28ef7224000)
    data = block_base([blocks])
    head = bytearray(368)
    head[:8] = b"\xc3\xca\x03\xc1\x00\x00\x02\x00"
    index = bytes(head) + lib.overlay(bytes.fromhex(table), [
        (offset, bytes([env.int(f"slot{offset}", 0, 3)]))
        for offset in table_holes])
    got = None
    folder = os.path.abspath("c")
    files = {f"{folder}/index": index, f"{folder}/data_1": data}
    with lib.use_files(files), lib.capture_print(env) as captured:
        parser = chrome_cache.ChromeCacheParser(
            output_writer=lib.Writer())
        got = lib.outcome(parser.ParseDirectory, "c")

    def decode(out):
        for slot in range((len(index) - 368) // 4):
            value = lib.uint(index, 368 + 4 * slot, 4)
            count = 0
            while value != 0 and count < 64:
                if value & 0x7fff0000 != 0x20010000:
                    break
                created, _, key, value, _ = entry(
                    [], data, 8192 + (value & 0xffff) * 256)
                moment = datetime.datetime(1601, 1, 1) + \
                    datetime.timedelta(microseconds=created)
                out.append(f"{moment!s}\t{key:s}\n")
                count += 1

    want, text = lib.reference(decode)
    env.check("outcome", got, want)
    env.check("text", captured.text(), text)


def run_missing(env):
    with lib.use_files({"/c/other": b""}):
        parser = chrome_cache.ChromeCacheParser()
        got = lib.outcome(parser.ParseDirectory, "/c")
    env.check("no index", got, ("raise", "ParseError"))
    head = bytearray(372)
    head[:8] = b"\xc3\xca\x03\xc1\x00\x00\x02\x00"
    selector = env.byte("selector")
    env.assume(selector != 1)
    index = lib.overlay(bytes(head), [
        (368, bytes([0, 0, selector, 0xa0]))])
    with lib.use_files({"/c/index": index, "/c/data_1": block_base([])}):
        parser = chrome_cache.ChromeCacheParser()
        got = lib.outcome(parser.ParseDirectory, "/c")
    env.check("no block file", got, ("raise", "ParseError"))


def _register():
    add = REGISTRY.add
    for size in [*range(0, 18), 24, 33, 64]:
        add("C10", f"superfast-{size}", super_fast_hash, {"size": size},
            bounds=f"key of {size} symbolic bytes",
            tier="quick" if size < 18 else "thorough")
    for size in [*range(0, 14), 17, 24, 32]:
        for kind in ("xp", "vista", "2008"):
            add("C10", f"prefetch-{kind}-{size}", prefetch_hashes,
                {"size": size, "kind": kind},
                tier="quick" if size < 14 else "thorough",
                bounds=f"path of {size} symbolic ASCII characters")
            if size in (1, 3, 4, 5, 8, 9):
                add("C10", f"prefetch-{kind}-wide-{size}", prefetch_hashes,
                    {"size": size, "kind": kind, "wide": True},
                    tier="quick" if size < 8 or kind == "2008"
                    else "thorough",
                    bounds=f"path of {size} symbolic characters between "
                           "U+3000 and U+9FFF")
    add("C06", "address", address, {}, bounds="any 32-bit address")
    add("C06", "block-size", block_size, {}, bounds="any block address")
    head = b"\xc3\xca\x04\xc1\x00\x00\x02\x00"
    add("C06", "block-numbers", run_block,
        {"base": (head + bytes(72)).hex(), "holes": [(8, 72)],
         "size": 8192}, bounds="every number of the header symbolic, empty "
                               "bitmap", max_ticks=400000)
    add("C06", "block-version", run_block,
        {"base": (head + bytes(72)).hex(), "holes": [(0, 8)],
         "size": 8192}, bounds="signature and version symbolic",
        max_ticks=400000)
    for size in (0, 79, 8191):
        add("C06", f"block-cut-{size}", run_block,
            {"base": (head + bytes(72)).hex(), "holes": [(8, 4)],
             "size": size}, bounds=f"file cut to {size} bytes",
            max_ticks=400000)
    for name, holes in (
            ("first", [(0, 0), (0, 1), (0, 2)]),
            ("edge", [(0, 30), (0, 31), (1, 0), (1, 1)]),
            ("last", [(2027, 29), (2027, 30), (2027, 31)]),
            ("two", [(3, 5), (3, 7), (9, 0)])):
        add("C06", f"bitmap-{name}", run_bitmap,
            {"words": 0, "holes": holes}, max_ticks=400000,
            bounds=f"bits {holes} symbolic, all others clear")
    for words in ((0, 1, 2), (2025, 2026, 2027)):
        add("C06", f"bitmap-words-{words[0]}", run_words, {"words": words},
            max_ticks=400000,
            bounds=f"words {words}: lowest bit, and all others, symbolic")
    index = bytearray(380)
    index[:8] = b"\xc3\xca\x03\xc1\x00\x00\x02\x00"
    index = bytes(index)
    add("C06", "index-numbers", run_index,
        {"base": index.hex(), "holes": [(8, 32), (264, 24), (332, 8)],
         "size": 380}, bounds="every number symbolic, addresses clear")
    add("C06", "index-time", run_index,
        {"base": index.hex(), "holes": [(40, 8)], "size": 380},
        bounds="creation time symbolic")
    add("C06", "index-version", run_index,
        {"base": index.hex(), "holes": [(0, 8)], "size": 380},
        bounds="signature and version symbolic")
    for at in (288, 304, 308, 324, 328, 368, 376):
        add("C06", f"index-address-{at}", run_index,
            {"base": index.hex(), "holes": [(at, 4)], "size": 380},
            bounds=f"address at {at} symbolic")
    add("C06", "index-table", run_index,
        {"base": index.hex(), "holes": [(368, 2), (376, 3)], "size": 380},
        bounds="parts of 2 of 3 slots symbolic")
    for size in (0, 255, 256, 257, 367, 368, 369, 371, 372, 379):
        add("C06", f"index-cut-{size}", run_index,
            {"base": index.hex(), "holes": [(28, 4)], "size": size},
            bounds=f"file cut to {size} bytes")
    two = make_entry(b"abc") + make_entry(b"http://x")
    for block in (0, 1):
        at = block * 256
        params = {"base": two.hex(), "block": block, "size": 512}
        add("C06", f"entry-numbers-{block}", run_entry, dict(
            params, holes=[(at, 4), (at + 12, 12), (at + 40, 16),
                           (at + 72, 24)]), max_ticks=400000,
            bounds="every number symbolic, addresses clear")
        add("C06", f"entry-time-{block}", run_entry, dict(
            params, holes=[(at + 24, 8)]), max_ticks=400000,
            bounds="creation time symbolic")
        for where in (4, 8, 56, 68):
            add("C06", f"entry-address-{block}-{where}", run_entry, dict(
                params, holes=[(at + where, 4)]), max_ticks=400000,
                bounds=f"address at {where} symbolic")
        for where in (96, 253):
            add("C06", f"entry-key-{block}-{where}", run_entry, dict(
                params, holes=[(at + where, 3)]), max_ticks=400000,
                bounds=f"3 bytes of the key at {where} symbolic")
    for size in (255, 256, 511):
        for block in (0, 1):
            add("C06", f"entry-cut-{block}-{size}", run_entry,
                {"base": two.hex(), "block": block, "size": size,
                 "holes": [(12, 4)]}, max_ticks=400000,
                bounds=f"block data cut to {size} bytes")
    chain = (make_entry(b"a", 0xa0010001) + make_entry(b"b", 0xa0010002)
             + make_entry(b"c"))
    table = bytes.fromhex("000001a0" "00000000" "000001a0")
    add("C06", "directory-table", run_directory,
        {"entries": chain.hex(), "holes": [], "table": table.hex(),
         "table_holes": [0, 8]}, max_ticks=2000000,
        bounds="3 entries in a chain, 2 of 3 table slots with a symbolic "
               "block number to 3")
    add("C06", "directory-entries", run_directory,
        {"entries": chain.hex(), "holes": [(24, 8), (256 + 96, 2),
                                           (512 + 24, 4)],
         "table": table[:4].hex(), "table_holes": []}, max_ticks=2000000,
        bounds="creation times and a key symbolic")
    loop = make_entry(b"a", 0xa0010001) + make_entry(b"b", 0xa0010000)
    add("C06", "directory-loop", run_directory,
        {"entries": loop.hex(), "holes": [(4, 1)],
         "table": table[:4].hex(), "table_holes": []}, max_ticks=2000000,
        bounds="chain with a symbolic successor, loops included")
    add("C06", "directory-loops", run_directory,
        {"entries": loop.hex(), "holes": [(4, 1)],
         "table": table[:4].hex() * 3, "table_holes": [4]},
        max_ticks=4000000,
        bounds="three chains with a symbolic successor, loops included")
    for count in (63, 64, 65, 66):
        single = make_entry(b"a") + make_entry(b"b", 0xa0010000)
        slots = b"".join([bytes((x & 1, 0, 1, 0xa0)) for x in range(count)])
        add("C06", f"directory-many-{count}", run_directory,
            {"entries": single.hex(), "holes": [(24, 1)],
             "table": slots.hex(), "table_holes": []},
            max_ticks=8000000, tier="quick" if count == 66 else "thorough",
            bounds=f"{count} chains of one or two entries")
        long = b"".join([make_entry(b"k%02d" % x, 0xa0010001 + x)
                         for x in range(count - 1)]) + make_entry(b"end")
        add("C06", f"directory-long-{count}", run_directory,
            {"entries": long.hex(), "holes": [(24, 1)],
             "table": (table[:4] * 2).hex(), "table_holes": []},
            max_ticks=8000000,
            tier="quick" if count in (64, 65) else "thorough",
            bounds=f"two chains of {count} entries")
    add("C06", "directory-missing", run_missing, {}, max_ticks=2000000,
        bounds="no index file; any block file but the one present")


_register()

REGISTRY.add_reuse()
