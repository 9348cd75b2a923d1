"""C28: Firefox cache version 1 map and block files."""

from dtformats import firefox_cache1

from props import lib

REGISTRY = lib.Registry()
cases = REGISTRY.cases
find_case = REGISTRY.find

BLOCK_FILES = (("_CACHE_001_", 256), ("_CACHE_002_", 1024),
               ("_CACHE_003_", 4096))


def location(value):
    number = value & 0xffffff
    extra = (value >> 24) & 3
    selector = (value >> 28) & 3
    reserved = (value & 0x4c000000) >> 26
    flag = value >> 31
    return (f"block number: {number:d}, extra blocks: {extra:d}, location "
            f"selector: {selector:d}, reserved: {reserved:02x}, location "
            f"flag: {flag:d}")


def make_map(debug, writer):
    return firefox_cache1.CacheMapFile(debug=debug, output_writer=writer)


def cache_map(out, data):
    if len(data) < 276:
        raise lib.Reject("header")
    values = lib.layout(out, data, 0, (
        ("Major format version", 2, "d"), ("Minor format version", 2, "d"),
        ("Data size", 4, "d"), ("Number of entries", 4, "i"),
        ("Is dirty flag", 4, "d"), ("Number of records", 4, "i")), big=True)
    out.pop()
    for label, start in (("Eviction ranks", 20), ("Bucket usage", 148)):
        out.append(lib.line(label, ", ".join(
            [f"{lib.uint(data, start + 4 * x, 4, True):d}"
             for x in range(32)])))
    out.append("\n")
    if values[0] != 1 or values[2] != len(data) - 276:
        raise lib.Reject("header")
    offset = 276
    while offset < len(data):
        lib.layout(out, data, offset, (
            ("Hash number", 4, "d"), ("Eviction rank", 4, "d"),
            ("Data location", 4, location),
            ("Metadata location", 4, location)), big=True)
        offset += 16


run_map = lib.file_runner(make_map, cache_map)


def make_block(debug, writer):
    return firefox_cache1.CacheBlockFile(debug=debug, output_writer=writer)


def block_file(out, data, block):
    """Cache entries start in a block; what is no entry takes one block."""
    offset = 0
    while offset < len(data):
        size = entry(out, data, offset)
        offset += size + -size % block


def entry(out, data, offset):
    """The size of an entry, 1 when there is none."""
    if offset + 36 > len(data) or lib.uint(data, offset, 2, True) != 1:
        return 1
    request_size = lib.uint(data, offset + 28, 4, True)
    information_size = lib.uint(data, offset + 32, 4, True)
    middle = offset + 36 + request_size
    end = middle + information_size
    if end > len(data):
        return 1
    request = data[offset + 36:middle]
    for byte in request:
        if byte > 127:
            return 1
    inner = []
    lib.layout(inner, data, offset, (
        ("Major format version", 2, "d"), ("Minor format version", 2, "d"),
        ("Location", 4, location), ("Fetch count", 4, "i"),
        ("Last fetched time", 4, "t"), ("Last modified time", 4, "t"),
        ("Expiration time", 4, "t"), ("Cached data size", 4, "d"),
        ("Request size", 4, "d"), ("Information size", 4, "d")), big=True)
    inner.pop()
    inner.append(lib.item(
        "Request", request.decode("ascii").rstrip("\x00")))
    inner.append(lib.dump("Information", data[middle:end]))
    out.extend(inner)
    lib.close(out)
    return end - offset


def run_block(env, base, holes, size=None, limits=(), name="_CACHE_001_",
              before=()):
    data = lib.fill(env, base, holes, size, limits)

    def decoder(out, content):
        for known, block in BLOCK_FILES:
            if name == known:
                return block_file(out, content, block)
        raise lib.Reject("name")

    lib.decide(env, make_block, decoder, data, path="/cache/" + name,
               before=before)


run_block.reusable = True


# Cases.


def be(value, size):
    return value.to_bytes(size, "big")


def map_base(records=(), size=None):
    body = b"".join([b"".join([be(x, 4) for x in values])
                     for values in records])
    return (be(1, 2) + be(19, 2) + be(len(body) if size is None else size, 4)
            + be(3, 4) + be(1, 4) + be(2, 4)
            + b"".join([be(x, 4) for x in range(32)])
            + b"".join([be(100 + x, 4) for x in range(32)]) + body)


def entry_base(request=b"HTTP:http://a/\0", information=b"key\0value\0",
               version=1, block=256, sizes=None):
    request_size, information_size = sizes or (
        len(request), len(information))
    data = (be(version, 2) + be(19, 2) + be(0x90000001, 4) + be(2, 4)
            + be(1300000000, 4) + be(1300000001, 4) + be(0, 4) + be(77, 4)
            + be(request_size, 4) + be(information_size, 4) + request
            + information)
    if block:
        data += bytes(-len(data) % block)
    return data


def add(family, name, base, holes, file_name="_CACHE_001_", **options):
    family.holes(name, base, holes, **options)
    family.registry.items[-1][1].params["name"] = file_name


def _register():
    family = lib.Family(REGISTRY, "C28", "map", run_map)
    base = map_base([(5, 6, 0x90000001, 0xa1000002),
                     (7, 8, 0x80000000, 0x91000003)])
    family.fields(base, [(0, 2), (2, 2), (4, 4), (8, 4), (12, 4), (16, 4)],
                  name="head")
    family.fields(base, [(20, 8), (140, 8), (148, 8), (268, 8)],
                  name="array")
    family.fields(base, [(276, 4), (280, 4), (284, 4), (288, 4), (292, 4),
                         (296, 4), (300, 4), (304, 4)], name="record")
    family.cuts(base, (0, 1, 2, 4, 19, 20, 147, 275, 276, 277, 292, 307))
    family.holes("none", map_base(), [(4, 4)])
    family.holes("one", map_base([(1, 2, 3, 4)]), [(0, 8)])
    for missing in (1, 8, 15, 17):
        body = map_base([(1, 2, 3, 4), (5, 6, 7, 8)], 32 - missing)
        family.holes(f"short-{missing}", body[:-missing], [(276, 4)])

    family = lib.Family(REGISTRY, "C28", "block", run_block)
    for name, block in BLOCK_FILES:
        prefix = f"{block}"
        base = (entry_base(block=block) + entry_base(version=0, block=block)
                + entry_base(b"HTTP:b\0", b"", block=block))
        at = base.index(b"HTTP:b") - 36
        add(family, f"{prefix}-version", base, [(0, 2)], name)
        add(family, f"{prefix}-request-size-low", base, [(28, 4)], name,
            limits=[(28, 0, 0), (29, 0, 0), (30, 0, 0), (31, 0, 31)])
        add(family, f"{prefix}-request-size", base, [(28, 4)], name,
            limits=[(28, 0, 0), (29, 0, 0), (30, 0, 0)],
            tier="thorough" if block > 256 else "quick")
        add(family, f"{prefix}-request-size-high", base, [(28, 4)], name,
            limits=[(31, 0, 5), (30, 1, 255), (29, 0, 1)])
        add(family, f"{prefix}-information-size", base, [(32, 4)], name,
            limits=[(32, 0, 0), (33, 0, 0), (34, 0, 0)],
            tier="thorough" if block > 256 else "quick")
        add(family, f"{prefix}-information-size-low", base, [(32, 4)], name,
            limits=[(32, 0, 0), (33, 0, 0), (34, 0, 0), (35, 0, 31)])
        add(family, f"{prefix}-information-size-high", base, [(34, 2)],
            name, limits=[(35, 0, 3)])
        add(family, f"{prefix}-second-version", base, [(at, 2)], name)
        add(family, f"{prefix}-middle-version", base, [(block, 2)], name)
        add(family, f"{prefix}-last", entry_base(block=block)
            + entry_base(block=0), [(block + 28, 8)], name,
            limits=[(block + 28, 0, 0), (block + 29, 0, 0),
                    (block + 30, 0, 0), (block + 32, 0, 0),
                    (block + 33, 0, 0), (block + 34, 0, 0)],
            tier="thorough")
        long = entry_base(b"HTTP:" + b"x" * (block - 45), b"i",
                          block=block)
        add(family, f"{prefix}-long", long + base, [
            (31, 1), (35, 1)], name, limits=[(35, 0, 8), (
                31, (block - 42) % 256, (block - 38) % 256)]
            if (block - 42) % 256 < 250 else [(35, 0, 8), (31, 210, 222)])
    base = entry_base() + entry_base(b"HTTP:b\0", b"")
    for offset, length in ((2, 2), (4, 4), (8, 4), (12, 4), (16, 4),
                           (20, 4), (24, 4), (36, 4), (51, 4)):
        add(family, f"field-{offset}", base, [(offset, length)])
    for size in (0, 1, 35, 36, 40, 50, 51, 60, 61, 255, 256, 257, 291, 292,
                 299, 511):
        add(family, f"cut-{size}", base, [], size=size,
            bounds=f"cut to {size} bytes")
    add(family, "exact", entry_base(b"H" * 219, b"i") + base,
        [(255, 1)])
    add(family, "exact-size", entry_base(b"H" * 219, b"i") + base,
        [(35, 1)])
    add(family, "not-entry", entry_base(b"x" * 400, version=0) + base,
        [(0, 2)])
    add(family, "hostile", entry_base(sizes=(0xffffffff, 0xffffffff))
        + base, [(28, 4)], limits=[(31, 0, 40), (30, 0, 1)])
    for name in ("_CACHE_MAP_", "_CACHE_004_", "_cache_001_", "",
                 "x_CACHE_001_"):
        add(family, f"name-{name.strip('_')}", base, [(0, 2)], name)


_register()

REGISTRY.add_reuse()
