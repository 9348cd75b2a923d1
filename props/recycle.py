"""C09: deletion records of the Windows recycle bins."""

from dtformats import recycle_bin
from dtformats import recycler

from props import lib

REGISTRY = lib.Registry()
cases = REGISTRY.cases
find_case = REGISTRY.find


def utf16(data):
    try:
        return data.decode("utf-16-le")
    except UnicodeDecodeError:
        raise lib.Reject("UTF-16")


def metadata(out, data):
    if len(data) < 24:
        raise lib.Reject("header")
    version = lib.uint(data, 0, 8)
    size = lib.uint(data, 8, 8)
    deleted = lib.uint(data, 16, 8)
    out.append(lib.line("Format version", version))
    out.append(lib.line("Original file size", size))
    out.append(lib.line("Deletion time", lib.filetime(deleted)))
    out.append("\n")
    if version != 1 and version != 2:
        raise lib.Reject("version")
    if version == 1:
        end = 24
        while True:
            if end + 2 > len(data):
                raise lib.Reject("string")
            end += 2
            if lib.uint(data, end - 2, 2) == 0:
                break
        name = utf16(data[24:end])
    else:
        count = lib.uint(data, 24, 4)
        if 28 + count * 2 > len(data):
            raise lib.Reject("string")
        name = utf16(data[28:28 + count * 2])
    name = name.rstrip("\x00")
    out.append(lib.line("Original filename", name))
    out.append("\n")
    return version, size, deleted, name


def observe_metadata(reader):
    return (reader.format_version, reader.original_file_size,
            reader.deletion_time, reader.original_filename)


def make_metadata(debug, writer):
    return recycle_bin.RecycleBinMetadataFile(
        debug=debug, output_writer=writer)


def cp1252(data):
    try:
        return data.decode("cp1252")
    except UnicodeDecodeError:
        raise lib.Reject("codepage")


def before_nul(data, unit=1):
    """The part of a fixed-size field before its end-of-string character."""
    end = 0
    while end < len(data) and data[end:end + unit] != bytes(unit):
        end += unit
    return data[:end]


def info2(out, data):
    if len(data) < 20:
        raise lib.Reject("header")
    size = lib.uint(data, 12, 4)
    out.append(lib.line("Unknown1", f"0x{lib.uint(data, 0, 4):08x}"))
    out.append(lib.line("Number of file entries", lib.uint(data, 4, 4)))
    out.append(lib.line("Unknown2", f"0x{lib.uint(data, 8, 4):08x}"))
    out.append(lib.line("File entry size", size))
    out.append(lib.line("Unknown3", f"0x{lib.uint(data, 16, 4):08x}"))
    out.append("\n")
    if size != 280 and size != 800:
        raise lib.Reject("entry size")
    offset = 20
    while offset < len(data):
        if offset + size > len(data):
            raise lib.Reject("entry")
        name = cp1252(before_nul(data[offset:offset + 260]))
        out.append(lib.item("Original filename (ANSI)", name))
        out.append(lib.line("Index", lib.uint(data, offset + 260, 4)))
        out.append(lib.line("Drive number", lib.uint(data, offset + 264, 4)))
        out.append(lib.line("Deletion time", lib.filetime(
            lib.uint(data, offset + 268, 8))))
        out.append(lib.line("Original file size",
                            lib.uint(data, offset + 276, 4)))
        out.append("\n")
        if size == 800:
            name = utf16(before_nul(data[offset + 280:offset + 800], 2))
            out.append(lib.line("Original filename (Unicode)", name))
        out.append("\n")
        offset += size


def make_info2(debug, writer):
    return recycler.RecyclerInfo2File(debug=debug, output_writer=writer)


def run_metadata(env, base, holes, size, limits=(), before=()):
    data = lib.fill(env, base, holes, size, limits)
    lib.decide(env, make_metadata, metadata, data, observe=observe_metadata,
               before=before)


def run_info2(env, base, holes, size, limits=(), before=()):
    data = lib.fill(env, base, holes, size, limits)
    lib.decide(env, make_info2, info2, data, quiet=False, before=before)


run_metadata.reusable = True
run_info2.reusable = True


def _register():
    header = (2).to_bytes(8, "little") + bytes(16)
    v1 = (1).to_bytes(8, "little") + bytes(16) + "C:\\a\x00".encode(
        "utf-16-le")
    v2 = header + (4).to_bytes(4, "little") + "C:\\\x00".encode("utf-16-le")

    def add(name, function, base, holes, size=None, limits=(), bounds="",
            tier="quick"):
        REGISTRY.add("C09", name, function, {
            "base": base.hex(), "holes": holes,
            "size": len(base) if size is None else size, "limits": limits},
            bounds=bounds, tier=tier)

    for name, base in (("v1", v1), ("v2", v2)):
        add(f"{name}-numbers", run_metadata, base, [(8, 16)],
            bounds="file size and deletion time symbolic")
        add(f"{name}-version", run_metadata, base, [(0, 8)],
            bounds="format version symbolic", limits=[])
        start = 24 if name == "v1" else 28
        for at in range(start, len(base), 2):
            add(f"{name}-unit-{at}", run_metadata, base, [(at, 4)],
                bounds="two UTF-16 code units symbolic")
        for size in range(0, len(base)):
            add(f"{name}-cut-{size}", run_metadata, base, [(16, 8)],
                size=size, bounds=f"file cut to {size} bytes")
    add("v2-count", run_metadata, v2 + bytes(4), [(24, 4)],
        bounds="number of characters symbolic")
    add("v2-zero", run_metadata, header + bytes(4), [(16, 8)],
        bounds="no characters")
    for size in (280, 800):
        top = bytes(12) + size.to_bytes(4, "little") + bytes(4)
        entry = bytearray(size)
        entry[:5] = b"C:\\a\x00"
        if size == 800:
            entry[280:290] = "C:\\a\x00".encode("utf-16-le")
        base = top + bytes(entry) * 2
        add(f"info2-{size}-header", run_info2, top, [(0, 20)],
            bounds="file header symbolic, no entries")
        for index in (0, 1):
            start = 20 + size * index
            add(f"info2-{size}-numbers-{index}", run_info2, base,
                [(start + 260, 20)],
                bounds=f"every number of entry {index} symbolic")
            for at in (0, 3, 256):
                if at == 256:
                    filled = bytearray(base)
                    filled[start:start + 260] = b"a" * 260
                    filled = bytes(filled)
                else:
                    filled = base
                add(f"info2-{size}-ansi-{index}-{at}", run_info2, filled,
                    [(start + at, 4 if at else 3)],
                    bounds="3 or 4 bytes of the ANSI name symbolic")
            if size == 800:
                for at in (280, 286):
                    add(f"info2-unicode-{index}-{at}", run_info2, base,
                        [(start + at, 4)],
                        bounds="2 code units of the Unicode name symbolic")
                filled = bytearray(base)
                filled[start + 280:start + 800] = b"a\x00" * 260
                add(f"info2-unicode-{index}-full", run_info2, bytes(filled),
                    [(start + 796, 4)],
                    bounds="last 2 code units of a full Unicode name")
        for cut in (0, 19, 20, 21, 20 + size - 1, 20 + size, 20 + size + 1,
                    20 + 2 * size - 1):
            add(f"info2-{size}-cut-{cut}", run_info2, base,
                [(16, 4)], size=cut, bounds=f"file cut to {cut} bytes")


_register()

REGISTRY.add_reuse()
