"""C07: CPIO archives list and return exactly what was stored."""

from dtformats import cpio
from scripts import cpio as script

from props import lib

REGISTRY = lib.Registry()
cases = REGISTRY.cases
find_case = REGISTRY.find

ODC = (("device", 6), ("inode", 6), ("mode", 6), ("uid", 6), ("gid", 6),
       ("links", 6), ("special", 6), ("mtime", 11), ("namesize", 6),
       ("filesize", 11))
NEW = (("inode", 8), ("mode", 8), ("uid", 8), ("gid", 8), ("links", 8),
       ("mtime", 8), ("filesize", 8), ("major", 8), ("minor", 8),
       ("smajor", 8), ("sminor", 8), ("namesize", 8), ("checksum", 8))
BINARY = (("device", 2), ("inode", 4), ("mode", 6), ("uid", 8), ("gid", 10),
          ("links", 12), ("special", 14), ("namesize", 20))


def number(data, base):
    try:
        value = int(data, base)
    except ValueError:
        raise lib.Reject("digits")
    if value < 0:
        raise lib.Reject("negative")
    return value


def header(data, offset, kind):
    values = {}
    if kind in ("be", "le"):
        big = kind == "be"
        if offset + 26 > len(data):
            raise lib.Reject("truncated")
        values["magic"] = lib.uint(data, offset, 2, big)
        for name, at in BINARY:
            values[name] = lib.uint(data, offset + at, 2, big)
        # 32-bit values: most significant half first in both byte orders.
        values["mtime"] = (lib.uint(data, offset + 16, 2, big) * 65536
                           + lib.uint(data, offset + 18, 2, big))
        values["filesize"] = (lib.uint(data, offset + 22, 2, big) * 65536
                              + lib.uint(data, offset + 24, 2, big))
        return values, 26
    layout = ODC if kind == "odc" else NEW
    size = 76 if kind == "odc" else 110
    if offset + size > len(data):
        raise lib.Reject("truncated")
    position = offset + 6
    values["magic"] = data[offset:position]
    for name, width in layout:
        values[name] = number(
            data[position:position + width], 8 if kind == "odc" else 16)
        position += width
    return values, size


def align(kind):
    return {"be": 2, "le": 2, "odc": 1}.get(kind, 4)


def archive(out, data, endless=False):
    """The archive at the start of data; endless: up to its trailer."""
    if len(data) <= 2:
        raise lib.Reject("short")
    if data[:2] == b"\x71\xc7":
        kind = "be"
    elif data[:2] == b"\xc7\x71":
        kind = "le"
    elif data[:6] == b"070707":
        kind = "odc"
    elif data[:6] == b"070701":
        kind = "newc"
    elif data[:6] == b"070702":
        kind = "crc"
    else:
        raise lib.Reject("magic")
    entries = []
    offset = 0
    step = align(kind)
    while endless or offset < len(data):
        values, size = header(data, offset, kind)
        show(out, values, kind)
        name_at = offset + size
        name_size = values["namesize"]
        if name_size and name_at + name_size > len(data):
            raise lib.Reject("path")
        name = data[name_at:name_at + name_size]
        try:
            text = name.decode("ascii")
        except UnicodeDecodeError:
            raise lib.Reject("path")
        end = 0
        while end < len(text) and name[end] != 0:
            end += 1
        text = text[:end]
        out.append(lib.line("Path", text))
        data_at = name_at + name_size
        pad = 0
        while (data_at + pad) % step != 0:
            pad += 1
        out.append(lib.dump("Path alignment padding",
                            data[data_at:data_at + pad]))
        data_at += pad
        data_end = data_at + values["filesize"]
        pad = 0
        while (data_end + pad) % step != 0:
            pad += 1
        if pad:
            out.append(lib.dump("File data alignment padding",
                                data[data_end:data_end + pad]))
        out.append("\n")
        following = data_end + pad
        if text == "TRAILER!!!":
            offset = following
            break
        known = False
        for entry in entries:
            if entry["path"] == text:
                known = True
        if not known:
            entries.append({
                "path": text, "inode": values["inode"],
                "mode": values["mode"], "uid": values["uid"],
                "gid": values["gid"], "mtime": values["mtime"],
                "data": data[data_at:data_end],
                "data_size": values["filesize"],
                "size": following - offset})
        offset = following
    return kind, offset, entries


def show(out, values, kind):
    new = kind in ("newc", "crc")
    if kind in ("be", "le"):
        out.append(lib.line("Signature", f"0x{values['magic']:04x}"))
    else:
        out.append(lib.line("Signature", f"{values['magic']!s}"))
    if not new:
        out.append(lib.line("Device number", values["device"]))
    out.append(lib.line("Inode number", values["inode"]))
    out.append(lib.line("Mode", f"{values['mode']:o}"))
    out.append(lib.line("User identifier (UID)", values["uid"]))
    out.append(lib.line("Group identifier (GID)", values["gid"]))
    out.append(lib.line("Number of links", values["links"]))
    if not new:
        out.append(lib.line("Special device number", values["special"]))
    out.append(lib.line("Modification time", values["mtime"]))
    if not new:
        out.append(lib.line("Path size", values["namesize"]))
    out.append(lib.line("File size", values["filesize"]))
    if new:
        out.append(lib.line("Device major number", values["major"]))
        out.append(lib.line("Device minor number", values["minor"]))
        out.append(lib.line("Special device major number", values["smajor"]))
        out.append(lib.line("Special device minor number", values["sminor"]))
        out.append(lib.line("Path size", values["namesize"]))
        out.append(lib.line("Checksum", f"0x{values['checksum']:08x}"))


FORMAT_NAMES = {"be": "bin-big-endian", "le": "bin-little-endian",
                "odc": "odc", "newc": "newc", "crc": "crc"}


def make(debug, writer):
    return cpio.CPIOArchiveFile(debug=debug, output_writer=writer)


def run(env, base, holes, size, limits=(), debug=True, kind=None,
        before=()):
    data = bytes.fromhex(base)
    data = lib.overlay(data, [
        (offset, env.bytes(f"at{offset}", length))
        for offset, length in holes])[:size]
    for offset, lo, hi in limits:
        env.assume(data[offset] >= lo)
        env.assume(data[offset] <= hi)
    result, text, reader = lib.read_file(
        env, make, data, debug=debug, before=before)
    want, expected = lib.reference(archive, data)
    if want[0] == "raise":
        env.check("outcome", result, want)
        if debug:
            env.check("values", text, expected)
        env.reach("rejected")
        return
    kind, total, entries = want[1]
    env.check("outcome", result, ("ok", None))
    env.check("values", text, expected if debug else "")
    env.check("format", reader.file_format, FORMAT_NAMES[kind])
    env.check("size", reader.size, total)
    found = list(reader.GetFileEntries())
    env.check("number", len(found), len(entries))
    for index, (got, entry) in enumerate(zip(found, entries)):
        env.check(f"entry{index}", {
            "path": got.path, "inode": got.inode_number, "mode": got.mode,
            "uid": got.user_identifier, "gid": got.group_identifier,
            "mtime": got.modification_time, "data": got.read(),
            "data_size": got.data_size, "size": got.size}, entry)
        env.check(f"exists{index}",
                  reader.FileEntryExistsByPath(entry["path"]), True)
        env.check(f"same{index}",
                  reader.GetFileEntryByPath(entry["path"]) is got, True)
    env.check("none", reader.GetFileEntryByPath("no/such"), None)
    env.check("absent", reader.FileEntryExistsByPath("no/such"), False)
    prefixed = [x.path for x in reader.GetFileEntries(path_prefix="ab")]
    env.check("prefix", prefixed, [
        x["path"] for x in entries if x["path"][:2] == "ab"])
    reader.Close()
    env.check("closed", list(reader.GetFileEntries()), [])
    env.reach("listed")


run.reusable = True


class Digest:
    """Stand-in for SHA-256: the digest names the data given."""

    def __init__(self, seen):
        self.data = b""
        self.seen = seen

    def update(self, data):
        self.data += data

    def hexdigest(self):
        self.seen.append(self.data)
        return f"digest{len(self.seen):d}"


class Modules:
    """Stand-ins for what the script uses of other modules.

    Compressed data is the signature followed by the data as is.
    """

    NAMES = ("open", "os", "hashlib", "gzip", "bz2", "lzma")
    SEEK_SET = 0

    def __init__(self, data):
        self.data = data
        self.st_size = len(data)
        self.hashed = []

    def install(self):
        """Replaces the modules; returns the originals."""
        before = {}
        for name in self.NAMES:
            before[name] = script.__dict__.get(name)
            setattr(script, name, self.open if name == "open" else self)
        return before

    @classmethod
    def restore(cls, before):
        for name, value in before.items():
            if value is None:
                delattr(script, name)
            else:
                setattr(script, name, value)

    def open(self, path, mode):
        return lib.MemFile(self.data)

    def stat(self, path):
        return self

    def sha256(self, data=b""):
        result = Digest(self.hashed)
        result.update(data)
        return result

    def GzipFile(self, fileobj=None):
        return lib.MemFile(fileobj.read()[2:])

    def BZ2File(self, fileobj):
        return lib.MemFile(fileobj.read()[2:])

    def LZMAFile(self, fileobj):
        return lib.MemFile(fileobj.read()[6:])


def hashes(out, data, found):
    """What the hasher writes, the data hashed is added to found."""
    offset = 0
    while offset < len(data):
        part = data[offset:]
        packed = 0
        if len(part) > 2:
            if part[:2] in (b"BZ", b"\x1f\x8b"):
                packed = 2
            elif part[:6] == b"\xfd7zXZ\x00":
                packed = 6
            elif part[:2] not in (b"\x71\xc7", b"\xc7\x71") and (
                    part[:6] not in (b"070701", b"070702", b"070707")):
                part = b""
        else:
            part = b""
        if len(part) == 0:
            out.append(f"Unsupported file type at offset: 0x{offset:08x}.\n")
            return
        _, size, entries = archive([], part[packed:], True)
        for entry in sorted(entries, key=lambda x: x["path"]):
            if entry["data_size"] != 0:
                found.append(entry["data"])
                out.append(f"digest{len(found):d}\t{entry['path']:s}\n")
        offset += len(part) if packed else size
        while offset % 16 != 0:
            offset += 1


def run_hasher(env, base, holes, size=None, limits=()):
    data = lib.fill(env, base, holes, size, limits)
    found = []
    want, expected = lib.reference(hashes, data, found)
    modules = Modules(data)
    writer = lib.Writer()
    before = modules.install()
    try:
        hasher = script.CPIOArchiveFileHasher("/f", output_writer=writer)
        result = lib.outcome(hasher.HashFileEntries)
    finally:
        modules.restore(before)
    env.check("outcome", result, want)
    env.check("text", writer.text(), expected)
    env.check("hashed", modules.hashed, found)
    env.reach(f"{want[0]} {len(found)}")


def build(kind, entries):
    """A well-formed archive, and where the parts of each entry are."""
    data = b""
    places = []
    step = align(kind)
    for name, content in entries:
        start = len(data)
        name = name.encode("ascii") + b"\x00"
        values = {"namesize": len(name), "filesize": len(content),
                  "links": 1, "mode": 0o100644}
        fields = {}
        if kind in ("be", "le"):
            order = "big" if kind == "be" else "little"
            part = bytearray(26)
            part[0:2] = (0o070707).to_bytes(2, order)
            for key, at in BINARY:
                fields[key] = (start + at, 2)
                part[at:at + 2] = values.get(key, 0).to_bytes(2, order)
            part[24:26] = len(content).to_bytes(2, order)
            fields["mtime"] = (start + 16, 4)
            fields["filesize"] = (start + 22, 4)
        else:
            part = {"odc": b"070707", "newc": b"070701",
                    "crc": b"070702"}[kind]
            for key, width in ODC if kind == "odc" else NEW:
                fields[key] = (start + len(part), width)
                value = values.get(key, 0)
                text = (oct(value) if kind == "odc" else hex(value))[2:]
                part += text.rjust(width, "0").encode("ascii")
        data += bytes(part)
        fields["name"] = (len(data), len(name))
        data += name
        data += bytes(-len(data) % step)
        fields["content"] = (len(data), len(content))
        data += content
        data += bytes(-len(data) % step)
        places.append(fields)
    return data, places


def _register():
    for kind in ("be", "le", "odc", "newc", "crc"):
        data, places = build(kind, [
            ("ab", b"hello"), ("abc", b""), ("TRAILER!!!", b"")])
        length = len(data)
        binary = kind in ("be", "le")

        def add(name, holes, size=None, limits=(), debug=True, bounds="",
                tier="quick", base=data):
            REGISTRY.add("C07", f"{kind}-{name}", run, {
                "base": base.hex(), "holes": holes,
                "size": len(base) if size is None else size,
                "limits": limits, "debug": debug}, bounds=bounds, tier=tier)

        for index in (0, 1):
            fields = places[index]
            if binary:
                for debug in (True, False):
                    add(f"numbers-{index}-{debug}", [
                        fields[x] for x in (
                            "device", "inode", "mode", "uid", "gid", "links",
                            "special", "mtime")], debug=debug,
                        bounds=f"every number of entry {index} symbolic, "
                               "sizes fixed")
                at, width = fields["namesize"]
                low = at + (1 if kind == "be" else 0)
                add(f"namesize-{index}", [(low, 1)], limits=[(low, 0, 12)],
                    bounds=f"path size of entry {index} 0..12")
                at, width = fields["filesize"]
                low = at + (3 if kind == "be" else 2)
                add(f"filesize-{index}", [(low, 1)], limits=[(low, 0, 80)],
                    bounds=f"file size of entry {index} 0..80")
                add(f"filesize-any-{index}", [(at, 4)],
                    limits=[(low, 0, 9)],
                    bounds=f"file size of entry {index}: low byte 0..9, "
                           "other bytes symbolic")
            else:
                layout = ODC if kind == "odc" else NEW
                for key, width in layout:
                    if key in ("namesize", "filesize"):
                        continue
                    at, width = fields[key]
                    add(f"{key}-{index}", [(at, width)],
                        debug=index == 0,
                        limits=[(x, 0x30, 0x47)
                                for x in range(at, at + width)],
                        bounds=f"all characters of {key} of entry {index} "
                               "symbolic, 0x30..0x47")
                    add(f"{key}-last-{index}", [(at + width - 1, 1)],
                        debug=index == 1,
                        bounds=f"last character of {key} symbolic")
                    add(f"{key}-lower-{index}", [(at, width)],
                        debug=index == 0, limits=[
                            (x, 0x61, 0x67) for x in range(at, at + width)],
                        bounds=f"all characters of {key} of entry {index} "
                               "symbolic, 0x61..0x67")
                at, width = fields["mode"]
                add(f"first-digit-{index}", [(at, 1)],
                    bounds="first character of a number symbolic")
                at, width = fields["namesize"]
                add(f"namesize-{index}", [(at + width - 2, 2)],
                    limits=[(at + width - 2, 0x30, 0x31),
                            (at + width - 1, 0x30, 0x46)],
                    bounds=f"last 2 digits of the path size of entry {index} "
                           "symbolic, the first of them 0 or 1")
                at, width = fields["filesize"]
                add(f"filesize-{index}", [(at + width - 2, 2)],
                    limits=[(at + width - 2, 0x30, 0x33),
                            (at + width - 1, 0x30, 0x46)],
                    bounds=f"last 2 digits of the file size of entry {index} "
                           "symbolic, the first of them 0..3")
                add(f"filesize-sign-{index}", [(at, 1), (at + width - 1, 1)],
                    limits=[(at, 0x2b, 0x30), (at + width - 1, 0x30, 0x38)],
                    bounds="first and last character of the file size")
            at, width = fields["name"]
            add(f"name-{index}", [(at, width)],
                bounds=f"path of entry {index} symbolic")
        at, width = places[0]["content"]
        add("content", [(at, width)], bounds="file content symbolic")
        at, width = places[2]["name"]
        add("trailer", [(at + 9, 2)],
            bounds="end of the path of the trailer symbolic")
        add("magic", [(0, 6)],
            bounds="signature symbolic", size=length)
        ends = [0, 1, 2, 3, 5, 6, 25, 26, 27, 75, 76, 77, 109, 110, 111]
        for fields in places:
            for key in ("name", "content"):
                at, width = fields[key]
                ends.extend([at - 1, at, at + 1, at + width - 1, at + width])
        for size in sorted(set(x for x in ends if 0 <= x < length)):
            add(f"cut-{size}", [places[0]["content"]], size=size,
                bounds=f"archive cut to {size} bytes")
        extra, _ = build(kind, [
            ("d", b"1"), ("d", b"22"), ("e", b"333"), ("TRAILER!!!", b"")])
        add("duplicate", [], base=extra + b"trailing",
            bounds="two entries of the same path, data after the trailer")
        _, extra_places = build(kind, [
            ("d", b"1"), ("d", b"22"), ("e", b"333"), ("TRAILER!!!", b"")])
        add("duplicate-name", [
            (extra_places[1]["name"][0], 1), extra_places[1]["content"],
            extra_places[0]["content"]], base=extra,
            bounds="name of the second of three entries and contents "
                   "symbolic")


def _register_hasher():
    for kind in ("be", "le", "odc", "newc", "crc"):
        first, places = build(kind, [
            ("b", b"hello"), ("none", b""), ("a", b"xx"),
            ("TRAILER!!!", b"")])
        second, more = build(kind, [("a", b"yyy"), ("TRAILER!!!", b"")])
        large, _ = build(kind, [
            ("big", b"0123456789abcdef" * 256 + b"end"), ("x", b"1"),
            ("TRAILER!!!", b"")])
        padding = bytes(-len(first) % 16)
        both = len(first) + len(padding)

        def add(name, data, holes, bounds, size=None, limits=()):
            REGISTRY.add("C07", f"hash-{kind}-{name}", run_hasher, {
                "base": data.hex(), "holes": holes, "size": size,
                "limits": limits}, bounds=bounds)

        names = [places[0]["name"], places[2]["name"]]
        contents = [places[0]["content"], places[2]["content"]]
        add("names", first, [(x, 1) for x, _ in names],
            "hasher: paths of two entries symbolic")
        add("contents", first, contents,
            "hasher: data of two entries symbolic")
        at, width = places[0]["filesize"]
        last = at + width - (2 if kind == "le" else 1)
        low = 0 if kind in ("be", "le") else 0x30
        add("sizes", first, [(last, 1)],
            "hasher: last digit of the size of an entry, 0..9",
            limits=[(last, low, low + 9)])
        at, width = more[0]["content"]
        add("both", first + padding + second, [
            contents[0], (at + both, width)],
            "hasher: two archives, data symbolic")
        add("second-type", first + padding + second, [(both, 6)],
            "hasher: signature of the second archive symbolic")
        add("second-padded", first + padding + second, [
            (len(first), len(padding))] if padding else [],
            "hasher: data between the archives symbolic")
        for label, magic in (("gzip", b"\x1f\x8b"), ("bzip", b"BZ"),
                             ("xz", b"\xfd7zXZ\x00")):
            add(label, first + padding + magic + second, [
                contents[1], (at + both + len(magic), width)],
                f"hasher: {label} archive that follows another")
            add(f"{label}-only", magic + second, [(at + len(magic), width)],
                f"hasher: {label} archive")
            add(f"{label}-more", magic + second + bytes(40) + second, [],
                f"hasher: data in a {label} archive after its trailer")
        add("zeros", first + bytes(64), [], "hasher: padded archive")
        add("large", large, [], "hasher: entry of more than 4096 bytes")
        for size in (0, 1, 2, 3, 6, 30, both + 1, both + 2, both + 3,
                     both + 40, len(first) - 1):
            add(f"cut-{size}", first + padding + second, [],
                f"hasher: archive cut to {size} bytes", size=size)


_register()

REGISTRY.add_reuse()

_register_hasher()
