"""C37: the keys of an AMCache hive are shown exactly.

The library that reads registry hives (pyregf) is replaced by a stand-in that
reads a much simpler serialization of keys and values, so that the tree it
hands to the code is made of symbolic names, types and data.
"""

from dtformats import amcache

from props import lib

REGISTRY = lib.Registry()
cases = REGISTRY.cases
find_case = REGISTRY.find

STRING, EXPAND, BINARY, DWORD, DWORD_BE, LINK, MULTI, QWORD = (
    1, 2, 3, 4, 5, 6, 7, 11)

PROGRAM = {
    "0": "Name", "1": "Version", "2": "Publisher", "3": "Language code",
    "6": "Installation method", "7": "Uninstallation key paths",
    "a": "Installation time", "b": "Uninstallation time",
    "d": "Installation directories", "Files": "File reference key identifiers"}

FILE = {
    "0": "Product name", "1": "Company name", "3": "Language code",
    "5": "File version", "6": "File size", "7": "PE/COFF image size",
    "9": "PE/COFF checksum", "c": "File description",
    "d": "PE/COFF image version", "f": "PE/COFF compilation time",
    "11": "File modification time", "12": "File creation time", "15": "Path",
    "100": "Program identifier", "101": "SHA-1"}

APPLICATION = {
    "ProgramId": "Program identifier",
    "ProgramInstanceId": "Program instance identifier"}

ROOTS = ("{11517b7c-e79d-4e20-961b-75a811715add}",
         "{356c48f6-2fee-e7ef-2a64-39f59ec3be22}")


class Value:
    """A registry value."""

    def __init__(self, name, kind, broken, data):
        self.name = name
        self.type = kind
        self.broken = broken
        self._data = data

    @property
    def data(self):
        self._read()
        return self._data

    def _read(self):
        if self.broken:
            raise OSError("value data")

    def get_data_as_string(self):
        self._read()
        return self._data.decode("ascii")

    def get_data_as_integer(self):
        self._read()
        if self.type == DWORD_BE:
            return int.from_bytes(self._data, "big")
        return int.from_bytes(self._data, "little")

    def get_data_as_multi_string(self):
        self._read()
        if not self._data:
            return []
        return [x.decode("ascii") for x in self._data.split(b"|")]


class Key:
    """A registry key."""

    def __init__(self, name):
        self.name = name
        self.values = []
        self.sub_keys = []

    def get_name(self):
        return self.name

    def get_sub_key_by_path(self, path):
        for key in self.sub_keys:
            if key.name == path:
                return key
        return None


def load(data, offset):
    """A serialized key and its end."""
    size = data[offset]
    offset += 1
    key = Key(data[offset:offset + size].decode("ascii"))
    offset += size
    values, keys = data[offset], data[offset + 1]
    offset += 2
    for _ in range(values):
        size = data[offset]
        offset += 1
        name = data[offset:offset + size].decode("ascii")
        offset += size
        kind, broken, size = data[offset], data[offset + 1], data[offset + 2]
        offset += 3
        key.values.append(Value(name, kind, broken != 0,
                                data[offset:offset + size]))
        offset += size
    for _ in range(keys):
        child, offset = load(data, offset)
        key.sub_keys.append(child)
    return key, offset


class Hive:
    """A registry hive."""

    def __init__(self):
        self._root = None

    def open_file_object(self, file_object):
        self._root, _ = load(file_object.read(), 0)

    def get_root_key(self):
        return self._root

    def get_key_by_path(self, path):
        if path[:1] != "\\":
            raise RuntimeError("path")
        return self._root.get_sub_key_by_path(path[1:])

    def close(self):
        self._root = None


class Library:
    file = Hive


class Reader(amcache.WindowsAMCacheFile):
    """Reads with the stand-in in place of the library."""

    def ReadFileObject(self, file_object):
        original = amcache.pyregf
        amcache.pyregf = Library
        try:
            super().ReadFileObject(file_object)
        finally:
            amcache.pyregf = original


def make(debug, writer):
    return Reader(debug=debug, output_writer=writer)


# Reference


def content(value):
    """What the value holds."""
    if value.broken:
        raise lib.Reject("value data")
    data = value._data
    if value.type == STRING or value.type == EXPAND or value.type == LINK:
        return "string", data.decode("ascii")
    if value.type == DWORD_BE:
        return "integer", int.from_bytes(data, "big")
    if value.type == DWORD or value.type == QWORD:
        return "integer", int.from_bytes(data, "little")
    if value.type == MULTI:
        return "strings", [x.decode("ascii")
                           for x in data.split(b"|")] if data else []
    return "data", data


def integer(kind, found):
    if kind != "integer":
        raise lib.Unspecified("type of the value")
    return found


def reference_of(name):
    """Text of the name of a file key."""
    # The sequence number and the MFT entry, both without leading zeros, are
    # separated by 0000.
    digits = "0123456789abcdefABCDEF"
    for x in name:
        if x not in digits:
            return f"File: {name:s}\n"
    at = -1
    index = 1
    while index + 4 < len(name):
        if (name[index:index + 4] == "0000" and name[index + 4] != "0"
                and name[0] != "0"):
            at = index
            break
        index += 1
    if at < 0:
        return f"File: {name:s}\n"
    sequence = int(name[:at], 16)
    entry = int(name[at + 4:], 16)
    return f"File: {name:s} ({entry:d}-{sequence:d})\n"


def plain(out, value, descriptions):
    _, found = content(value)
    out.append(lib.line(descriptions.get(value.name, value.name), found))


def file_value(out, value):
    label = FILE.get(value.name, value.name)
    kind, found = content(value)
    if value.name == "d":
        found = integer(kind, found)
        out.append(lib.line(label, f"{found >> 16:d}.{found & 0xffff:d}"))
    elif value.name == "f":
        out.append(lib.line(label, lib.posix_time(integer(kind, found))))
    elif value.name == "11" or value.name == "12" or value.name == "17":
        out.append(lib.line(label, lib.filetime(integer(kind, found))))
    else:
        out.append(lib.line(label, found))


def program_value(out, value):
    label = PROGRAM.get(value.name, value.name)
    kind, found = content(value)
    if value.name == "7" or value.name == "d" or value.name == "Files":
        if kind != "strings":
            raise lib.Unspecified("type of the value")
        for text in found:
            out.append(lib.line(label, text))
            label = ""
    elif value.name == "a" or value.name == "b":
        out.append(lib.line(label, lib.posix_time(integer(kind, found))))
    else:
        out.append(lib.line(label, found))


def hive(out, data):
    root, _ = load(data, 0)
    if root.name.lower() not in ROOTS:
        return
    top = root.get_sub_key_by_path("Root")
    if top is None:
        return
    files = top.get_sub_key_by_path("File")
    if files is not None:
        for volume in files.sub_keys:
            for key in volume.sub_keys:
                out.append(reference_of(key.name))
                for value in key.values:
                    file_value(out, value)
                out.append("\n")
    programs = top.get_sub_key_by_path("Programs")
    if programs is not None:
        for key in programs.sub_keys:
            out.append(f"Program: {key.name:s}\n")
            for value in key.values:
                program_value(out, value)
            out.append("\n")
    for name, title, descriptions in (
            ("InventoryApplication", "Application", APPLICATION),
            ("InventoryApplicationFile", "Application File", {})):
        parent = top.get_sub_key_by_path(name)
        if parent is not None:
            for key in parent.sub_keys:
                out.append(f"{title:s}: {key.name:s}\n")
                for value in key.values:
                    plain(out, value, descriptions)
                out.append("\n")


# Files


def value(name, kind, data, broken=0):
    name = name.encode("ascii")
    return bytes([len(name)]) + name + bytes([kind, broken, len(data)]) + data


def key(name, values=(), keys=()):
    name = name.encode("ascii")
    return (bytes([len(name)]) + name + bytes([len(values), len(keys)])
            + b"".join(values) + b"".join(keys))


def tree(*keys, root=ROOTS[0], top="Root"):
    return key(root, (), [key(top, (), keys)])


def mark(data, *patterns):
    """Offsets of patterns, which stand for the symbolic parts."""
    holes = []
    for pattern in patterns:
        pattern = pattern.encode("ascii") if type(pattern) is str else pattern
        if data.count(pattern) != 1:
            raise RuntimeError(pattern)
        holes.append((data.index(pattern), len(pattern)))
    return holes


def run(env, base, holes, ascii_holes=(), limits=(), names=()):
    data = lib.fill(env, base, list(holes) + list(ascii_holes), None, limits)
    for offset, length in ascii_holes:
        for index in range(offset, offset + length):
            env.assume(data[index] >= 0x20)
            env.assume(data[index] <= 0x7e)
    for offset, without in names:
        # Values of these names are of one type.
        for x in without:
            env.assume(data[offset] != ord(x))
    lib.decide(env, make, hive, data)


run.reusable = True


def add(name, data, holes=(), ascii_holes=(), limits=(), names=(), bounds="",
        **more):
    REGISTRY.add(
        "C37", name, run,
        {"base": data.hex(), "holes": list(holes),
         "ascii_holes": list(ascii_holes), "limits": list(limits),
         "names": list(names)},
        bounds=bounds, **more)


def _register():
    files = lambda *values, name="100001605a": tree(
        key("File", (), [key("volume", (), [key(name, values)])]))
    for name in FILE:
        kind = {"d": DWORD, "f": DWORD, "11": QWORD, "12": QWORD}.get(name)
        if kind is None:
            continue
        data = files(value(name, kind, b"#@!~[]{}"[:4 if kind == DWORD else 8]))
        add(f"file-{name}", data, mark(data, b"#@!~[]{}"[
            :4 if kind == DWORD else 8]),
            bounds=f"file key with value {name}: all 32- or 64-bit integers")
    data = files(value("17", QWORD, b"#@!~[]{}"))
    add("file-17", data, mark(data, b"#@!~[]{}"),
        bounds="file key with value 17: all 64-bit integers")
    data = files(value("#", STRING, b"@~"), value("15", STRING, b"!"))
    add("file-name", data, (), mark(data, "#", "@~", "!"),
        names=[(data.index(b"#"), "df")],
        bounds="file key, values of one symbolic character as name and 2 as "
               "data, and a path of one character")
    data = files(value("1#", DWORD, b"@~[]"))
    add("file-name2", data, mark(data, "@~[]"), mark(data, "#"),
        bounds="file key, value named 1 and a symbolic character; all 32-bit "
               "integers")
    data = files(value("10#", DWORD, b"@"))
    add("file-name3", data, mark(data, "@"), mark(data, "#"),
        bounds="file key, value named 10 and a symbolic character")
    for name, free in (("#0000@", "#@"), ("#@0000!", "#@!"),
                       ("#0000@!", "#@!"), ("1#00@00!a", "#@!"),
                       ("1000#00@!a", "#@!"), ("100000#@!9dd", "#@!"),
                       ("10000#000@!", "#@!"), ("#000@c", "#@"),
                       ("g#000!@1", "#@!")):
        data = files(value("15", STRING, b"a"), name=name)
        at = data.index(name.encode("ascii"))
        add(f"file-reference-{name}", data, (),
            [(at + i, 1) for i, x in enumerate(name) if x in free],
            bounds=f"file key of a name of {len(name)} characters, "
                   f"{len(free)} of them symbolic")
    data = files(value("0", 0xee, b"#@!~"))
    at = data.index(b"\xee\x00\x04#@!~")
    add("file-type", data, [(at, 1), (at + 3, 4)],
        limits=[(at + 3 + i, 0x21, 0x7e) for i in range(4)],
        bounds="file key with a value of every type; 4 symbolic bytes")
    data = files(value("0", STRING, b"a"), value("1", 0xee, b"b", 0x55))
    at = data.index(b"\xee\x55\x01b")
    add("file-broken", data, [(at, 2)],
        bounds="file key with values of every type, read with and without "
               "error")
    programs = lambda *values, name="p": tree(
        key("Programs", (), [key(name, values), key("q", [
            value("1", STRING, b"v")])]))
    data = programs(value("#", STRING, b"@~"), value("0", STRING, b"!"))
    add("program-name", data, (), mark(data, "#", "@~", "!"),
        names=[(data.index(b"#"), "7abd")],
        bounds="program keys, values of one symbolic character as name and 2 "
               "as data")
    for name in ("a", "b"):
        data = programs(value(name, QWORD, b"#@!~[]{}"))
        add(f"program-{name}", data, mark(data, "#@!~[]{}"),
            bounds=f"program key with value {name}: all 64-bit integers")
    for name in ("7", "d", "Files"):
        data = programs(value(name, MULTI, b"#@!~"), value("2", STRING, b"z"))
        add(f"program-{name}", data, (), mark(data, "#@!~"),
            bounds=f"program key with value {name}: every list of strings "
                   "of 4 characters in total")
        data = programs(value(name, MULTI, b""), value("2", STRING, b"z"))
        add(f"program-{name}-empty", data,
            bounds=f"program key with an empty list as value {name}")
    data = programs(value("0", 0xee, b"#@!~", 0x55))
    at = data.index(b"\xee\x55\x04")
    add("program-type", data, [(at, 2), (at + 3, 4)],
        limits=[(at + 3 + i, 0x21, 0x7e) for i in range(4)],
        bounds="program key with a value of every type, read with and "
               "without error; 4 symbolic bytes")
    for parent, title in (("InventoryApplication", "application"),
                          ("InventoryApplicationFile", "application-file")):
        data = tree(key(parent, (), [
            key("#", [value("ProgramId", STRING, b"@"),
                      value("ProgramInstance!d", MULTI, b"~"),
                      value("x", 0xee, b"[]", 0x55)]),
            key("z", [value("ProgramId", STRING, b"y")])]))
        at = data.index(b"\xee\x55\x02")
        add(title, data, [(at, 2)], mark(data, "#", "@", "!", "~", "[]"),
            bounds=f"{parent}: 2 keys, symbolic characters in names and data, "
                   "a value of every type, read with and without error")
    every = (
        key("File", [value("9", STRING, b"no")], [
            key("v", [value("8", STRING, b"no")], [
                key("1a", [value("0", STRING, b"A")]),
                key("1b", [value("0", STRING, b"B")])]),
            key("w", (), [key("1c", [value("0", STRING, b"C")])])]),
        key("Programs", [value("9", STRING, b"no")], [
            key("p", [value("0", STRING, b"D")])]),
        key("InventoryApplication", [value("9", STRING, b"no")], [
            key("a", [value("Name", STRING, b"E")])]),
        key("InventoryApplicationFile", [value("9", STRING, b"no")], [
            key("f", [value("ProgramId", STRING, b"F")])]))
    for number, root in enumerate(ROOTS):
        data = tree(*every, root=root.upper() if number else root)
        add(f"root-{number}", data, (), [(2, 1), (8, 1)],
            bounds="whole hive, 2 symbolic characters in the name of the "
                   "root key")
    data = tree(*every)
    holes = []
    for name in ("Programs", "InventoryApplicationFile"):
        at = data.index(bytes([len(name)]) + name.encode("ascii"))
        holes.append((at + 1, 1))
    at = data.index(b"\x04File\x01\x02")
    holes.append((at + 4, 1))
    add("keys", data, (), holes,
        bounds="whole hive, symbolic characters in the names of the keys "
               "looked up")
    data = tree(*every, top="#oot")
    add("top", data, (), mark(data, "#"),
        bounds="whole hive, symbolic character in the name of the top key")


_register()
